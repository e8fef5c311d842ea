"""Run one oracle module on the real code.  runner.py PID OUT.json [--replay F]"""
import ast, contextlib, importlib, io, json, os, random, sys, tempfile, time, traceback, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import common


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def in_xylem(tb):
    frames = traceback.extract_tb(tb)
    root = os.path.join(os.path.realpath(REPO), 'xylem') + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in frames)


def run_case(fn, inp):
    """-> ('ok'|'fail'|'skip'|'error', message)"""
    out = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            m = fn(inp)
        return ('ok', '') if m is None else ('fail', m)
    except common.Skip as e:
        return ('skip', str(e))
    except CaseTimeout:
        return ('fail', 'does not terminate within 60 s')
    except BaseException as e:
        tb = e.__traceback__
        if isinstance(e, KeyboardInterrupt):
            raise
        txt = ''.join(traceback.format_exception(type(e), e, tb))[-1500:]
        if in_xylem(tb):
            return ('fail', 'unexpected %s: %s\n%s' % (type(e).__name__, e, txt))
        return ('error', txt)
    finally:
        signal.alarm(0)


def main():
    pid, outfile = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    work = tempfile.mkdtemp(prefix='xyl-oracle-')
    os.environ['HOME'] = work
    for v in list(os.environ):
        if v.startswith('XYLEM'):
            del os.environ[v]
    os.environ['VERIF_WORK'] = work
    os.chdir(work)
    res = dict(pid=pid, evaluations=0, nontrivial=0, skipped={}, errors=[], violations=[],
               samples=[], cases={})
    t0 = time.time()
    try:
        try:
            mod = importlib.import_module(pid.lower())
        except common.Skip as e:
            res['skipped']['*'] = str(e)
            mod = None
        if mod is not None and '--replay' in sys.argv:
            rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            st, m = run_case(mod.CASES[rp['case']], ast.literal_eval(rp['input']))
            print(st, m)
            sys.exit(1 if st == 'fail' else 0)
        if mod is not None:
            rng = random.Random(seed)
            seen = set()
            failed_cases = {}
            for item in mod.gen(rng, tier):
                name, inp = item[0], item[1]
                nontriv = item[2] if len(item) > 2 else True
                if failed_cases.get(name, 0) >= 3:
                    continue
                r = repr(inp)
                if (name, r) in seen:
                    continue
                seen.add((name, r))
                st, m = run_case(mod.CASES[name], ast.literal_eval(r))
                if st == 'skip':
                    res['skipped'][name] = m
                    continue
                res['evaluations'] += 1
                res['cases'][name] = res['cases'].get(name, 0) + 1
                if nontriv:
                    res['nontrivial'] += 1
                    if res['cases'][name] in (2, 7) and len(res['samples']) < 12:
                        res['samples'].append({'case': name, 'input': r[:600]})
                if st == 'fail':
                    failed_cases[name] = failed_cases.get(name, 0) + 1
                    res['violations'].append(dict(case=name, input=r, what=m[:3000]))
                elif st == 'error':
                    res['errors'].append(dict(case=name, input=r[:500], what=m))
                    if len(res['errors']) > 5:
                        break
            res['rule'] = getattr(mod, 'RULE', '')
            res['exhaustive_part'] = getattr(mod, 'EXHAUSTIVE', '')
    finally:
        os.chdir('/')
        shutil.rmtree(work, ignore_errors=True)
    res['wall_s'] = round(time.time() - t0, 2)
    with open(outfile, 'w') as f:
        json.dump(res, f)


main()
