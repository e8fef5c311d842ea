import itertools
from common import *
from inst import *
RULE = ('resolved lists over 1-3 fake installers with per-item installed states, failing/empty command composition, failing detection, '
        'command exit statuses; simulate/continue/reinstall flags exhaustive; subprocess replaced by a recorder')


class FakeInst(object):
    """script: dict name -> behaviour; resolutions are strings"""
    def __init__(self, name, s, log, installed):
        self.name, self.s, self.log, self.installed = name, s, log, installed

    def resolve(self, rule):
        return list(rule['packages'])

    def err(self):
        return need('xylem.installers:InstallerError')('scripted')

    def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False, interactive=True):
        self.log.append(('general', self.name, fix_unsatisfied, interactive))

    def check_install_prerequisites(self, resolutions, os_tuple, fix_unsatisfied=False, interactive=True):
        self.log.append(('install', self.name, list(resolutions)))

    def filter_uninstalled(self, resolutions):
        self.log.append(('filter', self.name))
        if self.s.get('filterfail'):
            raise self.err()
        return [r for r in resolutions if r not in self.installed]

    def is_installed(self, item):
        if item in self.s.get('detectfail', ()):
            raise self.err()
        return item in self.installed

    def get_install_commands(self, resolutions, interactive=True, reinstall=False):
        self.log.append(('compose', self.name, list(resolutions), interactive, reinstall))
        if self.s.get('composefail'):
            raise self.err()
        if self.s.get('nocmds'):
            return []
        cmds = []
        for r in resolutions:
            cmds.append(['in', self.name, r])
            if r in self.s.get('twice', ()):
                cmds.append(['in2', self.name, r])
        return cmds


class Calls(object):
    """replaces subprocess; exit status per package"""
    def __init__(self, status, installed):
        self.calls, self.status, self.installed = [], status, installed

    def call(self, cmd, *a, **k):
        cmd = list(cmd)
        self.calls.append(cmd)
        st = self.status.get(cmd[2], 0)
        if st == 0:
            self.installed.add(cmd[2])
        if st == 'silent':
            return 0
        return st

    def check_call(self, cmd, *a, **k):
        r = self.call(cmd)
        if r:
            import subprocess
            raise subprocess.CalledProcessError(r, cmd)
        return 0

    def Popen(self, cmd, *a, **k):
        r = self.call(cmd)
        return Rec(wait=lambda: r, communicate=lambda *a: (b'', b''), returncode=r, poll=lambda: r)

    def run(self, cmd, *a, **k):
        return Rec(returncode=self.call(cmd))


def patched(calls):
    import subprocess
    old = (subprocess.call, subprocess.check_call, subprocess.Popen, subprocess.run)
    subprocess.call, subprocess.check_call, subprocess.Popen, subprocess.run = calls.call, calls.check_call, calls.Popen, calls.run

    def undo():
        subprocess.call, subprocess.check_call, subprocess.Popen, subprocess.run = old
    return undo


class Undetermined(Exception):
    """composition asked for an installer without resolutions: left open"""


def expect(groups, scripts, status, installed0, flags):
    """reference semantics of install_resolved on already filtered groups -> (executed, must_have_errors, n_errors)"""
    simulate, cont, reinstall = flags
    executed, nerr = [], 0
    inst = set(installed0)
    for name, rs in groups:
        s = scripts[name]
        if not rs and s.get('composefail'):
            raise Undetermined
        if s.get('composefail'):
            nerr += 1
            if not cont:
                return executed, nerr
            continue
        if s.get('nocmds') or not rs:
            continue
        if simulate:
            continue
        gerr = 0
        stop = False
        for r in rs:
            for c in ['in'] + (['in2'] if r in s.get('twice', ()) else []):
                executed.append([c, name, r])
                st = status.get(r, 0)
                if st == 0:
                    inst.add(r)
                if st not in (0, 'silent'):
                    gerr += 1
                    if not cont:
                        stop = True
                        break
            if stop:
                break
        if not stop:
            for r in rs:
                if r in s.get('detectfail', ()) or r not in inst:
                    gerr += 1
        nerr += gerr
        if gerr and not cont:
            return executed, nerr
    return executed, nerr


def squash(groups):
    out = []
    for n, rs in groups:
        if out and out[-1][0] == n:
            out[-1][1].extend(rs)
        else:
            out.append((n, list(rs)))
    return out


def c_resolved(inp):
    groups, scripts, status, inst0, flags = inp
    simulate, cont, reinstall = flags
    log, installed = [], set(inst0)
    plugs = [FakeInst(n, s, log, installed) for n, s in scripts.items()]
    ic = mkctx(plugs, list(scripts))
    calls = Calls(status, installed)
    f = need('xylem.install:install_resolved')
    g0 = dc(groups)
    undo = patched(calls)
    try:
        g = outcome(f, groups, ic, interactive=True, reinstall=reinstall, simulate=simulate, continue_on_error=cont)
    finally:
        undo()
    if not same(groups, g0):
        return fail('changed its argument')
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    try:
        ex, nerr = expect(squash(groups), scripts, status, inst0, flags)
    except Undetermined:
        return None
    if calls.calls != ex:
        return fail('executed %r, expected %r', calls.calls, ex)
    if simulate and calls.calls:
        return fail('executed %r while simulating', calls.calls)
    if len(g[1]) != nerr:
        return fail('reported %r, expected %d failures', [str(e) for e in g[1]], nerr)
    if not simulate and not g[1]:
        for n, rs in groups:
            for r in rs:
                if not scripts[n].get('nocmds') and r not in installed:
                    return fail('empty result, but %r is not installed', r)


def c_install(inp):
    """whole install(): keys -> database -> commands"""
    db, keys, scripts, status, inst0, simulate, cont, reinstall, fix = inp
    log, installed = [], set(inst0)
    plugs = [FakeInst(n, s, log, installed) for n, s in scripts.items()]
    ic = mkctx(plugs, list(scripts))
    calls = Calls(status, installed)
    D = Rec(lookup=lambda k, c: db.get(k, {}), keys=lambda c: list(db))
    f = need('xylem.install:install')
    undo = patched(calls)
    try:
        g = outcome(f, keys, interactive=False, reinstall=reinstall, simulate=simulate, continue_on_error=cont,
                    fix_prerequisites=fix, config=config(), database=D, installer_context=ic)
    finally:
        undo()
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    rerr, ierr = g[1]
    uk, groups, nres = [], [], 0
    for k in keys:
        if k in uk:
            continue
        uk.append(k)
        d = db.get(k, {})
        c = [n for n in scripts if n in d]
        if c:
            groups.append((c[0], list(d[c[0]]['packages'])))
        else:
            nres += 1
    if len(rerr) != nres:
        return fail('resolve errors %r, expected %d', rerr, nres)
    if nres and not cont:
        if calls.calls or any(x[0] in ('compose', 'install', 'general') for x in log):
            return fail('resolution failed but %r %r', calls.calls, log)
        return None
    groups = squash(groups)
    flt, ferr = [], 0
    for n, rs in groups:
        if reinstall:
            flt.append((n, rs))
        elif scripts[n].get('filterfail'):
            ferr += 1
            if rs:
                flt.append((n, rs))
        else:
            rr = [r for r in rs if r not in inst0]
            if rr:
                flt.append((n, rr))
    if ferr and not cont:
        if calls.calls:
            return fail('detection failed before installation, but executed %r', calls.calls)
        if len(ierr) < ferr:
            return fail('detection failure is not reported: %r', ierr)
        return None
    try:
        ex, nerr = expect(squash(flt), scripts, status, inst0, (simulate, cont, reinstall))
    except Undetermined:
        return None
    if calls.calls != ex:
        return fail('executed %r, expected %r', calls.calls, ex)
    if len(ierr) != nerr and not ferr:
        return fail('install errors %r, expected %d', [str(e) for e in ierr], nerr)
    if nerr and not ierr:
        return fail('failures not reported')
    names = []
    for n, _ in groups:
        if n not in names:
            names.append(n)
    gen_ = [x[1] for x in log if x[0] == 'general']
    must = {n for n, rs in groups if rs}
    if len(set(gen_)) != len(gen_) or not must <= set(gen_) <= set(names):
        return fail('general prerequisites checked for %r, involved %r', gen_, names)
    if any(x[2:] != (fix, False) for x in log if x[0] == 'general'):
        return fail('fix/interactive not passed on: %r', log)
    ins = [x[1] for x in log if x[0] == 'install']
    names2 = []
    for n, _ in flt:
        if n not in names2:
            names2.append(n)
    must = {n for n, rs in flt if rs}
    if len(set(ins)) != len(ins) or not must <= set(ins) <= set(names2):
        return fail('install prerequisites checked for %r, involved %r', ins, names2)
    for x in log:
        if x[0] == 'install':
            allr = [r for n, rs in flt if n == x[1] for r in rs]
            if x[2] != allr:
                return fail('install prerequisites of %s got %r instead of %r', x[1], x[2], allr)
    kinds = [x[0] for x in log]
    if 'compose' in kinds and ('install' in kinds[kinds.index('compose'):] or 'general' in kinds[kinds.index('compose'):]):
        return fail('prerequisites checked after installation started: %r', log)
    for x in log:
        if x[0] == 'compose' and x[3:] != (False, reinstall):
            return fail('interactive/reinstall not passed on: %r', x)


CASES = dict(resolved=c_resolved, install=c_install)


def rscript(r, items):
    s = {}
    if r.random() < .12:
        s['composefail'] = 1
    if r.random() < .1:
        s['nocmds'] = 1
    if r.random() < .1:
        s['filterfail'] = 1
    if r.random() < .2:
        s['detectfail'] = [r.choice(items)]
    if r.random() < .2:
        s['twice'] = [r.choice(items)]
    return s


def gen(rng, tier):
    items = ['p', 'q', 'r', 's']
    for flags in itertools.product([False, True], repeat=3):
        for sc in ({}, {'composefail': 1}, {'nocmds': 1}, {'detectfail': ['p']}, {'detectfail': ['q']}, {'twice': ['p']}):
            for st in ({}, {'p': 1}, {'q': 2}, {'p': 'silent'}, {'q': 'silent'}, {'p': -9}, {'p': 1, 'q': 1}):
                for gs in ([('a', ['p', 'q'])], [('a', ['p']), ('b', ['q'])], [('a', ['p']), ('a', ['q'])], [('b', ['q']), ('a', ['p']), ('b', ['r'])]):
                    yield 'resolved', (gs, {'a': sc, 'b': {}}, st, [], flags)
        yield 'resolved', ([], {}, {}, [], flags)
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        scripts = {k: rscript(rng, items) for k in ['a', 'b', 'c'][:rng.randint(1, 3)]}
        groups = [(rng.choice(list(scripts)), [rng.choice(items) + str(j) if rng.random() < .3 else rng.choice(items) for _ in range(rng.randint(1, 3))]) for j in range(rng.randint(0, 4))]
        status = {x: rng.choice([0, 0, 1, 'silent', 127]) for x in items}
        flags = tuple(rng.random() < p for p in (.2, .5, .3))
        yield 'resolved', (groups, scripts, status, rng.sample(items, rng.randint(0, 2)), flags)
        db = {}
        for k in ['k1', 'k2', 'k3', 'k4']:
            if rng.random() < .85:
                db[k] = {nm: {'packages': [rng.choice(items) for _ in range(rng.randint(0, 2))]} for nm in rng.sample(list(scripts) + ['zz'], rng.randint(1, 2) if len(scripts) else 1)}
        keys = [rng.choice(['k1', 'k2', 'k3', 'k4']) for _ in range(rng.randint(0, 4))]
        yield 'install', (db, keys, scripts, status, rng.sample(items, rng.randint(0, 2))) + flags[:1] + (flags[1], flags[2], rng.random() < .5)
