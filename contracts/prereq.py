"""Contracts for the prerequisites of package managers (xylem/installers/package_manager_installer.py).

What the plugin is asked and told to do are events of the trace; what it answers is arbitrary, event by event.
"""
from contracts.world import *
from contracts.install import event, trace, ok

I = M.I
PM = 'xylem.installers.package_manager_installer:PackageManagerInstaller.'
_yes = z3.Function('rs:answers yes', I, z3.BoolSort())      # answer to the question of this event
_cannot = z3.Function('rs:not implemented', I, z3.BoolSort())     # the plugin cannot do or tell this


def asks(i, what):
    return M.vtuple([STR(what), i])


def installs(i, os_tuple, inter):
    return M.vtuple([STR('install package manager'), i, os_tuple, inter])


def updates(i, inter):
    return M.vtuple([STR('update package manager'), i, inter])


db.fields['PackageManagerInstaller'] = {'executable_name': 'str'}
PI = 'PackageManagerInstaller.'
INST, UPD = 'is installed', 'is updated'
method(PI + 'is_package_manager_installed', ['self'], 'bool', lambda c: event(c, asks(c.a.self, INST)) + [
    ('answer', (c.res == M.vbool(True)) == _yes(c.pre.trn()))], modifies_=trace())
method(PI + 'install_package_manager', ['self', 'os_tuple', 'interactive'], 'any', lambda c: event(
    c, installs(c.a.self, c.a.os_tuple, c.a.interactive)) + [('can', Not(_cannot(c.pre.trn())))],
    raises_={'NotImplementedError': None, 'InstallerPrerequisiteError': never, 'Exception': None}, modifies_=trace(),
    exc=lambda c, e: event(c, installs(c.a.self, c.a.os_tuple, c.a.interactive)) + (
        [('cannot', _cannot(c.pre.trn()))] if e == 'NotImplementedError' else []))
method(PI + 'is_package_manager_updated', ['self'], 'bool', lambda c: event(c, asks(c.a.self, UPD)) + [
    ('answer', (c.res == M.vbool(True)) == _yes(c.pre.trn()))],
    raises_={'NotImplementedError': None}, modifies_=trace(), exc=lambda c, e: event(c, asks(c.a.self, UPD)))
method(PI + 'update_package_manager', ['self', 'interactive'], 'any', lambda c: event(c, updates(c.a.self, c.a.interactive)),
       raises_={'NotImplementedError': None, 'InstallerPrerequisiteError': never, 'Exception': None}, modifies_=trace(),
       exc=lambda c, e: event(c, updates(c.a.self, c.a.interactive)))
for n in ('install_package_manager', 'update_package_manager'):
    db.contracts['iface:' + PI + n].defaults = {'interactive': True}

TYPES = {'self': 'PackageManagerInstaller', 'os_tuple': 'any', 'fix_unsatisfied': 'bool', 'interactive': 'bool'}
FIX = lambda c: c.a.fix_unsatisfied == M.vbool(True)


def happened(c, *evs):
    """exactly these events"""
    t0, H = c.pre.trn(), c.post
    return And(H.trn() == t0 + len(evs), *[H.tr(t0 + i) == e for i, e in enumerate(evs)])


def last_is(H, t0, e, yes):
    t = H.trn() - 1
    return And(t >= t0, H.tr(t) == e, _yes(t) == z3.BoolVal(yes))


@contract
class installed(Contract):
    key = PM + 'check_package_manager_installed'
    types = TYPES
    result = 'none'
    raises = {'InstallerPrerequisiteError': None, 'Exception': None}
    modifies = trace()

    def ensures(c):
        q, a = asks(c.a.self, INST), installs(c.a.self, c.a.os_tuple, c.a.interactive)
        t0 = c.pre.trn()
        return [('installed in the end', last_is(c.post, t0, q, True)),
                ('at once or after one attempt, if requested', Or(And(happened(c, q), _yes(t0)), And(
                    FIX(c), happened(c, q, a, q), Not(_yes(t0)), Not(_cannot(t0 + 1)))))]

    def ens_exc(c, e):
        q, a = asks(c.a.self, INST), installs(c.a.self, c.a.os_tuple, c.a.interactive)
        t0 = c.pre.trn()
        if e == 'InstallerPrerequisiteError':
            return [('not installed, one attempt if requested', And(Not(_yes(t0)), Or(
                And(Not(FIX(c)), happened(c, q)), And(FIX(c), happened(c, q, a)),
                And(FIX(c), happened(c, q, a, q), Not(_yes(t0 + 2))))))]
        return [('raised by the attempt', And(FIX(c), Not(_yes(t0)), happened(c, q, a)))]


def updated_events(c):
    q, a = asks(c.a.self, UPD), updates(c.a.self, c.a.interactive)
    return q, a, c.pre.trn()


@contract
class updated(Contract):
    key = PM + 'check_package_manager_updated'
    types = TYPES
    result = 'none'
    raises = {'InstallerPrerequisiteError': never, 'NotImplementedError': never, 'Exception': None}
    modifies = trace()

    def ensures(c):
        q, a, t0 = updated_events(c)
        return [('at most one attempt, if requested', Or(happened(c, q), And(
            FIX(c), Not(_yes(t0)), Or(happened(c, q, a), happened(c, q, a, q)))))]

    def ens_exc(c, e):
        q, a, t0 = updated_events(c)
        if e == 'Exception':
            return [('raised by the attempt', And(FIX(c), Not(_yes(t0)), happened(c, q, a)))]
        return [('never', z3.BoolVal(False))]


@contract
class general(Contract):
    key = PM + 'check_general_prerequisites'
    types = TYPES
    result = 'none'
    raises = {'InstallerPrerequisiteError': None, 'Exception': None}
    modifies = trace()

    def ensures(c):
        t0, H = c.pre.trn(), c.post
        q = asks(c.a.self, INST)
        a = installs(c.a.self, c.a.os_tuple, c.a.interactive)
        at = lambda i: H.tr(t0 + i)
        once = And(at(0) == q, _yes(t0))
        twice = And(at(0) == q, at(1) == a, at(2) == q, Not(_yes(t0)), _yes(t0 + 2), FIX(c))
        n = Ite(_yes(t0), t0 + 1, t0 + 3)
        return [('installed at once or after one attempt', Or(once, twice)),
                ('then updated', And(H.trn() > n, M.forall(1, lambda k: Imp(And(k >= n, k < H.trn()), Or(
                    H.tr(k) == asks(c.a.self, UPD), And(FIX(c), H.tr(k) == updates(c.a.self, c.a.interactive)))), lambda k: [H.tr(k)], [I]))),
                ('updated once', H.trn() <= n + 3)]

    def ens_exc(c, e):
        t0 = c.pre.trn()
        if e == 'InstallerPrerequisiteError':
            q, a = asks(c.a.self, INST), installs(c.a.self, c.a.os_tuple, c.a.interactive)
            return [('not installed', And(Not(_yes(t0)), Or(And(Not(FIX(c)), happened(c, q)), And(FIX(c), Or(
                happened(c, q, a), And(happened(c, q, a, q), Not(_yes(t0 + 2))))))))]
        return [('only when fixing', FIX(c))]
