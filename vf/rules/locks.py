"""T01, T02: results of the lock operations, scoped guards."""
import re
from .common import *

PRIMS = {
    'pthread_mutex_lock': ('mutex', 'block'), 'pthread_mutex_timedlock': ('mutex', 'timed'),
    'pthread_mutex_clocklock': ('mutex', 'timed'), 'pthread_mutex_trylock': ('mutex', 'try'),
    'pthread_rwlock_rdlock': ('read', 'block'), 'pthread_rwlock_timedrdlock': ('read', 'timed'),
    'pthread_rwlock_clockrdlock': ('read', 'timed'), 'pthread_rwlock_tryrdlock': ('read', 'try'),
    'pthread_rwlock_wrlock': ('write', 'block'), 'pthread_rwlock_timedwrlock': ('write', 'timed'),
    'pthread_rwlock_clockwrlock': ('write', 'timed'), 'pthread_rwlock_trywrlock': ('write', 'try'),
    'sem_wait': ('sem', 'block'), 'sem_timedwait': ('sem', 'timed'), 'sem_clockwait': ('sem', 'timed'),
    'sem_trywait': ('sem', 'try'),
}
RELEASE = {'pthread_mutex_unlock': 'mutex', 'pthread_rwlock_unlock': 'rwlock', 'sem_post': 'sem'}

T = 'icl_core::thread::'
L = 'icl_core::logging::'
# class -> {method: (what, how)}
API = {
    T + 'Mutex': {'lock': ('mutex', 'block'), 'tryLock': ('mutex', 'try'), 'unlock': ('mutex', 'release')},
    T + 'RWLock': {'readLock': ('read', 'block'), 'writeLock': ('write', 'block'), 'tryReadLock': ('read', 'try'),
                   'tryWriteLock': ('write', 'try'), 'unlock': ('rwlock', 'release')},
    T + 'Semaphore': {'wait': ('sem', 'block'), 'tryWait': ('sem', 'try'), 'post': ('sem', 'release')},
    L + 'Semaphore': {'wait': ('sem', 'block'), 'post': ('sem', 'release')},
}


class LockResult(Rule):
    """mon = None or (what, how, object, result, deadline)"""
    join_limit = 24

    def inline(self, eng, fn, sname):
        if sname.startswith('icl_core::logging::') and not re.search(r'::Semaphore', sname):
            return False
        return True

    def pure_repo(self, sname):
        return True

    def rename(self, eng, mon, f):
        return mon if mon is None else tuple(mapval(f, x) for x in mon)

    def mon_values(self, mon):
        return [x for x in mon if isinstance(x, tuple)] if mon else []

    def call(self, eng, st, ins, sname, fn, args):
        if sname == 'icl_core::TimeBase::normalizeTime':
            return [Outcome('ret', None, st)]       # the represented time does not change
        if sname in ('icl_core::TimeStamp::now',):
            if ins.idx in st.defd:
                eng.redefine(st, ins.idx)
            st.defd = st.defd | {ins.idx}
            s = ('s', ('ret', eng.cur_path, ins.idx, 'now.s'))
            n = ('s', ('ret', eng.cur_path, ins.idx, 'now.n'))
            if not args:
                return [Outcome('ret', ('agg', (s, n)), st)]
            ob = eng.as_ptr(eng.reeval(ins.fn, ins, st)[0][1])
            if ob and isinstance(ob[1], int):
                eng.mstore(st, ('p', ob[0], ob[1]), s, 8, ins)
                eng.mstore(st, ('p', ob[0], ob[1] + 8), n, 4, ins)
            return [Outcome('ret', None, st)]
        if sname in PRIMS:
            what, how = PRIMS[sname]
            old = st.mon
            if old is not None:
                if old[0] == 'released':
                    eng.report(ins, 'acquires after the release')
                elif eng.decide_icmp(st, 'eq', old[3], I(0), 32) is not False:
                    eng.report(ins, 'the primitive is acquired again although the previous attempt may have succeeded')
            if ins.idx in st.defd:
                eng.redefine(st, ins.idx)
                args = eng.reeval(ins.fn, ins, st)
            st.defd = st.defd | {ins.idx}
            dl = None
            if how == 'timed':
                a = args[-1][1]
                if 'clock' in sname:
                    ck = args[1][1]
                    if ck != I(0):
                        eng.report(ins, 'the deadline is measured against a clock other than CLOCK_REALTIME')
                ob = eng.as_ptr(a)
                if ob and isinstance(ob[1], int):
                    dl = (eng.mload(st, ('p', ob[0], ob[1]), 8, ins), eng.mload(st, ('p', ob[0], ob[1] + 8), 8, ins))
            res = ('s', ('r', eng.cur_path, ins.idx))
            st.mon = (what, how, args[0][1], res, dl)
            self.prims.add((sname, eng.p.where(ins)))
            return [Outcome('ret', res, st)]
        if sname in RELEASE:
            if st.mon is not None:
                eng.report(ins, 'releases more than once, or releases what it acquired itself')
            st.mon = ('released', RELEASE[sname], args[0][1], None, None)
            self.prims.add((sname, eng.p.where(ins)))
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx)), st)]
        return None


def check_result(eng, o, fn, what, how, report):
    """the boolean result of outcome o is true exactly when the primitive succeeded"""
    m = o.st.mon
    if m is None or m[0] == 'released':
        report('returns without attempting to acquire (expected a %s operation on the %s)' % (how, what))
        return None
    if m[0] != what or m[1] != how:
        report('acquires with a %s/%s primitive, a %s/%s one is required' % (m[0], m[1], what, how))
    ret = o.ret
    for truth in (True, False):
        s = o.st.copy()
        if ret[0] in ('u', 'undef'):
            report('returns an unknown value')
            break
        if not eng.assume(s, ret, truth):
            continue
        d = eng.decide_icmp(s, 'eq', m[3], I(0), 32)
        if truth and d is not True:
            report('returns true although the primitive may have failed')
        if not truth and d is not False:
            report('returns false although the primitive may have succeeded')
    return m


def check_deadline(eng, o, kind, dl, report):
    if dl is None:
        report('the deadline passed to the primitive is unknown')
        return
    sec, nsec = lin(eng.norm(o.st, dl[0])), lin(eng.norm(o.st, dl[1]))
    arg = ('arg', 1)
    asec, ansec = ('s', ('ld', arg, 0, 0)), ('s', ('ld', arg, 8, 0))
    if kind == 'TimeStamp':
        if sec != lin(eng.norm(o.st, asec)) or nsec != lin(eng.norm(o.st, ansec)):
            report('the deadline passed to the primitive is not the given point in time')
        return
    now = [a for a in sec if isinstance(a, tuple) and a[0] == 's' and a[1][0] == 'ret' and a[1][-1] == 'now.s' and sec[a] == 1]
    nown = [a for a in nsec if isinstance(a, tuple) and a[0] == 's' and a[1][0] == 'ret' and a[1][-1] == 'now.n' and nsec[a] == 1]
    if len(now) != 1 or len(nown) != 1 or now[0][1][:3] != nown[0][1][:3]:
        report('the deadline of a relative timeout is not based on one reading of the current time')
        return
    sec.pop(now[0])
    nsec.pop(nown[0])
    if sec == lin(eng.norm(o.st, asec)) and nsec == lin(eng.norm(o.st, ansec)):
        return
    if set(sec) <= {1} and set(nsec) <= {1} and sec.get(1, 0) >= 86400:
        # "no timeout" for negative time spans
        s = o.st.copy()
        if not eng.assume(s, ('x', 'icmp', 'sgt', asec, I(0), 64), True):
            return
        report('a positive relative timeout is replaced by a constant')
        return

    report('the deadline of a relative timeout is not the current time plus the timeout')


def methods(p, cls, name):
    return one(p.find(cls + '::' + name), cls + '::' + name)


def t01(ctx):
    ctx.rule('result', 'every lock/wait operation attempts the primitive of its kind exactly once (retries only after a failure) and '
                       'returns true iff it returned 0')
    ctx.rule('deadline', 'timed operations pass the given point in time, or one reading of the clock plus the time span, to the primitive')
    ctx.rule('release', 'unlock/post operate exactly once, on every path, on the object which the acquiring operations use')
    ctx.rule('init', 'semaphores are initialised with the requested count, mutexes are recursive')
    ctx.rule('spin', 'spin lock: exchange protocol with acquire/release ordering, true iff the lock was free before')
    ctx.assumptions += ['POSIX semantics of the pthread_*/sem_* primitives', 'time arithmetic does not overflow']
    p = ctx.load(['icl_core_thread', 'icl_core'], ['thread_inst'])
    pl = ctx.load(['icl_core_logging'])
    for cls, ms in sorted(API.items()):
        prog = pl if cls.startswith(L) else p
        objs = {}
        for name, (what, how) in sorted(ms.items()):
            for f in methods(prog, cls, name):
                full = prog.fullname(f.name)
                kind = 'TimeStamp' if 'TimeStamp' in full else 'TimeSpan' if 'TimeSpan' in full else None
                h = 'timed' if kind else how
                r = LockResult()
                r.prims = set()
                e = Engine(prog, r)
                outs = e.explore(f, e.default_args(f, ('this', cls)), None)
                rule = 'release' if how == 'release' else 'result'

                def report(msg):
                    ctx.violation(rule, prog.fwhere(f), full, msg)
                if not outs:
                    report('never returns')
                for o in outs:
                    if o.kind != 'ret':
                        continue
                    if how == 'release':
                        m = o.st.mon
                        if m is None or m[0] != 'released' or m[1] != what:
                            report('returns without releasing the %s' % what)
                        else:
                            objs.setdefault(m[2], []).append(full)
                    else:
                        m = check_result(e, o, f, what, h, report)
                        if m is not None:
                            objs.setdefault(m[2], []).append(full)
                            if kind:
                                check_deadline(e, o, kind, m[4], report)
                                ctx.ok('deadline', full)
                ctx.ok(rule, '%s -> %s' % (full, ', '.join(sorted(x[0] for x in r.prims))))
                ctx.take(e, rule)
        if len(objs) > 1:
            groups = sorted(objs.values(), key=len)
            f0 = groups[0][0]
            ff = [f for n in ms for f in prog.find(cls + '::' + n) if prog.fullname(f.name) == f0][0]
            ctx.violation('release', prog.fwhere(ff), f0, 'operates on another primitive object than the other operations of the class')
        if not objs:
            raise Broken('no primitive operation found in ' + cls)
    init(ctx, p, pl)
    spin(ctx, p)
    ctx.need('result', 15)
    ctx.need('deadline', 8)
    ctx.need('release', 4)
    ctx.need('init', 3)
    ctx.need('spin', 3)


class InitRule(Rule):
    def inline(self, eng, fn, sname):
        return not LOGFN.search(sname) or 'Semaphore' in sname

    def pure_repo(self, sname):
        return True

    def call(self, eng, st, ins, sname, fn, args):
        if sname == 'sem_init':
            st.mon = st.mon + (('sem', args[0][1], args[2][1], args[1][1]),)
        if sname == 'pthread_mutexattr_settype':
            st.mon = st.mon + (('type', args[0][1], args[1][1]),)
        if sname == 'pthread_mutex_init':
            st.mon = st.mon + (('init', args[0][1], args[1][1]),)
        return None


def init(ctx, p, pl):
    for prog, cls in ((p, T + 'Semaphore'), (pl, L + 'Semaphore')):
        for f in one(prog.special(cls, 'C'), cls + ' constructor'):
            e = Engine(prog, InitRule())
            outs = e.explore(f, e.default_args(f, ('this', cls)), ())
            for o in outs:
                sems = [m for m in o.st.mon if m[0] == 'sem']
                if o.kind == 'ret' and (len(sems) != 1 or strip(sems[0][2]) != ('s', ('arg', len(f.params) - 1))):
                    ctx.violation('init', prog.fwhere(f), prog.fullname(f.name),
                                  'the semaphore is not initialised exactly once with the requested count')
            ctx.ok('init', prog.fullname(f.name))
            ctx.cover(e)
    cls = T + 'Mutex'
    for f in one(p.special(cls, 'C'), cls + ' constructor'):
        e = Engine(p, InitRule())
        for o in e.explore(f, e.default_args(f, ('this', cls)), ()):
            if o.kind != 'ret':
                continue
            mon = o.st.mon
            good = False
            for i, m in enumerate(mon):
                if m[0] == 'init':
                    good = any(x[0] == 'type' and x[1] == m[2] and x[2] == I(1) for x in mon[:i])
            if not good:
                ctx.violation('init', p.fwhere(f), p.fullname(f.name), 'the mutex is not initialised as a recursive mutex')
        ctx.ok('init', p.fullname(f.name))
        ctx.cover(e)


# ---------------------------------------------------------------- spin lock
class SpinRule(Rule):
    """mon = (acquire result value or None, order ok, released)"""
    def inline_external(self, eng, fn, sname):
        return sname.startswith(('boost::', 'std::atomic', 'std::__atomic', 'std::operator&', 'std::operator|'))

    def rename(self, eng, mon, f):
        return tuple(mapval(f, x) for x in mon)

    def mon_values(self, mon):
        return [x for x in mon if isinstance(x, tuple)]

    def atomicrmw(self, eng, st, ins, ptr, v):
        if st.mon[0] is not None:
            # a second attempt is only allowed when the first one found the lock taken
            if eng.decide_icmp(st, 'eq', st.mon[0], I(self.locked), 32) is not True:
                eng.report(ins, 'the lock word is exchanged again although the lock may have been obtained')
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}
        if ins.x != 'xchg':
            return None
        old = ('s', ('r', eng.cur_path, ins.idx))
        if v != I(self.locked):
            eng.report(ins, 'the lock word is exchanged with a value other than "locked"')
        if not re.search(r'\b(acquire|acq_rel|seq_cst)\b', ins.text):
            eng.report(ins, 'the lock is taken without acquire ordering')
        st.mon = (old, st.mon[1])
        return old

    def store(self, eng, st, ins, ptr, v, size):
        ob = eng.as_ptr(ptr)
        if ob and ob[0][0] in ('this', 'arg'):
            if ins.x['atomic']:
                if not re.search(r'\b(release|seq_cst)\b', ins.text):
                    eng.report(ins, 'the lock is released without release ordering')
            else:
                eng.report(ins, 'the lock word is written by a non-atomic store')
            st.mon = (st.mon[0], v)
        return None


class SpinInit(SpinRule):
    def store(self, eng, st, ins, ptr, v, size):
        ob = eng.as_ptr(ptr)
        if ob and ob[0][0] == 'this':
            st.mon = (st.mon[0], v)
        return None


def spin(ctx, p):
    cls = T + 'SpinLock'
    # the constructor defines the "free" value, lock() the "locked" value
    ctor = one(p.special(cls, 'C'), cls + ' constructor')[0]
    r = SpinInit()
    r.locked = None
    e = Engine(p, r)
    free = set(o.st.mon[1] for o in e.explore(ctor, e.default_args(ctor, ('this', cls)), (None, None)))
    if len(free) != 1 or list(free)[0] is None or list(free)[0][0] != 'i':
        ctx.violation('spin', p.fwhere(ctor), p.fullname(ctor.name), 'a new spin lock is not in a defined (free) state')
        return
    free = list(free)[0][1]
    locked = 1 - free

    for name in ('lock', 'tryLock'):
        f = methods(p, cls, name)[0]
        full = p.fullname(f.name)
        r = SpinRule()
        r.locked = locked
        e = Engine(p, r)
        outs = e.explore(f, e.default_args(f, ('this', cls)), (None, None))
        for o in outs:
            if o.kind != 'ret':
                continue
            old = o.st.mon[0]
            if old is None:
                ctx.violation('spin', p.fwhere(f), full, 'returns without trying to take the lock')
                continue
            # the lock word only ever holds two values
            for val in (free, locked):
                s = o.st.copy()
                if not eng_assume_eq(e, s, old, val):
                    continue
                want = val == free
                for truth in (True, False):
                    s2 = s.copy()
                    if e.assume(s2, o.ret, truth) and truth != want:
                        ctx.violation('spin', p.fwhere(f), full, 'returns %s although the lock was %s before' % (
                            str(truth).lower(), 'free' if want else 'taken'))
                if name == 'lock' and not want:
                    ctx.violation('spin', p.fwhere(f), full, 'returns although the lock is held by another thread')
        ctx.ok('spin', full)
        ctx.take(e, 'spin')
    f = methods(p, cls, 'unlock')[0]
    r = SpinRule()
    r.locked = locked
    e = Engine(p, r)
    for o in e.explore(f, e.default_args(f, ('this', cls)), (None, None)):
        if o.kind == 'ret' and o.st.mon[1] != I(free):
            ctx.violation('spin', p.fwhere(f), p.fullname(f.name), 'unlock does not restore the free state')
    ctx.ok('spin', p.fullname(f.name))
    ctx.take(e, 'spin')


def eng_assume_eq(e, s, v, n):
    return e.assume(s, ('x', 'icmp', 'eq', v, I(n), 32), True)


# ---------------------------------------------------------------- scoped guards
GUARDS = {
    T + 'ScopedMutexLock': (T + 'Mutex', {'lock': 'lock'}, 'unlock', 'isLocked'),
    T + 'ScopedRWLock': (T + 'RWLock', {'readLock': 'read', 'writeLock': 'write'}, 'unlock', 'isLocked'),
    T + 'ScopedSpinLock': (T + 'SpinLock', {'lock': 'lock'}, 'unlock', 'isLocked'),
    L + 'ScopedSemaphore': (L + 'Semaphore', {'wait': 'lock'}, 'post', 'isDecremented'),
}


class GuardRule(Rule):
    """mon = (last acquisition (object, mode, result) or None, releases (object, ...))"""
    join_limit = 24

    def __init__(self, lockcls, acq, rel):
        self.lockcls, self.acq, self.rel = lockcls, acq, rel

    def inline(self, eng, fn, sname):
        return 'Scoped' in sname or 'Noncopyable' in sname or not LOGFN.search(sname)

    def pure_repo(self, sname):
        return True

    def rename(self, eng, mon, f):
        a = tuple(mapval(f, x) for x in mon[0]) if mon[0] else None
        return (a, tuple(f(x) for x in mon[1]))

    def mon_values(self, mon):
        return [x for x in (mon[0] or ()) if isinstance(x, tuple)] + list(mon[1])

    def call(self, eng, st, ins, sname, fn, args):
        if not sname.startswith(self.lockcls + '::'):
            return None
        m = sname.split('::')[-1]
        if m == self.rel:
            st.mon = (st.mon[0], st.mon[1] + (args[0][1],))
            return [Outcome('ret', UNK if ins.x and ins.ty != ('void',) else None, st)]
        lower = m[0].lower() + m[1:]
        mode = self.acq.get(m) or self.acq.get(lower)
        if mode is None and lower.startswith('try'):
            mode = self.acq.get(lower[3:4].lower() + lower[4:])
        if mode is None:
            return None
        acq = st.mon[0]
        if acq is not None and eng.decide(st, acq[2]) is not False:
            eng.report(ins, 'the lock is acquired a second time although the guard may already hold it')
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
            args = eng.reeval(ins.fn, ins, st)
        st.defd = st.defd | {ins.idx}
        res = ('s', ('r', eng.cur_path, ins.idx))
        st.mon = ((args[0][1], mode, res), st.mon[1])
        return [Outcome('ret', res, st)]


def t02(ctx):
    ctx.rule('guard', 'constructor; destructor: the lock passed in is acquired at least once, the guard reports exactly the result of the '
                      'last attempt, and the destructor releases the same lock once if and only if that attempt succeeded')
    ctx.rule('force', 'a forced guard (force = true, the default) is only constructed with the lock held')
    ctx.rule('mode', 'a read guard takes the read lock, a write guard the write lock')
    p = ctx.load(['icl_core_thread'], ['thread_inst'])
    pl = ctx.load(['icl_core_logging'])
    for cls, (lockcls, acq, rel, query) in sorted(GUARDS.items()):
        prog = pl if cls.startswith(L) else p
        for ctor in one(prog.special(cls, 'C'), cls + ' constructor'):
            full = prog.fullname(ctor.name)
            where = prog.fwhere(ctor)
            dtor = one(prog.special(cls, 'D'), cls + ' destructor')[0]
            q = one(prog.find(cls + '::' + query), cls + '::' + query)[0]
            this = ('this', cls)
            e = Engine(prog, GuardRule(lockcls, acq, rel))
            args = e.default_args(ctor, this)
            lock = [a for a, (t, n) in list(zip(args, ctor.params))[1:] if t == ('ptr',)][0]
            bools = [a for a, (t, n) in zip(args, ctor.params) if t == ('int', 1)]
            modes = [a for a, (t, n) in zip(args, ctor.params) if t == ('int', 32)]
            outs = [o for o in e.explore(ctor, args, (None, ())) if o.kind == 'ret']
            if not outs:
                ctx.violation('guard', where, full, 'the constructor never returns')
            for o in outs:
                a, rels = o.st.mon
                if rels:
                    ctx.violation('guard', where, full, 'the constructor releases the lock')
                if a is None:
                    ctx.violation('guard', where, full, 'the constructor does not try to acquire the lock')
                    continue
                if a[0] != lock:
                    ctx.violation('guard', where, full, 'the constructor acquires another lock than the one passed in')
                if modes:
                    want = {0: 'read', 1: 'write'}
                    for n, w in want.items():
                        s = o.st.copy()
                        if eng_assume_eq(e, s, modes[0], n) and a[1] != w:
                            ctx.violation('mode', where, full, 'a %s guard takes the %s lock' % (w, a[1]))
                    ctx.ok('mode', full + ' ' + a[1])
                if bools or cls == T + 'ScopedSpinLock':
                    s = o.st.copy()
                    if (not bools or e.assume(s, bools[0], True)) and e.decide(s, a[2]) is not True and cls != T + 'ScopedSpinLock':
                        ctx.violation('force', where, full, 'a forced guard may be constructed without holding the lock')
                    ctx.ok('force', full)
                for got in (True, False):
                    s = o.st.copy()
                    if cls == T + 'ScopedSpinLock' and not got:
                        continue        # SpinLock::lock() always succeeds (T01)
                    if not e.assume(s, a[2], got):
                        continue
                    # what the guard says
                    e2 = Engine(prog, GuardRule(lockcls, acq, rel))
                    for oq in e2.explore(q, [('p', this, 0)], s.mon, s.mem, s.facts):
                        d = e2.decide(oq.st, oq.ret) if oq.ret is not None and oq.ret[0] not in ('u', 'undef') else None
                        if d is not got:
                            ctx.violation('guard', prog.fwhere(q), prog.fullname(q.name),
                                          'reports %s although the lock was %sacquired' % (d, '' if got else 'not '))
                    e3 = Engine(prog, GuardRule(lockcls, acq, rel))
                    for od in e3.explore(dtor, [('p', this, 0)], s.mon, s.mem, s.facts):
                        r = od.st.mon[1]
                        if got and r != (lock,):
                            ctx.violation('guard', prog.fwhere(dtor), prog.fullname(dtor.name),
                                          'the destructor releases %s, the acquired lock must be released exactly once' % (
                                              'nothing' if not r else 'something else'))
                        if not got and r:
                            ctx.violation('guard', prog.fwhere(dtor), prog.fullname(dtor.name),
                                          'the destructor releases a lock which was not acquired')
                    ctx.take(e2, 'guard')
                    ctx.take(e3, 'guard')
                    ctx.ok('guard', '%s, %s' % (full, 'acquired' if got else 'not acquired'))
            ctx.take(e, 'guard')
    ctx.need('guard', 6)
    ctx.need('force', 2)
    ctx.need('mode', 2)
