"""T07: active objects.  T08: periodic timers."""
import re
from .common import *
from .locks import T, L
from .threads import Flags, DestroyRule, deep, accessor_field, setflags

AO = T + 'ActiveObject'
DUE = ('ev', 'due')     # woken up, operation not taken yet
LISTFN = re.compile(r'^(std|icl_core)::(\w+)::(\w+|operator[^ ]*)$')


class ActiveRule(Rule):
    """mon = (held, front value, owned op or None, invoked, list content known empty: (sym, held) or None, events)"""
    join_limit = 64

    def __init__(self, p, cls, fl, forks):
        self.p, self.cls, self.fl, self.forks = p, cls, fl, forks
        self.obj = ('this', cls)
        self.listoffs = {}
        self.ends = {'in': set(), 'out': set()}
        for m in p.flat_members(p.cls(cls)):
            if re.match(r'(icl_core::List|std::(__cxx11::)?(list|deque|vector|queue)|icl_core::(Queue|Vector))\b', m[3]) and 'ActiveOperation' in m[3]:
                self.listoffs[m[1]] = m[2]
        if len(self.listoffs) != 1:
            raise Broken('%s: the operation queue cannot be identified' % cls)
        self.E = fl.E

    def inline(self, eng, fn, sname):
        return not LOGFN.search(sname) and not TIMEFN.search(sname)

    def pure_repo(self, sname):
        return True

    def rename(self, eng, mon, f):
        return tuple(mapval(f, x) if not (isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] == 'ev') else x for x in mon)

    def mon_values(self, mon):
        out = [x for x in (mon[1], mon[2]) if isinstance(x, tuple)]
        if mon[4]:
            out.append(mon[4][0])
        return out

    def is_list(self, eng, v):
        ob = eng.as_ptr(v)
        return ob is not None and ob[0] == self.obj and ob[1] in self.listoffs

    def upd(self, st, **k):
        names = ('held', 'front', 'owned', 'invoked', 'empty', 'ev')
        d = dict(zip(names, st.mon))
        d.update(k)
        st.mon = tuple(d[n] for n in names)

    def flagE(self, eng, st):
        d = st.mem.get(self.obj, {}).get(self.E)
        v = d[0] if d else ('s', ('ld', self.obj, self.E, st.ver.get(self.obj, 0)))
        v = eng.norm(st, v)
        if v[0] == 'i':
            return bool(v[1] & 1)
        return eng.decide(st, ('x', 'trunc', v, 8, 1))

    def fresh(self, eng, st, ins):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}

    def env(self, eng, st, ins):
        # another thread may withdraw the flag, but not restart a thread which has not finished
        if self.flagE(eng, st) is not False:
            eng.mstore(st, ('p', self.obj, self.E), ('s', ('r', eng.cur_path, ins.idx, 'E')), 1, ins)

    def known_empty(self, eng, st):
        empty = st.mon[4]
        return empty is not None and eng.decide_icmp(st, 'eq', empty[0], I(0), 1 if empty[1] == 'empty' else 64) is (empty[1] == 'size')

    def event(self, st, e):
        if e not in st.mon[5]:
            self.upd(st, ev=st.mon[5] + (e,))

    def call(self, eng, st, ins, sname, fn, args):
        held, front, owned, invoked, empty, ev = st.mon
        if sname.startswith(T + 'Mutex::'):
            m = sname.split('::')[-1]
            if m in ('lock', 'tryLock'):
                self.fresh(eng, st, ins)
                self.env(eng, st, ins)
                outs = []
                if self.forks or m == 'tryLock' or len(args) > 1:
                    s2 = st.copy()
                    if m == 'tryLock':
                        # the holder of the mutex posts after it has put its operation into the queue (rule queue)
                        self.upd(s2, ev=tuple(x for x in st.mon[5] if x != DUE))
                    outs.append(Outcome('ret', I(0), s2))
                self.upd(st, held=st.mon[0] + 1)
                return outs + [Outcome('ret', I(1), st)]
            if m == 'unlock':
                if held < 1:
                    eng.report(ins, 'the mutex is released although it is not held')
                self.upd(st, held=held - 1, front=None)
                return [Outcome('ret', I(1) if ins.ty != ('void',) else None, st)]
        if sname.startswith(T + 'Semaphore::'):
            m = sname.split('::')[-1]
            if m in ('wait', 'tryWait'):
                if held:
                    eng.report(ins, 'the thread waits for new operations with the queue mutex locked')
                self.fresh(eng, st, ins)
                self.env(eng, st, ins)
                if DUE in ev and not self.known_empty(eng, st):
                    eng.report(ins, 'the thread waits again although it may not have taken the operation it was woken up for')
                self.event(st, ('ev', 'wait'))
                self.event(st, DUE)
                self.upd(st, empty=None)
                return None
            if m == 'post':
                self.upd(st, ev=st.mon[5] + (('ev', 'post', self.flagE(eng, st)),) if len(st.mon[5]) < 8 else st.mon[5])
                return [Outcome('ret', None, st)]
        if sname in ('usleep',) or sname.startswith('icl_core::os::') and sname.endswith('sleep'):
            self.fresh(eng, st, ins)
            for n in 'EFS':
                eng.mstore(st, ('p', self.obj, getattr(self.fl, n)), ('s', ('r', eng.cur_path, ins.idx, n)), 1, ins)
            return [Outcome('ret', I(0) if ins.ty != ('void',) else None, st)]
        if args and args[0][0] == ('ptr',) and self.is_list(eng, args[0][1]):
            m = sname.split('::')[-1]
            if m.startswith('~') or m == sname.split('::')[-2]:
                return None
            if held < 1:
                eng.report(ins, 'the operation queue is accessed (%s) without its mutex' % m)
            if m in ('empty', 'size'):
                self.fresh(eng, st, ins)
                res = ('s', ('r', eng.cur_path, ins.idx))
                self.upd(st, empty=(res, m, self.flagE(eng, st)))
                return [Outcome('ret', res, st)]
            if m in ('front', 'back'):
                self.fresh(eng, st, ins)
                o = ('fr', eng.cur_path, ins.idx)
                v = ('s', ('r', eng.cur_path, ins.idx, 'op')) if not st.mon[1] or st.mon[1][0] != m else st.mon[1][1]
                st.mem[o] = {0: (v, 8)}
                eng.assume(st, ('x', 'icmp', 'ne', v, NULL, 64), True)
                self.upd(st, front=(m, v))
                return [Outcome('ret', ('p', o, 0), st)]
            if m in ('pop_front', 'pop_back', 'pop'):
                end = 'back' if m == 'pop_back' else 'front'
                self.ends['out'].add(end)
                self.upd(st, ev=tuple(x for x in ev if x != DUE))
                ev = st.mon[5]
                if owned is not None:
                    eng.report(ins, 'an operation is taken from the queue while the previous one was not deleted')
                if empty is None or eng.decide_icmp(st, 'eq', empty[0], I(0), 1 if empty[1] == 'empty' else 64) is not (empty[1] == 'empty'):
                    eng.report(ins, 'an operation is taken from a queue which may be empty')
                if front is None or front[0] != end:
                    # never looked at: it is lost, unless it has been deleted already
                    if st.mon[3] != 'gone':
                        eng.report(ins, 'an operation is removed from the queue without being executed or deleted')
                    self.upd(st, owned=None, invoked=False, front=None, empty=None)
                elif st.mon[3] == 'gone':
                    self.upd(st, owned=None, invoked=False, front=None, empty=None)
                else:
                    self.upd(st, owned=front[1], invoked=False, front=None, empty=None)
                return [Outcome('ret', None, st)]
            if m in ('push_back', 'push_front', 'push'):
                end = 'front' if m == 'push_front' else 'back'
                self.ends['in'].add(end)
                v = args[1][1]
                ob = eng.as_ptr(v)
                val = eng.mload(st, ('p', ob[0], ob[1]), 8, ins) if ob and isinstance(ob[1], int) else None
                self.upd(st, ev=st.mon[5] + (('ev', 'push', val == self.arg, self.flagE(eng, st), held > 0),))
                return [Outcome('ret', None, st)]
            raise Broken('%s: unknown operation %s on the operation queue' % (eng.p.where(ins), m))
        if sname in ('operator delete',) and args[0][1] in (owned, getattr(self, 'arg', None)):
            return self.deleted(eng, st, ins, args[0][1])
        return None

    def deleted(self, eng, st, ins, v):
        held, front, owned, invoked, empty, ev = st.mon
        if v == getattr(self, 'arg', None):
            self.upd(st, ev=ev + (('ev', 'delete'),))
        elif owned is not None and v == owned:
            self.upd(st, owned=None, invoked=False, ev=ev if ('ev', 'del', bool(invoked)) in ev else ev + (('ev', 'del', bool(invoked)),))
        elif front is not None and v == front[1]:
            if invoked == 'gone':
                eng.report(ins, 'an operation is deleted twice')
            self.upd(st, invoked='gone')
        else:
            eng.report(ins, 'an operation is deleted which is not owned at this point (deleted twice, or still in the queue)')
        return [Outcome('ret', None, st)]

    def vcall(self, eng, st, ins, vn, args, targets):
        m = vn.split('::')[-1]
        held, front, owned, invoked, empty, ev = st.mon
        v = args[0][1]
        if vn.startswith(T + 'ActiveOperation::'):
            if m == 'invoke':
                if held:
                    eng.report(ins, 'an operation is executed with the queue mutex locked')
                if owned is None or v != owned:
                    eng.report(ins, 'an operation is executed which was not taken from the queue')
                elif invoked:
                    eng.report(ins, 'an operation is executed twice')
                self.fresh(eng, st, ins)
                self.env(eng, st, ins)
                self.upd(st, invoked=True)
                self.event(st, ('ev', 'invoke'))
                return [Outcome('ret', None, st)]
            if m.startswith('~'):
                return self.deleted(eng, st, ins, v)
        if args and v == ('p', self.obj, 0) and m in ('onThreadStart', 'onThreadStop'):
            if owned is not None:
                eng.report(ins, 'an operation which was taken from the queue is neither executed nor deleted')
            self.upd(st, ev=ev + (('ev', m),))
            return [Outcome('ret', None, st)]
        return None


def t07(ctx):
    ctx.rule('worker', 'the thread takes operations from the queue only under the mutex, executes each once without the mutex, then deletes '
                       'it once; operations which are still queued when it stops are deleted')
    ctx.rule('queue', 'queue() either appends the operation under the mutex, while the thread is known to execute, and then wakes it up, '
                      'or deletes the operation')
    ctx.rule('fifo', 'operations are taken from the other end of the queue than they are put in')
    ctx.rule('stop', 'stop() wakes the thread up after withdrawing the execute flag')
    ctx.rule('destroy', 'the destructor stops, wakes up and joins the thread before the queue is destroyed')
    ctx.assumptions += ['queued operations are not NULL', 'a blocking lock() of the (recursive) mutex by the worker succeeds', 'Mutex and Semaphore as established by T01']
    p = ctx.load(['icl_core_thread', 'icl_core'], ['active'])
    fl = Flags(p, T + 'Thread')
    cls = AO
    obj = ('this', cls)

    def fn(name):
        f = one(p.find(cls + '::' + name), cls + '::' + name)[0]
        return f, p.fwhere(f), p.fullname(f.name)
    # run
    f, where, full = fn('run')
    r = ActiveRule(p, cls, fl, False)
    e = Engine(p, r)
    outs = e.explore(f, [('p', obj, 0)], (0, None, None, False, None, ()))
    outs = [o for o in outs if o.kind == 'ret']
    ends = r.ends
    if not outs:
        ctx.violation('worker', where, full, 'the thread never ends')
    seen = set()
    for o in outs:
        held, front, owned, invoked, empty, ev = o.st.mon
        seen |= set(ev)

        def bad(m):
            ctx.violation('worker', where, full, m)
        if held:
            bad('the thread ends with the queue mutex locked')
        if owned is not None:
            bad('an operation which was taken from the queue is not deleted')
        names = [x[1] for x in ev]
        if names.count('onThreadStart') != 1 or names.count('onThreadStop') != 1 or names.index('onThreadStart') != 0:
            bad('the start and stop notifications are not delivered exactly once, before and after the operations')
        if not r.known_empty(e, o.st):
            bad('operations may be left in the queue at the end of the thread')
        elif empty[2] is not False:
            bad('the queue is cleared before the thread was told to stop')
    if outs and not any(x[1] == 'invoke' for x in seen):
        ctx.violation('worker', where, full, 'operations are never executed')
    if outs and not any(x[1] == 'wait' for x in seen):
        ctx.violation('worker', where, full, 'the thread never waits for operations')
    if outs and ('ev', 'del', True) not in seen:
        ctx.violation('worker', where, full, 'executed operations are not deleted')
    ctx.ok('worker', full)
    ctx.take(e, 'worker')
    # queue
    f, where, full = fn('queue')
    r = ActiveRule(p, cls, fl, True)
    r.arg = ('p', ('arg', 1), 0)
    e = Engine(p, r)
    outs = [o for o in e.explore(f, [('p', obj, 0), r.arg], (0, None, None, False, None, ())) if o.kind == 'ret']
    if not outs:
        ctx.violation('queue', where, full, 'never returns')
    pushed = False
    for o in outs:
        held, front, owned, invoked, empty, ev = o.st.mon

        def bad(m):
            ctx.violation('queue', where, full, m)
        if held:
            bad('returns with the queue mutex locked')
        names = [x[1] for x in ev]
        n = names.count('push') + names.count('delete')
        if n == 0:
            bad('the operation is neither queued nor deleted')
        elif n > 1:
            bad('the operation is %s' % ('queued and deleted' if 'push' in names and 'delete' in names else 'queued or deleted twice'))
        if 'push' in names:
            pushed = True
            x = ev[names.index('push')]
            if not x[2]:
                bad('something else than the given operation is queued')
            if x[3] is not True:
                bad('the operation is queued although the thread may have stopped already (it would never be executed or deleted)')
            if 'post' not in names[names.index('push'):]:
                bad('the thread is not woken up after the operation was queued')
    if outs and not pushed:
        ctx.violation('queue', where, full, 'operations are never queued')
    ctx.ok('queue', full)
    ctx.take(e, 'queue')
    # fifo
    ins, out = r.ends['in'], ends['out']
    if len(ins) != 1 or len(out) != 1 or ins == out:
        if ins and out:
            ctx.violation('fifo', where, full, 'operations are put in at the %s and taken from the %s of the queue' % (
                '/'.join(sorted(ins)), '/'.join(sorted(out))))
    else:
        ctx.ok('fifo', 'in at the %s, out at the %s' % (list(ins)[0], list(out)[0]))
    # stop
    f, where, full = fn('stop')
    r = ActiveRule(p, cls, fl, False)
    e = Engine(p, r)
    for o in e.explore(f, [('p', obj, 0)], (0, None, None, False, None, ())):
        ev = o.st.mon[5]
        if r.flagE(e, o.st) is not False:
            ctx.violation('stop', where, full, 'the thread is not told to stop')
        if not any(x[1] == 'post' and x[2] is False for x in ev):
            ctx.violation('stop', where, full, 'the thread is not woken up after it was told to stop')
    ctx.ok('stop', full)
    ctx.take(e, 'stop')
    # destroy
    f = one(p.special(cls, 'D'), cls + ' destructor')[0]
    where, full = p.fwhere(f), p.fullname(f.name)

    class D(DestroyRule):
        def call(self, eng, st, ins, sname, fn, args):
            if sname == T + 'Semaphore::post' and ('pjoin',) not in st.mon[0] and self.flag(eng, st, 'E') is False:
                self.ev(st, ('wake',))
                return [Outcome('ret', None, st)]
            if sname == 'pthread_join' and ('wake',) not in st.mon[0]:
                eng.report(ins, 'the destructor waits for the thread without waking it up')
            return DestroyRule.call(self, eng, st, ins, sname, fn, args)
    r = D(p, T + 'Thread', fl, obj)
    r.unjoined = True
    r.mode = 'destroy'
    e = Engine(p, r)
    e.explore(f, special_args(e, f, cls, obj), ((), 0), setflags({obj: {}}, obj, fl, E=None, S=0, F=0, J=0))
    ctx.ok('destroy', full)
    ctx.take(e, 'destroy')
    for rr in ('worker', 'queue', 'fifo', 'stop', 'destroy'):
        ctx.need(rr, 1)


# ---------------------------------------------------------------- T08
PT = T + 'PeriodicThreadImplTimerfd'


class TimerRule(QuietRule):
    """mon = (open descriptors, events)"""
    opaque_rx = re.compile(r'^icl_core::(logging::|TimeBase::normalizeTime)')

    def rename(self, eng, mon, f):
        return (frozenset(f(x) for x in mon[0]), mon[1])

    def mon_values(self, mon):
        return list(mon[0])

    def fresh(self, eng, st, ins):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}

    def call(self, eng, st, ins, sname, fn, args):
        if sname == 'icl_core::TimeBase::normalizeTime':
            return [Outcome('ret', None, st)]
        if sname in ('icl_core::TimeSpan::tsSec', 'icl_core::TimeSpan::tsNSec', 'icl_core::TimeSpan::timespec'):
            return None
        if sname == 'timerfd_create':
            self.fresh(eng, st, ins)
            s2 = st.copy()
            v = ('s', ('fd', eng.cur_path, ins.idx, len(st.mon[0])))
            eng.assume(st, ('x', 'icmp', 'sgt', v, I(-1), 32), True)
            st.mon = (st.mon[0] | {v}, st.mon[1] + (('create', args[0][1]),))
            s2.mon = (s2.mon[0], s2.mon[1] + (('create failed',),))
            return [Outcome('ret', v, st), Outcome('ret', I(-1), s2)]
        if sname == 'close':
            v = args[0][1]
            if v in st.mon[0]:
                st.mon = (st.mon[0] - {v}, st.mon[1])
            elif v != I(-1):
                eng.report(ins, 'a descriptor is closed which is not an open timer (closed twice, or never initialised)')
            return [Outcome('ret', I(0), st)]
        if sname == 'timerfd_settime':
            v = args[0][1]
            if v not in st.mon[0]:
                eng.report(ins, 'a timer is programmed through a descriptor which is not an open timer')
            ob = eng.as_ptr(args[2][1])
            t = None
            if ob and isinstance(ob[1], int):
                t = tuple(eng.mload(st, ('p', ob[0], ob[1] + k), 8, ins) for k in (0, 8, 16, 24))
            self.fresh(eng, st, ins)
            s2 = st.copy()
            st.mon = (st.mon[0], st.mon[1] + (('set', True, t, args[1][1]),))
            s2.mon = (s2.mon[0], s2.mon[1] + (('set', False, t, args[1][1]),))
            return [Outcome('ret', I(0), st), Outcome('ret', I(-1), s2)]
        if sname in ('read',):
            v = args[0][1]
            if v not in st.mon[0] and v != I(-1):
                eng.report(ins, 'the thread waits on a descriptor which is not an open timer')
            if args[2][1] != I(8):
                eng.report(ins, 'the expiration count of a timer is read with a size other than 8')
            self.fresh(eng, st, ins)
            s2 = st.copy()
            st.mon = (st.mon[0], st.mon[1] + (('read', True),))
            s2.mon = (s2.mon[0], s2.mon[1] + (('read', False),))
            return [Outcome('ret', I(8), st), Outcome('ret', I(-1), s2)]
        return None


def t08(ctx):
    ctx.rule('descriptor', 'every timer descriptor which is created is closed exactly once, at the latest by the destructor; only open '
                           'timers are programmed, read and closed')
    ctx.rule('period', 'the timer runs on the monotonic clock; it is programmed with the period as first expiration and as interval; '
                       'setPeriod() returns true exactly when that succeeded, and period() returns the last period set')
    ctx.rule('wait', 'waitPeriod() waits for the timer exactly once')
    ctx.rule('thread', 'a periodic thread makes its timer periodic, waits on it and changes it through the same implementation object')
    ctx.assumptions += ['POSIX/Linux semantics of timerfd', 'periods are not negative and fit into 32 bit seconds']
    p = ctx.load(['icl_core_thread', 'icl_core'], [])
    cls = PT
    ctor = one(p.special(cls, 'C'), cls + ' constructor')[0]
    dtor = one(p.special(cls, 'D'), cls + ' destructor')[0]
    obj = ('this', cls)
    meth = {n: one(p.find(cls + '::' + n), cls + '::' + n)[0] for n in ('makePeriodic', 'setPeriod', 'waitPeriod', 'period')}

    def tag(k):
        def f(x):
            if len(x) >= 2 and x[0] in ('h', 'a') and isinstance(x[1], int):
                return ('obj', k) + x
            if len(x) == 2 and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] in ('r', 'e', 'fd', 'ret', 'phi'):
                return ('s', (x[1][0] if x[1][0] == 'fd' else 'old', k) + x[1])
            if len(x) == 2 and x[0] == 'arg' and isinstance(x[1], int):
                return ('arg', k, x[1])
            return x
        return f

    def step(states, f, args, k, rule):
        out = []
        for st in states:
            e = Engine(p, TimerRule())
            a = [('p', obj, 0)] + args
            if f.name == ctor.name or f.name == dtor.name:
                a = special_args(e, f, cls, obj)
            if getattr(f, 'sret', False):
                a = [('p', ('arg', 0), 0), ('p', obj, 0)] + args
            for o in e.explore(f, a, (st.mon[0], ()) if st else (frozenset(), ()), st.mem if st else None, st.facts if st else None):
                if o.kind != 'ret':
                    continue
                out.append((o, e))
            ctx.take(e, rule)
        return out

    def after(outs, k):
        """States for the next step, deduplicated."""
        res = {}
        for o, e in outs:
            s = o.st
            f = tag(k)
            n = s.copy()
            n.mem = {a: b for a, b in deep(s.mem, f).items() if a[0] in ('this', 'obj', 'o')}
            n.ver = {}
            n.facts = deep(s.facts, f)
            n.mon = (deep(s.mon[0], f), ())
            n.regs = {}
            n.defd = frozenset()
            res[repr((sorted(map(repr, n.mem.items())), sorted(map(repr, n.mon[0]))))] = n
        return list(res.values())
    start = after(step([None], ctor, [], 0, 'descriptor'), 0)
    if not start:
        raise Broken('%s: the constructor never returns' % cls)
    ctx.ok('descriptor', p.fullname(ctor.name))

    def finish(states, what):
        for o, e in step(states, dtor, [], 99, 'descriptor'):
            if o.st.mon[0]:
                ctx.violation('descriptor', p.fwhere(dtor), p.fullname(dtor.name),
                              'a timer descriptor is never closed (after: %s)' % what)
        ctx.ok('descriptor', 'construct, %s, destroy' % what)

    def check_set(outs, f, sec, nsec, what):
        where, full = p.fwhere(f), p.fullname(f.name)
        for o, e in outs:
            ev = o.st.mon[1]
            for c in ev:
                if c[0] == 'create' and c[1] != I(1):
                    ctx.violation('period', where, full, 'the timer does not run on the monotonic clock')
            sets = [c for c in ev if c[0] == 'set']
            for c in sets:
                t = c[2]
                if t is None:
                    ctx.violation('period', where, full, 'the timer is programmed with an unknown period')
                    continue
                if c[3] != I(0):
                    ctx.violation('period', where, full, 'the relative period is passed as an absolute time')
                got = [lin(e.norm(o.st, x)) for x in t]
                want = [lin(e.norm(o.st, x)) for x in (sec, nsec, sec, nsec)]
                if got != want:
                    ctx.violation('period', where, full, 'the timer is not programmed with the period (first expiration and interval)')
            yield o, e, sets

    mk, se, wa, pe = meth['makePeriodic'], meth['setPeriod'], meth['waitPeriod'], meth['period']
    cper = ctor_period(ctor)
    hist = [('', start)]
    finish(start, 'nothing')
    # history: [make]{1,2} with setPeriod / waitPeriod in between
    arg = lambda k: ('arg', k)
    cur = start
    period = (('s', ('ld', ('arg', 0, cper), 0, 0)), ('s', ('ld', ('arg', 0, cper), 8, 0)))
    k = 1
    for label, f in (('set', se), ('wait', wa), ('make', mk), ('wait', wa), ('set', se), ('make', mk), ('set', se), ('wait', wa)):
        if not cur:
            break
        where, full = p.fwhere(f), p.fullname(f.name)
        if label == 'set':
            pa = ('p', ('arg', 1), 0)
            outs = step(cur, f, [pa], k, 'descriptor')
            sec, nsec = ('s', ('ld', ('arg', 1), 0, 0)), ('s', ('ld', ('arg', 1), 8, 0))
            for o, e, sets in check_set(outs, f, sec, nsec, 'set'):
                d = e.decide(o.st, o.ret) if o.ret[0] not in ('u', 'undef') else None
                good = bool(sets) and sets[-1][1]
                if d is not good:
                    ctx.violation('period', where, full, 'the result does not tell whether the period was changed')
                if o.st.mon[0] and len(sets) != 1:
                    ctx.violation('period', where, full, 'the running timer is not programmed exactly once')
            period = (('s', ('ld', ('arg', k, 1), 0, 0)), ('s', ('ld', ('arg', k, 1), 8, 0)))
            ctx.ok('period', '%s (step %d)' % (full, k))
        elif label == 'make':
            outs = step(cur, f, [], k, 'descriptor')
            for o, e, sets in check_set(outs, f, period[0], period[1], 'make'):
                ev = [c[0] for c in o.st.mon[1]]
                if len([c for c in ev if c.startswith('create')]) != 1:
                    ctx.violation('period', where, full, 'not exactly one timer is created')
                if 'create' in ev and not sets:
                    ctx.violation('period', where, full, 'the new timer is not started')
            ctx.ok('period', '%s (step %d)' % (full, k))
        else:
            outs = step(cur, f, [], k, 'descriptor')
            for o, e in outs:
                n = len([c for c in o.st.mon[1] if c[0] == 'read'])
                if n != 1:
                    ctx.violation('wait', where, full, 'waits %d times for the timer' % n)
            ctx.ok('wait', '%s (step %d)' % (full, k))
        if not outs:
            ctx.violation('wait' if label == 'wait' else 'period', where, full, 'never returns')
        cur = after(outs, k)
        # period() must be the last one set
        for o, e in step(cur, pe, [], 98, 'descriptor'):
            got = None
            if o.ret and o.ret[0] == 'agg':
                got = [lin(e.norm(o.st, x)) for x in o.ret[1][:2]]
            elif getattr(pe, 'sret', False):
                got = [lin(e.norm(o.st, e.mload(o.st, ('p', ('arg', 0), 0), 8, None))),
                       lin(e.norm(o.st, e.mload(o.st, ('p', ('arg', 0), 8), 4, None)))]
            if got is not None and got != [lin(e.norm(o.st, x)) for x in period]:
                ctx.violation('period', p.fwhere(pe), p.fullname(pe.name), 'does not return the last period set')
        finish(cur, label)
        k += 1
    # the thread forwards to its implementation
    forward(ctx, p)
    for rr, n in (('descriptor', 5), ('period', 4), ('wait', 2), ('thread', 4)):
        ctx.need(rr, n)


def ctor_period(ctor):
    return [n for n, (t, nm) in enumerate(ctor.params) if t == ('ptr',) and nm.strip('%') not in ('this', 'vtt')][0]


class ForwardRule(QuietRule):
    opaque_rx = re.compile(r'^icl_core::logging::|^icl_core::os::|^icl_core::TimeBase')

    def vcall(self, eng, st, ins, vn, args, targets):
        if vn.startswith(T + 'PeriodicThreadImpl::'):
            m = vn.split('::')[-1]
            sret = m == 'period' and len(args) > 1
            recv = args[1 if sret else 0][1]
            if ins.idx in st.defd:
                eng.redefine(st, ins.idx)
            st.defd = st.defd | {ins.idx}
            ret = ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None
            st.mon = st.mon + ((m, recv, tuple(a[1] for a in args[1:]), ret),)
            return [Outcome('ret', ret, st)]
        if vn.startswith(T + 'ThreadImpl::'):
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None, st)]
        return None


def forward(ctx, p):
    cls = T + 'PeriodicThread'
    recv = {}
    for n in ('makePeriodic', 'waitPeriod', 'setPeriod', 'period'):
        f = one(p.find(cls + '::' + n), cls + '::' + n)[0]
        where, full = p.fwhere(f), p.fullname(f.name)
        e = Engine(p, ForwardRule())
        outs = [o for o in e.explore(f, e.default_args(f, ('this', cls)), ()) if o.kind == 'ret']
        if not outs:
            ctx.violation('thread', where, full, 'never returns')
        for o in outs:
            cs = o.st.mon
            if len(cs) != 1 or cs[0][0] != n:
                ctx.violation('thread', where, full, 'the timer implementation is not asked exactly once')
                continue
            recv.setdefault(cs[0][1], []).append(full)
            if n == 'setPeriod':
                if cs[0][2] != (('p', ('arg', 1), 0),):
                    ctx.violation('thread', where, full, 'another period than the given one is set')
                if o.ret != cs[0][3]:
                    ctx.violation('thread', where, full, 'does not return the result')
            if n == 'period' and o.ret is not None and o.ret != cs[0][3] and not (
                    o.ret[0] == 'agg' or getattr(f, 'sret', False)):
                ctx.violation('thread', where, full, 'does not return the period of the timer')
        ctx.ok('thread', full)
        ctx.take(e, 'thread')
    if len(recv) > 1:
        f0 = sorted(recv.values(), key=len)[0][0]
        ctx.violation('thread', f0, f0, 'uses another implementation object than the other operations')
