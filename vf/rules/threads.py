"""T06: start/stop/join protocol of threads."""
import re
from .common import *
from .locks import T, L

TH = (T + 'Thread', L + 'Thread')
SLEEP = ('usleep', 'sleep', 'nanosleep', 'clock_nanosleep', 'sched_yield', 'pthread_yield', 'poll', 'select')


def deep(x, f):
    """Applies f to every nested tuple (bottom up)."""
    if isinstance(x, tuple):
        y = tuple(deep(i, f) for i in x)
        return f(y)
    if isinstance(x, frozenset):
        return frozenset(deep(i, f) for i in x)
    if isinstance(x, dict):
        return {deep(k, f): deep(v, f) for k, v in x.items()}
    return x


def accessor_field(p, cls, method):
    """Offset of the data member which a simple accessor reads."""
    f = one(p.find(cls + '::' + method), cls + '::' + method)[0]

    class R(Rule):
        offs = ()

        def load(self, eng, st, ins, ptr, size):
            ob = eng.as_ptr(ptr)
            if ob and ob[0][0] == 'this' and isinstance(ob[1], int):
                self.offs = self.offs + (ob[1],)
            return None
    r = R()
    e = Engine(p, r)
    e.explore(f, e.default_args(f, ('this', cls)), None)
    if len(set(r.offs)) != 1:
        raise Broken('%s::%s does not read exactly one member' % (cls, method))
    return r.offs[0]


class Flags(object):
    """The boolean state of a thread object: execute, finished, starting, joined."""
    def __init__(self, p, cls):
        self.E = accessor_field(p, cls, 'execute')
        self.F = accessor_field(p, cls, 'running')
        self.S = accessor_field(p, cls, 'waitStarted')
        c = p.cls(cls)
        bools = [m[1] for m in p.flat_members(c) if m[3] == 'bool']
        rest = [b for b in bools if b not in (self.E, self.F, self.S)]
        if len(rest) != 1 or len(set((self.E, self.F, self.S))) != 3:
            raise Broken('%s: the joined flag cannot be identified' % cls)
        self.J = rest[0]
        self.names = {self.E: 'E', self.F: 'F', self.S: 'S', self.J: 'J'}


class ThreadRule(Rule):
    """mon = (tuple of events, held: number of locks of the thread mutex)"""
    join_limit = 64
    max_virtual = 3

    def __init__(self, p, cls, flags, obj):
        self.p, self.cls, self.fl, self.obj = p, cls, flags, obj
        self.notes = []
        self.creates = []       # (state, start routine, argument, where)
        self.has_mutex = any(m[3] == T + 'Mutex' for m in p.flat_members(p.cls(cls)))

    def part(self, eng, st):
        return tuple(self.flag(eng, st, n) for n in 'EFSJ')

    # flags --------------------------------------------------------------
    def _read(self, eng, st, off):
        d = st.mem.get(self.obj, {})
        e = d.get(off)
        return e[0] if e else ('s', ('ld', self.obj, off, st.ver.get(self.obj, 0)))

    def flag(self, eng, st, name):
        """True/False/None"""
        v = self._read(eng, st, getattr(self.fl, name))
        v = eng.norm(st, v)
        if v[0] == 'i':
            return v[1] & 1 == 1
        for x in (v, ('x', 'trunc', v, 8, 1)):
            d = eng.decide(st, x)
            if d is not None:
                return d
        d = eng.decide_icmp(st, 'eq', v, I(0), 8)
        return None if d is None else not d

    def environment(self, eng, st, ins, names='EFS'):
        """Other threads run: they change the flags."""
        for n in names:
            off = getattr(self.fl, n)
            eng.mstore(st, ('p', self.obj, off), ('s', ('r', eng.cur_path, ins.idx, n)), 1, ins)

    def _fresh(self, eng, st, ins):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}

    def inline(self, eng, fn, sname):
        if TIMEFN.search(sname) or sname.startswith('icl_core::thread::impl::'):
            return False
        if LOGFN.search(sname) and not sname.startswith(self.cls.rsplit('::', 1)[0] + '::Thread'):
            return False
        return True

    def pure_repo(self, sname):
        return True

    def ev(self, st, e):
        st.mon = (st.mon[0] + (e,), st.mon[1])

    def call(self, eng, st, ins, sname, fn, args):
        if sname in SLEEP or sname.startswith('icl_core::os::') and sname.endswith('sleep'):
            self._fresh(eng, st, ins)
            self.environment(eng, st, ins)
            return [Outcome('ret', I(0) if ins.ty != ('void',) else None, st)]
        if sname.startswith(T + 'Mutex::'):
            m = sname.split('::')[-1]
            if m in ('lock', 'tryLock'):
                self._fresh(eng, st, ins)
                s1, s2 = st, st.copy()
                s1.mon = (s1.mon[0], s1.mon[1] + 1)
                if self.mode == 'body':
                    return [Outcome('ret', I(1), s1)]
                self.environment(eng, s1, ins)
                self.environment(eng, s2, ins)
                # the thread holds its mutex from before it leaves the starting state until it has finished
                eng.mstore(s1, ('p', self.obj, self.fl.F), I(1), 1, ins)
                return [Outcome('ret', I(1), s1), Outcome('ret', I(0), s2)]
            if m == 'unlock':
                st.mon = (st.mon[0], st.mon[1] - 1)
                if self.mode == 'body' and st.mon[1] == 0:
                    self.ev(st, ('unlock', self.flag(eng, st, 'F'), self.flag(eng, st, 'E')))
                return [Outcome('ret', I(1) if ins.ty != ('void',) else None, st)]
        if sname == 'pthread_create':
            self._fresh(eng, st, ins)
            args = eng.reeval(ins.fn, ins, st)
            s1, s2 = st, st.copy()
            self.creates.append((st.copy(), args[2][1], args[3][1], self.p.where(ins)))
            ob = eng.as_ptr(args[0][1])
            self.ev(s1, ('create', True))
            self.ev(s2, ('create', False))
            if ob and isinstance(ob[1], int):
                v = ('s', ('r', eng.cur_path, ins.idx, 'tid'))
                eng.mstore(s1, ('p', ob[0], ob[1]), v, 8, ins)
                eng.assume(s1, ('x', 'icmp', 'ne', v, I(0), 64), True)
            self.environment(eng, s1, ins)
            err = ('s', ('r', eng.cur_path, ins.idx))
            eng.assume(s2, ('x', 'icmp', 'ne', err, I(0), 32), True)
            return [Outcome('ret', I(0), s1), Outcome('ret', err, s2)]
        if sname == 'pthread_join':
            self._fresh(eng, st, ins)
            # the thread is gone: it has left its state "finished" (unless it was cancelled) and does not change it any more
            self.ev(st, ('pjoin',))
            return [Outcome('ret', I(0), st)]
        if sname == 'pthread_cancel':
            self.ev(st, ('pcancel',))
            return [Outcome('ret', I(0), st)]
        if sname in ('operator delete', 'free'):
            self.ev(st, ('delete', args[0][1]))
            return [Outcome('ret', None, st)]
        if fn is None or not self.eng.is_repo(fn, sname):
            return None
        return None

    def vcall(self, eng, st, ins, vn, args, targets):
        m = vn.split('::')[-1]
        if args and args[0][1] == ('p', self.obj, 0):
            if m == 'run':
                self._fresh(eng, st, ins)
                self.ev(st, ('run', tuple(self.flag(eng, st, n) for n in 'EFSJ'), st.mon[1]))
                self.environment(eng, st, ins, 'E')
                return [Outcome('ret', None, st)]
            if m == 'makePeriodic':
                self.ev(st, ('periodic',))
                return [Outcome('ret', None, st)]
            if m == 'onStop':
                return [Outcome('ret', None, st)]
        return None

    def store(self, eng, st, ins, ptr, v, size):
        ob = eng.as_ptr(ptr)
        if ob and ob[0] == self.obj and ob[1] in self.fl.names and self.watch:
            self.watch(eng, st, ins, self.fl.names[ob[1]], v)
        return None
    watch = None
    mode = ''


def mk(p, cls, flags, ctormem, mode, watch=None):
    obj = ('this', cls)
    r = ThreadRule(p, cls, flags, obj)
    r.mode = mode
    r.watch = watch
    return Engine(p, r), r, obj


def construct(ctx, p, cls, flags):
    """Memory after the construction of a thread object."""
    ctor = one(p.special(cls, 'C'), cls + ' constructor')[0]
    e, r, obj = mk(p, cls, flags, None, 'ctor')
    outs = [o for o in e.explore(ctor, special_args(e, ctor, cls, obj), ((), 0)) if o.kind == 'ret']
    if not outs:
        raise Broken('%s: the constructor never returns' % cls)
    full = p.fullname(ctor.name)
    for o in outs:
        want = {'E': False, 'F': True, 'S': False, 'J': True}
        for n, w in want.items():
            if r.flag(e, o.st, n) is not w:
                ctx.violation('initial', p.fwhere(ctor), full, 'a new thread object is not in the state "not running, joined"')
    ctx.ok('initial', full)
    ctx.take(e, 'initial')
    o = outs[0]

    def f(x):
        if len(x) == 3 and x[0] == 'h':
            return ('obj', x[1], x[2])
        if len(x) >= 2 and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] in ('r', 'e', 'ret'):
            return ('s', ('ctor',) + x[1])
        return x
    mem = deep(o.st.mem, f)
    mem = {k: v for k, v in mem.items() if k[0] in ('this', 'obj')}
    mem[obj] = {k: v for k, v in mem[obj].items() if k != 0}        # the dynamic type is a subclass
    return mem


def setflags(mem, obj, fl, E=None, F=None, S=None, J=None):
    m = {k: dict(v) for k, v in mem.items()}
    for n, v in (('E', E), ('F', F), ('S', S), ('J', J)):
        off = getattr(fl, n)
        m[obj][off] = (I(int(v)) if v is not None else ('s', ('init', n)), 1)
    return m


def t06(ctx):
    ctx.rule('initial', 'a new thread object is idle and joined')
    ctx.rule('start', 'start(): one operating system thread is created iff the thread is neither starting nor running, after a previous '
                      'thread was joined; the result is the success; it returns with the thread started; a failure restores the idle state')
    ctx.rule('body', 'the new thread calls run() of the object it was created for exactly once, marked executing and running, before the '
                     'start is acknowledged to other threads; afterwards it is marked finished before waiting threads are released')
    ctx.rule('stop', 'stop() only withdraws the execute flag after the start was acknowledged, so that it is never lost')
    ctx.rule('join', 'join() waits for the operating system thread iff it has not been joined, and then marks it joined')
    ctx.rule('wait', 'wait() returns true only for a finished thread, after joining it, and false only if it has not finished')
    ctx.rule('cancel', 'cancel() cancels a running thread and marks it finished and not executing')
    ctx.rule('destroy', 'a destructor stops and joins an unjoined thread before anything which the thread uses is destroyed')
    ctx.assumptions += ['POSIX semantics of pthread_create/join/cancel', 'Mutex operations as established by T01',
                        'the boolean flags are read and written atomically and in program order']
    p = ctx.load(['icl_core_thread', 'icl_core_dispatch', 'icl_core'], [])
    pl = ctx.load(['icl_core_logging', 'icl_core'])
    for cls in TH:
        prog = pl if cls.startswith(L) else p
        lifecycle(ctx, prog, cls)
    for prog, cls in ((p, TH[0]), (pl, TH[1])):
        for d in derived(prog, cls):
            destroy(ctx, prog, cls, d)
    for r, n in (('initial', 2), ('start', 6), ('body', 2), ('stop', 2), ('join', 2), ('wait', 1), ('cancel', 1), ('destroy', 5)):
        ctx.need(r, n)


def lifecycle(ctx, p, cls):
    fl = Flags(p, cls)
    mem0 = construct(ctx, p, cls, fl)
    obj = ('this', cls)

    def m(name):
        f = one(p.find(cls + '::' + name), cls + '::' + name)[0]
        return f, p.fwhere(f), p.fullname(f.name)

    # ---- start
    f, where, full = m('start')
    bodies = []
    for name, fs in (('idle', dict(E=0, F=1, S=0, J=1)), ('finished', dict(E=0, F=1, S=0, J=0)),
                     ('running', dict(E=1, F=0, S=0, J=0)), ('stopping', dict(E=0, F=0, S=0, J=0)),
                     ('starting', dict(E=0, F=0, S=1, J=0))):
        e, r, _ = mk(p, cls, fl, mem0, 'start')
        outs = [o for o in e.explore(f, [('p', obj, 0)], ((), 0), setflags(mem0, obj, fl, **fs)) if o.kind == 'ret']
        if not outs:
            ctx.violation('start', where, full, 'never returns for a thread which is %s' % name)
        for o in outs:
            evs = [x for x in o.st.mon[0] if x[0] in ('create', 'pjoin')]
            flag = lambda n: r.flag(e, o.st, n)
            ret = e.decide(o.st, o.ret)

            def bad(msg):
                ctx.violation('start', where, full, '%s (thread %s before)' % (msg, name))
            if name in ('idle', 'finished'):
                cr = [x for x in evs if x[0] == 'create']
                if len(cr) != 1:
                    bad('creates %d operating system threads instead of one' % len(cr))
                    continue
                if evs[-1][0] != 'create' or (('pjoin',) in evs) != (name == 'finished'):
                    bad('the previous operating system thread is %s before the new one is created' % (
                        'not joined' if name == 'finished' else 'joined although there is none'))
                if cr[0][1]:
                    if ret is not True:
                        bad('does not report the successful start')
                    if flag('S') is not False:
                        bad('returns before the new thread has acknowledged its start')
                    if flag('J') is not False:
                        bad('the new thread is not marked as to be joined')
                else:
                    if ret is not False:
                        bad('reports success although the operating system thread could not be created')
                    if (flag('F'), flag('S'), flag('J')) != (True, False, True):
                        bad('does not return to the idle state although the operating system thread could not be created')
            else:
                if evs:
                    bad('%s although the thread is already %s' % (
                        'creates a thread' if any(x[0] == 'create' for x in evs) else 'joins the thread', name))
                if flag('S') is not False:
                    bad('returns before the thread has acknowledged its start')
                s = o.st.copy()
                v = r._read(e, s, fl.F)
                for fin in (0, 1):
                    s = o.st.copy()
                    if e.assume(s, ('x', 'trunc', v, 8, 1), bool(fin)) if v[0] != 'i' else v[1] == fin:
                        if e.decide(s, o.ret) is not (fin == 0):
                            bad('the result does not tell whether the thread is running')
        for st, fn, arg, w in r.creates:
            s = {n: r.flag(e, st, n) for n in 'EFSJ'}
            if s['S'] is not True:
                ctx.violation('start', w, full, 'the thread is created before it is marked as starting (a lost start could not be noticed)')
            if s['F'] is not False:
                ctx.violation('start', w, full, 'the thread is created while it is marked as finished')
            bodies.append((st, fn, arg, w))
        ctx.ok('start', '%s, thread %s' % (full, name))
        ctx.take(e, 'start')

    # ---- body
    rf, rwhere, rfull = m('runThread')
    seen = set()
    for st, fn, arg, w in bodies:
        if not (fn[0] == 'p' and fn[1][0] == 'g'):
            ctx.violation('body', w, full, 'the start routine of the new thread is unknown')
            continue
        entry = p.funcs.get(fn[1][1][1])
        if entry is None:
            for mod in p.modules:
                if mod.src == fn[1][1][0]:
                    entry = mod.funcs.get(fn[1][1][1])
        k = (fn, arg)
        if entry is None or k in seen:
            continue
        seen.add(k)
        order = []

        def watch(eng, s, ins, name, v):
            v = eng.norm(s, v)
            val = (v[1] & 1) if v[0] == 'i' else None
            ran = any(x[0] == 'run' for x in s.mon[0])
            if name == 'S' and val == 0:
                if eng.rule.flag(eng, s, 'E') is not True and not ran:
                    eng.report(ins, 'the start is acknowledged before the thread is marked as executing: a stop() in between is lost')
                if eng.rule.flag(eng, s, 'F') is not False and not ran:
                    eng.report(ins, 'the start is acknowledged while the thread is still marked as finished')
                if eng.rule.has_mutex and s.mon[1] < 1:
                    eng.report(ins, 'the start is acknowledged before the thread holds the mutex which wait() uses')
            if name == 'E' and val != 0 and eng.rule.flag(eng, s, 'S') is not True:
                eng.report(ins, 'the execute flag is set although the start was acknowledged: a stop() in between is lost')
        e, r, _ = mk(p, cls, fl, mem0, 'body', watch)
        mem = {o: d for o, d in st.mem.items() if o[0] in ('this', 'obj')}
        outs = [o for o in e.explore(entry, [arg], ((), 0), mem, st.facts) if o.kind == 'ret']

        def bad(msg):
            ctx.violation('body', rwhere, rfull, msg)
        if not outs:
            bad('the thread never ends')
        for o in outs:
            runs = [x for x in o.st.mon[0] if x[0] == 'run']
            if len(runs) != 1:
                bad('run() of the started object is called %d times instead of once' % len(runs))
                continue
            E, F, S, J = runs[0][1]
            if E is not True:
                bad('run() is called while the thread is not marked as executing')
            if F is not False:
                bad('run() is called while the thread is marked as finished')
            if S is not False:
                bad('run() is called before the start is acknowledged')
            if r.has_mutex and runs[0][2] < 1:
                bad('run() is called without the mutex on which wait() blocks')
            if r.has_mutex:
                ul = [i for i, x in enumerate(o.st.mon[0]) if x[0] == 'unlock']
                if not ul or o.st.mon[1] != 0:
                    bad('the mutex on which wait() blocks is not released at the end')
                elif [x for x in o.st.mon[0] if x[0] == 'unlock'][-1][1] is not True:
                    bad('waiting threads are released before the thread is marked as finished')
                per = [i for i, x in enumerate(o.st.mon[0]) if x[0] == 'periodic']
                ri = o.st.mon[0].index(runs[0])
                if len(per) != 1 or per[0] > ri:
                    bad('the thread is not made periodic exactly once before run()')
            if r.flag(e, o.st, 'F') is not True:
                bad('the thread is not marked as finished at its end')
            if r.flag(e, o.st, 'E') is not False:
                bad('the thread is still marked as executing at its end')
        ctx.ok('body', '%s via %s' % (rfull, p.sname(entry.name)))
        ctx.take(e, 'body')

    # ---- stop
    f, where, full = m('stop')

    def watch(eng, s, ins, name, v):
        if name == 'E' and eng.rule.flag(eng, s, 'S') is not False:
            eng.report(ins, 'the execute flag is withdrawn while the thread may still be starting: the stop is lost')
    e, r, _ = mk(p, cls, fl, mem0, 'stop', watch)
    for o in e.explore(f, [('p', obj, 0)], ((), 0), setflags(mem0, obj, fl)):
        if o.kind == 'ret' and r.flag(e, o.st, 'E') is not False:
            ctx.violation('stop', where, full, 'the thread is not told to stop')
    ctx.ok('stop', full)
    ctx.take(e, 'stop')

    # ---- join
    f, where, full = m('join')
    for J in (0, 1):
        for F in (0, 1):
            e, r, _ = mk(p, cls, fl, mem0, 'join')
            for o in e.explore(f, [('p', obj, 0)], ((), 0), setflags(mem0, obj, fl, J=J, F=F, E=None, S=0)):
                n = len([x for x in o.st.mon[0] if x[0] == 'pjoin'])
                if not J and n != 1:
                    ctx.violation('join', where, full, 'a %s thread is not joined' % ('finished' if F else 'running'))
                if J and F and n:
                    ctx.violation('join', where, full, 'a thread is joined twice')
                if r.flag(e, o.st, 'J') is not True:
                    ctx.violation('join', where, full, 'the thread is not marked as joined')
            ctx.ok('join', '%s, joined=%d, finished=%d' % (full, J, F))
            ctx.take(e, 'join')

    # ---- wait
    for f in p.find(cls + '::wait'):
        where, full = p.fwhere(f), p.fullname(f.name)
        for J in (0, 1):
            e, r, _ = mk(p, cls, fl, mem0, 'wait')
            mem = setflags(mem0, obj, fl, J=J, E=None, S=None, F=1 if J else None)
            args = e.default_args(f, obj)
            for o in e.explore(f, args, ((), 0), mem):
                if o.kind != 'ret':
                    continue
                n = len([x for x in o.st.mon[0] if x[0] == 'pjoin'])
                if o.st.mon[1] != 0:
                    ctx.violation('wait', where, full, 'returns with the thread mutex locked')
                for truth in (True, False):
                    s = o.st.copy()
                    if not e.assume(s, o.ret, truth):
                        continue
                    fin = r.flag(e, s, 'F')
                    if truth:
                        if fin is not True:
                            ctx.violation('wait', where, full, 'returns true although the thread may still be running')
                        if not J and n != 1:
                            ctx.violation('wait', where, full, 'returns true without joining the thread')
                        if r.flag(e, s, 'J') is not True:
                            ctx.violation('wait', where, full, 'returns true although the thread is not marked as joined')
                    else:
                        if fin is not False:
                            ctx.violation('wait', where, full, 'returns false although the thread may have finished')
            ctx.ok('wait', '%s, joined=%d' % (full, J))
            ctx.take(e, 'wait')

    # ---- cancel
    for f in p.find(cls + '::cancel'):
        where, full = p.fwhere(f), p.fullname(f.name)
        for F in (0, 1):
            e, r, _ = mk(p, cls, fl, mem0, 'cancel')
            for o in e.explore(f, [('p', obj, 0)], ((), 0), setflags(mem0, obj, fl, J=0, E=None, S=0, F=F)):
                n = len([x for x in o.st.mon[0] if x[0] == 'pcancel'])
                if F and n:
                    ctx.violation('cancel', where, full, 'a finished thread is cancelled')
                if not F and (n != 1 or r.flag(e, o.st, 'F') is not True or r.flag(e, o.st, 'E') is not False):
                    ctx.violation('cancel', where, full, 'a running thread is not cancelled and marked as finished')
            ctx.ok('cancel', '%s, finished=%d' % (full, F))
            ctx.take(e, 'cancel')


def derived(p, cls):
    """The class and all classes derived from it."""
    out = []
    for c in p.classes().values():
        if not c.complete:
            continue
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x is None or x.qname in seen:
                continue
            seen.add(x.qname)
            if x.qname == cls:
                out.append(c.qname)
                break
            todo += [p.classes().get(b[1]) for b in x.bases]
    # classes nested in another class are implementation details: their owner has to shut them down (L02)
    return sorted(q for q in set(out) if p.classes().get(q.rsplit('::', 1)[0]) is None)


class DestroyRule(ThreadRule):
    """Any destruction (delete, destructor call of a member) before the thread is joined is a violation."""
    def call(self, eng, st, ins, sname, fn, args):
        last = sname.split('::')[-1]
        done = ('pjoin',) in st.mon[0]
        if not done and self.unjoined:
            ob = eng.as_ptr(args[0][1]) if args and args[0][0] == ('ptr',) else None
            mine = ob is not None and (ob[0] == self.obj or ob[0][0] in ('o', 'obj', 'h'))
            if sname in ('operator delete', 'operator delete[]', 'free', 'close') and (mine or sname == 'close'):
                eng.report(ins, 'an object is released before the thread, which uses it, is joined')
            elif last.startswith('~') and mine and not (ob[0] == self.obj and ob[1] == 0):
                eng.report(ins, '%s is destroyed before the thread, which uses it, is joined' % sname.rsplit('::', 1)[0])
        return ThreadRule.call(self, eng, st, ins, sname, fn, args)

    def vcall(self, eng, st, ins, vn, args, targets):
        m = vn.split('::')[-1]
        if m.startswith('~') and ('pjoin',) not in st.mon[0] and self.unjoined:
            eng.report(ins, '%s is destroyed before the thread, which uses it, is joined' % vn.rsplit('::', 1)[0])
        return ThreadRule.vcall(self, eng, st, ins, vn, args, targets)


def destroy(ctx, p, base, cls):
    ds = p.special(cls, 'D')
    if not ds:
        return
    f = ds[0]
    where, full = p.fwhere(f), p.fullname(f.name)
    fl = Flags(p, base)
    obj = ('this', cls)
    for J in (0, 1):
        r = DestroyRule(p, base, fl, obj)
        r.mode = 'destroy'
        r.unjoined = not J
        e = Engine(p, r)
        mem = setflags({obj: {}}, obj, fl, E=None, S=0, F=None if not J else 1, J=J)
        outs = e.explore(f, special_args(e, f, cls, obj), ((), 0), mem)
        for o in outs:
            if o.kind != 'ret':
                continue
            evs = o.st.mon[0]
            n = len([x for x in evs if x[0] == 'pjoin'])
            if not J and n != 1:
                ctx.violation('destroy', where, full, 'the destructor does not join an unjoined thread')
            if J and n:
                ctx.violation('destroy', where, full, 'the destructor joins a thread twice')
            if not J and r.flag(e, o.st, 'E') is not False and n:
                ctx.violation('destroy', where, full, 'the destructor waits for a thread which was not told to stop')
        if not outs:
            ctx.violation('destroy', where, full, 'the destructor never returns')
        ctx.ok('destroy', '%s, joined=%d' % (full, J))
        ctx.take(e, 'destroy')
