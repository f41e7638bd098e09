"""Lock discipline of the whole library: T03 balance, T04 order and blocking, T05 guarded containers."""
import re
from ..absint import AnalysisLimit, Unsupported
from .common import *
from .lints import ALL, untemplate

THREAD, LOGGING = 'icl_core::thread::', 'icl_core::logging::'
LOCKCLASS = re.compile(r'^icl_core::(thread::(Mutex|RWLock|SpinLock|Semaphore)|logging::Semaphore)$')
LOCKOP = re.compile(r'^icl_core::(thread::(Mutex|RWLock|SpinLock|Semaphore)|logging::Semaphore)::'
                    r'(lock|tryLock|readLock|tryReadLock|writeLock|tryWriteLock|wait|tryWait|unlock|post)$')
# the lock layer itself: functions whose purpose is to return with a lock held, or to release one
LAYER = re.compile(r'^icl_core::((thread|logging)::)?(impl::)?(\w*(Mutex|RWLock|SpinLock|Semaphore)\w*|Scoped\w+|Singleton\w*|SingleThreaded|MultiThreaded)(::|$)')
GUARD = re.compile(r'^icl_core::(thread|logging)::Scoped(MutexLock|RWLock|SpinLock|Semaphore)::')
READS = ('empty', 'size', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'find', 'count')
CONTAINER = re.compile(r'^(icl_core::(List|Queue|Vector|Map|Multimap|Set)|std::(__cxx11::)?(list|deque|vector|queue|map|multimap|set))\b')
BLOCKING = re.compile(r'^(pthread_join|sleep|usleep|nanosleep|clock_nanosleep|select|poll)$|::(Thread|PeriodicThread)::(join|wait|waitPeriod|waitStarted)$|::ThreadImpl\w*::(join|wait)$|^icl_core::os::\w*::?(sleep|usleep|nanosleep)$')


class Types(object):
    """Names the members behind abstract addresses."""

    def __init__(self, p):
        self.p = p
        self.args = {}

    def pointee(self, t):
        m = re.match(r'^(?:const )?(.*?)[*&]$', t or '')
        return m.group(1).strip() if m else None

    def cls_of(self, obj):
        if obj[0] == 'this':
            return obj[1]
        if obj[0] == 'arg':
            return self.args.get(obj[1])
        if obj[0] == 'o':
            return self.ptr_class(obj[1])
        return None

    def ptr_class(self, v):
        """class of the object a pointer value points to"""
        v = canon(v)
        if v[0] == 's' and v[1][0] == 'ldc' and isinstance(v[1][2], int):
            m = self.member(v[1][1], v[1][2])
            return self.pointee(m[1]) if m else None
        if v[0] == 's' and v[1][0] == 'ld' and isinstance(v[1][2], int):
            m = self.member(v[1][1], v[1][2])
            return self.pointee(m[1]) if m else None
        if v[0] == 's' and v[1][0] == 'arg' and len(v[1]) > 2:
            return v[1][2]
        if v[0] == 'p' and v[2] == 0:
            return self.cls_of(v[1])
        return None

    def member(self, obj, off):
        """(qualified member name, type, offset within the member) of the innermost named member"""
        q = self.cls_of(obj)
        c = self.p.classes().get(q) if q else None
        if c is None:
            return None
        for nm, o, size, tn, tk, owner in self.p.flat_members(c):
            if o <= off < o + max(size, 1):
                return ('%s.%s' % (untemplate(owner.qname), nm), tn, off - o, tk)
        return None

    def lockname(self, eng, v):
        ob = eng.as_ptr(v)
        if ob is None or not isinstance(ob[1], int):
            return None
        m = self.member(*ob)
        if m and (LOCKCLASS.match(m[1]) or m[2] == 0):
            return m[0]
        if ob[0][0] == 'o' and ob[1] == 0:
            c = canon(ob[0][1])
            if c[0] == 's' and c[1][0] == 'ldc':
                m = self.member(c[1][1], c[1][2])
                if m:
                    return m[0]
        if ob[0][0] == 'g':
            return self.p.sname(ob[0][1][1])
        return None


def access(c, m):
    f = m.get('flags', '')
    if 'DIFlagPrivate' in f:
        return 'private'
    if 'DIFlagProtected' in f:
        return 'protected'
    if 'DIFlagPublic' in f:
        return 'public'
    return 'private' if getattr(c, 'kind', 'class') == 'class' else 'public'


def canon(v):
    """The address without the version of the memory it was loaded from."""
    if isinstance(v, tuple):
        if v and v[0] == 'ld' and len(v) == 4:
            return ('ldc', canon(v[1]), v[2])
        if v and v[0] == 'phi' and len(v) == 3 and isinstance(v[2], tuple) and len(v[2]) == 3:
            return ('ldc', canon(v[2][1]), v[2][2])
        return tuple(canon(x) for x in v)
    return v


class Graph(object):
    """Direct calls of the repository's functions."""

    def __init__(self, p):
        self.p = p
        self.calls = {}
        self.callers = {}
        self.fns = {}
        for f in p.iter_funcs():
            if f.lines is None or not p.in_repo(f) or LAYER.match(p.sname(f.name)) or f.name in self.calls:
                continue
            self.fns[f.name] = f
            cs = set()
            for b in f.blocks.values():
                for i in b:
                    if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                        cs.add(i.x['callee'][1])
            self.calls[f.name] = cs
            for c in cs:
                self.callers.setdefault(c, set()).add(f.name)
        self.direct = set(n for n, cs in self.calls.items() if any(
            LOCKOP.match(p.sname(c)) or GUARD.match(p.sname(c)) for c in cs))
        self.hidden = set()
        for q, c in p.classes().items():
            for m in c.methods:
                ln = m.get('linkageName')
                if ln and access(c, m) != 'public' and 'virtualIndex' not in m:
                    self.hidden.add(ln)
        for n, f in self.fns.items():
            if f.linkage in ('internal', 'private'):
                self.hidden.add(n)

    def helper(self, n):
        """an internal function which is only analysed as part of its callers"""
        return n in self.hidden and bool(self.callers.get(n, set()) - {n})

    def closure(self, base):
        """functions which reach one of `base` through helpers"""
        out = set(base)
        todo = list(base)
        while todo:
            n = todo.pop()
            if not self.helper(n):
                continue
            for c in self.callers.get(n, ()):
                if c not in out:
                    out.add(c)
                    todo.append(c)
        return out


class LockRule(Rule):
    """mon = (((lock, name), count), ...) held"""
    join_limit = 12
    max_steps = 150000
    max_depth = 6

    def __init__(self, p, graph, types, follow, signals, sinks):
        self.p, self.g, self.t, self.follow, self.signals, self.sinks = p, graph, types, follow, signals, sinks
        self.accesses = []      # (member, op, held names, where)
        self.edges = []         # (held name, event, where)
        self.dtor_of = None

    def inline(self, eng, fn, sname):
        return fn.name in self.follow or bool(GUARD.match(sname))

    def fresh(self, eng, st, ins):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
            st.defd = st.defd | {ins.idx}
            return True
        st.defd = st.defd | {ins.idx}
        return False

    def rename(self, eng, mon, f):
        return tuple(sorted(((mapval(f, k[0]), k[1]), n) for k, n in mon))

    def held(self, st):
        return tuple(k[1] for k, n in st.mon)

    def used(self, eng, ins):
        if ins.res is None:
            return False
        fn = ins.fn
        if not hasattr(fn, '_usedregs'):
            fn._usedregs = {}
            for b in fn.blocks.values():
                for i in b:
                    for r in set(re.findall(r'%[\w.$-]+|%"[^"]*"', i.text or '')):
                        fn._usedregs[r] = fn._usedregs.get(r, 0) + 1
        return fn._usedregs.get(ins.res if ins.res.startswith('%') else '%' + ins.res, 0) > 1

    def call(self, eng, st, ins, sname, fn, args):
        m = LOCKOP.match(sname)
        if m:
            if self.fresh(eng, st, ins):
                args = eng.reeval(ins.fn, ins, st)
            op = m.group(3)
            name = self.t.lockname(eng, args[0][1])
            ob = eng.as_ptr(args[0][1])
            key = canon(ob) if ob is not None else ('?', ins.idx)
            short = name or sname.rsplit('::', 1)[0].split('::')[-1] + ' of ' + eng.p.fullname(eng.stack[0][0].name).split('(')[0]
            if name in self.signals:
                if op in ('wait',):
                    self.block(eng, st, ins, 'waits for the semaphore %s' % name)
                return None
            d = dict(st.mon)
            k = (key, short)
            if op in ('unlock', 'post'):
                if d.get(k, 0) < 1:
                    eng.report(ins, '%s is released although it is not held' % short)
                else:
                    d[k] -= 1
                    if not d[k]:
                        del d[k]
                st.mon = tuple(sorted(d.items()))
                return [Outcome('ret', I(1) if ins.ty != ('void',) else None, st)]
            if op in ('lock', 'wait', 'readLock', 'writeLock'):
                for kk in d:
                    self.edges.append((kk[1], 'lock', short, eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), sname))
                self.edges.append((None, 'lock', short, eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), sname))
            outs = []
            if self.used(eng, ins) or op.startswith('try') or len(args) > 1:
                outs.append(Outcome('ret', I(0), st.copy()))
            d[k] = min(d.get(k, 0) + 1, 4)
            st.mon = tuple(sorted(d.items()))
            return outs + [Outcome('ret', I(1), st)]
        for n, (at, av) in enumerate(args):
            ob = eng.as_ptr(av) if at == ('ptr',) else None
            if ob is not None and isinstance(ob[1], int):
                mb = self.t.member(*ob)
                short = sname.split('::')[-1]
                base = sname.split('::')[-2] if '::' in sname else ''
                if mb and CONTAINER.match(mb[1]) and mb[2] == 0 and mb[3] == 'class' and short != base and not short.startswith('~'):
                    inst = self.instance(ob)
                    self.accesses.append((mb[0], short if n == 0 else 'copy', self.held(st), eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), inst))
        if BLOCKING.search(sname):
            self.block(eng, st, ins, 'calls %s' % sname)
        if fn is not None and fn.name in self.follow:
            return None
        if GUARD.match(sname):
            return None
        if st.mon and fn is not None and eng.is_repo(fn, sname):
            self.edges += [(k[1], 'call', ins.x['callee'][1], eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), sname) for k, n in st.mon]
        return None

    def vcall(self, eng, st, ins, vn, args, targets):
        for t in targets or ():
            self.edges += [(k[1], 'call', t, eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), vn) for k, n in st.mon]
        return None

    max_virtual = 0

    def instance(self, ob):
        return 'this' if ob[0][0] == 'this' else 'other'

    def block(self, eng, st, ins, what):
        for k in [None] + [k[1] for k, n in st.mon]:
            self.edges.append((k, 'block', what, eng.p.where(ins), eng.p.fullname(eng.stack[0][0].name), what))


class SemRule(Rule):
    """Finds the initial counts of the semaphores of a class."""
    join_limit = 4
    max_steps = 20000

    def __init__(self):
        self.counts = {}

    def inline(self, eng, fn, sname):
        return False

    def call(self, eng, st, ins, sname, fn, args):
        if re.match(r'^icl_core::(thread|logging)::Semaphore::Semaphore$', sname):
            n = eng.norm(st, args[1][1])
            self.counts[eng.as_ptr(args[0][1])] = n[1] if n[0] == 'i' else None
        return None


def semaphores(p, types):
    """Qualified names of semaphores which are created with another count than one (they do not serve as a mutex)."""
    out = set()
    for q, c in sorted(p.classes().items()):
        ms = [m for m in c.members if re.match(r'^icl_core::(thread|logging)::Semaphore\*?$', m[3])]
        if not ms or LAYER.match(q):
            continue
        for f in p.special(untemplate(q), 'C'):
            r = SemRule()
            e = Engine(p, r)
            obj = ('this', q)
            try:
                outs = e.explore(f, special_args(e, f, q, obj), ())
            except (AnalysisLimit, Unsupported):
                continue
            for nm, off, size, tn, tk in ms:
                if tn.endswith('*'):
                    cs = set()
                    for o in outs:
                        v = o.st.mem.get(obj, {}).get(off)
                        cs.add(r.counts.get(e.as_ptr(v[0])) if v and e.as_ptr(v[0]) else None)
                else:
                    cs = {r.counts.get((obj, off))}
                if cs and 1 not in cs and None not in cs:
                    out.add('%s.%s' % (untemplate(q), nm))
    return out


def analyse(ctx):
    p = ctx.load(ALL, ['templates'])
    types = Types(p)
    g = Graph(p)
    signals = semaphores(p, types)
    # classes which own a lock: their containers are guarded
    owners = set()
    for q, c in p.classes().items():
        if q.startswith('icl_core::') and not LAYER.match(q) and any(LOCKCLASS.match(m[3].rstrip('*')) for m in c.members):
            owners.add(q)
    for q in ('icl_core::thread::ActiveObject', 'icl_core::dispatch::PeriodicDispatchThread', 'icl_core::logging::LogStream',
              'icl_core::logging::LogOutputStream', 'icl_core::logging::LogOutputStream::WorkerThread'):
        if q in p.classes():
            owners.add(q)
    containers = {}
    for q in owners:
        for m in p.classes()[q].members:
            if CONTAINER.match(m[3]) and m[4] == 'class':
                containers['%s.%s' % (untemplate(q), m[0])] = q
    return p, types, g, signals, owners, containers


def run_roots(ctx):
    p, types, g, signals, owners, containers = analyse(ctx)
    # functions which may touch an owner: its methods, its friends and everything that gets hold of one
    friend = set()
    for n, f in g.fns.items():
        s = p.sname(n)
        cq = s.rsplit('::', 1)[0]
        if cq in owners or any(o.startswith(cq + '::') for o in owners):
            friend.add(n)
    follow = g.closure(g.direct)
    mods = set(f.mod.src for f in (g.fns[n] for n in friend | g.direct))
    roots = set(n for n in follow if not g.helper(n))
    # other functions of the same sources: they may use the containers without any lock
    roots |= set(n for n, f in g.fns.items() if not g.helper(n) and (n in friend or f.mod.src in mods and p.file_of(f).endswith('.cpp')))
    follow |= set(n for n in g.fns if g.helper(n) and n in friend)
    inl = set(n for n in follow if g.helper(n))
    res = []
    for n in sorted(roots):
        f = g.fns[n]
        s = p.sname(n)
        cls = s.rsplit('::', 1)[0]
        r = LockRule(p, g, types, inl, signals, None)
        e = Engine(p, r)
        is_m = cls in p.classes() and 'this' in (f.params[0][1] if f.params else '')
        is_m = is_m or (cls in p.classes() and len(f.params) > 1 and 'this' in f.params[1][1])
        types.args = {}
        for k, t in enumerate((p.param_list(n) or ((), 0))[0]):
            k += 1 if is_m else 0
            q = types.pointee(t)
            if q in p.classes():
                types.args[k] = q
        try:
            if re.search(r'[CD][012]E', n):
                args = special_args(e, f, cls, ('this', cls))
            else:
                args = e.default_args(f, ('this', cls) if is_m else None)
            outs = e.explore(f, args, ())
        except (AnalysisLimit, Unsupported) as x:
            if n in g.closure(g.direct):
                raise Broken('%s could not be analysed: %s' % (p.fullname(n), x))
            continue
        ctx.cover(e)
        res.append((f, s, cls, r, e, outs))
    return p, types, g, signals, owners, containers, res


def virtual_targets(p, f):
    """Targets of the virtual calls of f (class hierarchy analysis on the type tests of the vtable pointers)."""
    tid, slot, via, out = {}, {}, {}, set()
    ins = [i for b in f.blocks.values() for i in b]
    for i in ins:
        m = re.match(r'.*call i1 @llvm\.(?:public\.)?type\.test\(ptr (%[\w.$-]+), metadata !"([^"]+)"\)', i.text or '')
        if m:
            tid[m.group(1)] = m.group(2)
    for i in ins:
        t = i.text or ''
        m = re.match(r'\s*(%[\w.$-]+) = getelementptr (?:inbounds )?ptr, ptr (%[\w.$-]+), i64 (\d+)', t)
        if m and m.group(2) in tid:
            slot[m.group(1)] = (tid[m.group(2)], 8 * int(m.group(3)))
        m = re.match(r'\s*(%[\w.$-]+) = load ptr, ptr (%[\w.$-]+)', t)
        if m:
            if m.group(2) in slot:
                via[m.group(1)] = slot[m.group(2)]
            elif m.group(2) in tid:
                via[m.group(1)] = (tid[m.group(2)], 0)
    for i in ins:
        if i.op in ('call', 'invoke') and i.x['callee'][0] == 'r':
            v = via.get(i.x['callee'][1]) or via.get('%' + i.x['callee'][1])
            if v:
                out |= set(p.cha(v[0], v[1]))
    return out


def thunk_target(n):
    return re.sub(r'^_ZTh?v?n?\d+_(n\d+_)?', '_Z', n) if n.startswith('_ZT') else n


def t03(ctx):
    ctx.rule('balance', 'whoever acquires a lock releases it on every way out, and only releases what it holds')
    p, types, g, signals, owners, containers, res = run_roots(ctx)
    n = 0
    for f, s, cls, r, e, outs in res:
        acq = set(x[2] for x in r.edges if x[0] is None and x[1] == 'lock')
        tried = set(k[1] for o in outs for k, c in o.st.mon)
        ctx.take(e, 'balance')
        if not acq and not tried:
            continue
        nm = p.fullname(f.name)
        ctx.ok('balance', '%s: %s' % (nm, ', '.join(sorted(acq | tried))))
        for o in outs:
            for k, c in o.st.mon:
                ctx.violation('balance', p.fwhere(f), nm, '%s is still held when the function %s' % (
                    k[1], 'returns' if o.kind == 'ret' else 'is left by an exception'), key='%s|held|%s' % (nm, k[1]))
    ctx.need('balance', 12)


def t04(ctx):
    ctx.rule('order', 'the locks are acquired in an order without cycles, and no lock which cannot be acquired recursively is acquired while it is held')
    ctx.rule('blocking', 'nobody waits for another thread, or sleeps, while holding a lock')
    p, types, g, signals, owners, containers, res = run_roots(ctx)
    acq, blk = {}, {}
    for f, s, cls, r, e, outs in res:
        for held, ev, what, where, root, sn in r.edges:
            if held is None and ev == 'lock':
                acq.setdefault(f.name, {}).setdefault(what, (where, root))
            if held is None and ev == 'block':
                blk.setdefault(f.name, {}).setdefault(what, (where, root))
    calls = {n: set(cs) for n, cs in g.calls.items()}
    nv = 0
    for n, f in g.fns.items():
        v = virtual_targets(p, f)
        nv += len(v)
        calls[n] |= set(thunk_target(x) for x in v)
    # transitive closure with a witness
    reach = {}

    def trans(n):
        if n in reach:
            return reach[n]
        seen, todo, a, b = {n: None}, [n], {}, {}
        while todo:
            x = todo.pop()
            for k, w in acq.get(x, {}).items():
                a.setdefault(k, (w, x))
            for k, w in blk.get(x, {}).items():
                b.setdefault(k, (w, x))
            for c in sorted(calls.get(x, ())):
                if c not in seen and c in calls:
                    seen[c] = x
                    todo.append(c)

        def path(x):
            out = []
            while x is not None:
                out.append(p.fullname(x))
                x = seen[x]
            return out[::-1]
        reach[n] = ({k: (w, path(x)) for k, (w, x) in a.items()}, {k: (w, path(x)) for k, (w, x) in b.items()})
        return reach[n]
    edges, info = {}, {}
    kinds = {}
    for f, s, cls, r, e, outs in res:
        for held, ev, what, where, root, sn in r.edges:
            if ev == 'lock':
                kinds.setdefault(what, sn)
            if held is None:
                continue
            if ev == 'lock':
                edges.setdefault(held, {}).setdefault(what, (where, root, ()))
                ctx.ok('order', '%s before %s' % (held, what))
            elif ev == 'block':
                ctx.violation('blocking', where, root, '%s while %s is held' % (what, held), key='%s|blocks|%s' % (root, held))
            else:
                a, b = trans(thunk_target(what))
                ctx.ok('blocking', '%s: %s with %s held' % (root, p.fullname(what), held))
                for k, (w, pth) in a.items():
                    edges.setdefault(held, {}).setdefault(k, (where, root, tuple(pth)))
                    ctx.ok('order', '%s before %s' % (held, k))
                if is_run_lock(held):
                    continue
                for k, (w, pth) in b.items():
                    ctx.violation('blocking', where, root, '%s %s while %s is held' % (pth[-1], k, held), pth, key='%s|blocks|%s' % (root, held))
    for k in kinds:
        ctx.ok('order', 'acquisitions of %s' % k)

    def reaches(a, b):
        seen, todo = {a: None}, [a]
        while todo:
            x = todo.pop()
            for y in edges.get(x, {}):
                if y == b:
                    out = [b]
                    while x is not None:
                        out.append(x)
                        x = seen[x]
                    return out[::-1]
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return None
    for a in sorted(edges):
        for b, (where, root, pth) in sorted(edges[a].items()):
            if a == b:
                if not re.search(r'::Mutex::', kinds.get(a, '')):
                    ctx.violation('order', where, root, '%s is acquired while it is already held' % a, pth, key='%s|self|%s' % (root, a))
                continue
            back = reaches(b, a)
            if back:
                ctx.violation('order', where, root, '%s is acquired while %s is held, but elsewhere the order is %s' % (b, a, ' then '.join(back)),
                              pth, key='order|%s' % '|'.join(sorted((a, b))))
    ctx.need('order', 8)
    ctx.need('blocking', 10)


def is_run_lock(name):
    return bool(re.search(r'thread::Thread\.|runThread', name))


def t05(ctx):
    ctx.rule('lockset', 'all accesses to a container of a class which owns a lock hold one common lock (constructors and destructors excepted)')
    p, types, g, signals, owners, containers, res = run_roots(ctx)
    acc = {}
    for f, s, cls, r, e, outs in res:
        for member, op, held, where, root, inst in r.accesses:
            if member in containers:
                own = containers[member]
                if re.search(r'[CD][012]E', f.name) and inst == 'this' and cls.startswith(untemplate(own)):
                    continue
                acc.setdefault(member, []).append((op, held, where, root))
    for m in sorted(acc):
        names = {}
        for op, held, where, root in acc[m]:
            for h in set(held):
                names[h] = names.get(h, 0) + 1
        if not names:
            if any(op not in READS for op, *_ in acc[m]):
                for op, held, where, root in acc[m]:
                    ctx.violation('lockset', where, root, '%s: %s without any lock' % (m, op), key='%s|%s' % (root, m))
            continue
        best = max(sorted(names), key=lambda h: names[h])
        for op, held, where, root in acc[m]:
            ctx.ok('lockset', '%s: %s in %s holds %s' % (m, op, root, ', '.join(held)))
            if best not in held:
                ctx.violation('lockset', where, root, '%s: %s without holding %s, which guards it elsewhere' % (m, op, best), key='%s|%s' % (root, m))
    missing = len(acc)
    if missing < 5:
        raise Broken('only %d guarded containers found' % missing)
    ctx.need('lockset', 20)
