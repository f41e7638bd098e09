"""R01: files, sockets, database handles, locks and owned objects are released exactly once."""
import re
from ..absint import Engine, State, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .config import quiet, truth_of
from .logs import fresh
from .manager import mentions
from ..core import Broken

MINUS1 = I(-1)
DEBUG = False

# name: (kind, how the handle is delivered, value on failure)
#   'ret': pointer or descriptor as the result; ('out', n): through the n-th argument, result 0 on success; ('obj', n): the object itself
ACQUIRE = {
    'gzopen': ('gzip file', 'ret', 'null'), 'gzopen64': ('gzip file', 'ret', 'null'), 'gzdopen': ('gzip file', 'ret', 'null'),
    'fopen': ('file', 'ret', 'null'), 'fopen64': ('file', 'ret', 'null'), 'fdopen': ('file', 'ret', 'null'), 'tmpfile': ('file', 'ret', 'null'),
    'popen': ('pipe', 'ret', 'null'), 'opendir': ('directory', 'ret', 'null'), 'fdopendir': ('directory', 'ret', 'null'),
    'dlopen': ('library', 'ret', 'null'),
    'open': ('descriptor', 'ret', 'fd'), 'open64': ('descriptor', 'ret', 'fd'), 'creat': ('descriptor', 'ret', 'fd'),
    'socket': ('descriptor', 'ret', 'fd'), 'accept': ('descriptor', 'ret', 'fd'), 'dup': ('descriptor', 'ret', 'fd'),
    'timerfd_create': ('descriptor', 'ret', 'fd'), 'epoll_create': ('descriptor', 'ret', 'fd'), 'eventfd': ('descriptor', 'ret', 'fd'),
    'getaddrinfo': ('address list', ('out', 3), 'keep'),
    'sqlite3_open': ('database', ('out', 1), 'either'), 'sqlite3_open_v2': ('database', ('out', 1), 'either'),
    'sqlite3_prepare': ('statement', ('out', 3), 'null'), 'sqlite3_prepare_v2': ('statement', ('out', 3), 'null'),
    'sqlite3_prepare_v3': ('statement', ('out', 4), 'null'),
    'sqlite3_exec': ('error message', ('out', 4), 'error'),
    'wordexp': ('word list', ('obj', 1), None),
    'sem_init': ('semaphore', ('init', 0), None), 'pthread_mutex_init': ('mutex', ('init', 0), None),
    'pthread_mutexattr_init': ('mutex attributes', ('init', 0), None), 'pthread_rwlock_init': ('read/write lock', ('init', 0), None),
    'pthread_attr_init': ('thread attributes', ('init', 0), None), 'pthread_cond_init': ('condition', ('init', 0), None),
    'operator new': ('object', 'ret', 'never'), 'operator new[]': ('array', 'ret', 'never'),
    'malloc': ('memory', 'ret', 'null'), 'calloc': ('memory', 'ret', 'null'), 'strdup': ('memory', 'ret', 'null'),
}
# name: (kind, argument, is the argument allowed to be null)
RELEASE = {
    'gzclose': ('gzip file', 0, True), 'gzclose_r': ('gzip file', 0, True), 'gzclose_w': ('gzip file', 0, True),
    'fclose': ('file', 0, False), 'pclose': ('pipe', 0, False), 'closedir': ('directory', 0, False), 'dlclose': ('library', 0, False),
    'close': ('descriptor', 0, True), 'freeaddrinfo': ('address list', 0, False),
    'sqlite3_close': ('database', 0, True), 'sqlite3_close_v2': ('database', 0, True), 'sqlite3_finalize': ('statement', 0, True),
    'sqlite3_free': ('error message', 0, True), 'wordfree': ('word list', 0, False),
    'sem_destroy': ('semaphore', 0, False), 'pthread_mutex_destroy': ('mutex', 0, False),
    'pthread_mutexattr_destroy': ('mutex attributes', 0, False), 'pthread_rwlock_destroy': ('read/write lock', 0, False),
    'pthread_attr_destroy': ('thread attributes', 0, False), 'pthread_cond_destroy': ('condition', 0, False),
    'operator delete': ('object', 0, True), 'operator delete[]': ('array', 0, True), 'free': ('memory', 0, True),
}
# what may only be done with an open handle: {name: (kind, argument)}
USE = {}
for n in 'gzread gzwrite gzflush gzputs gzprintf gzgets gzeof gzseek gztell gzrewind gzputc gzgetc gzsetparams'.split():
    USE[n] = ('gzip file', 0)
USE['gzputc'] = USE['gzputs'] = ('gzip file', 0)
USE['gzgets'] = ('gzip file', 0)
for n in 'write read send recv connect bind sendto recvfrom setsockopt listen fsync ioctl timerfd_settime'.split():
    USE[n] = ('descriptor', 0)
for n in ('sqlite3_exec', 'sqlite3_prepare', 'sqlite3_prepare_v2', 'sqlite3_prepare_v3', 'sqlite3_changes', 'sqlite3_busy_timeout'):
    USE[n] = ('database', 0)
for n in ('sqlite3_step', 'sqlite3_reset', 'sqlite3_bind_text', 'sqlite3_bind_int', 'sqlite3_bind_int64', 'sqlite3_bind_null', 'sqlite3_bind_double',
          'sqlite3_bind_blob', 'sqlite3_clear_bindings'):
    USE[n] = ('statement', 0)
for n in 'sem_wait sem_trywait sem_timedwait sem_post sem_getvalue'.split():
    USE[n] = ('semaphore', 0)
for n in 'lock trylock timedlock unlock clocklock'.split():
    USE['pthread_mutex_' + n] = ('mutex', 0)
for n in 'rdlock tryrdlock timedrdlock wrlock trywrlock timedwrlock unlock'.split():
    USE['pthread_rwlock_' + n] = ('read/write lock', 0)
USE['pthread_mutexattr_settype'] = USE['pthread_mutexattr_setprotocol'] = ('mutex attributes', 0)

SYSTEM = set(ACQUIRE) - {'operator new', 'operator new[]', 'malloc', 'calloc', 'strdup'}
INIT = tuple(v[0] for v in ACQUIRE.values() if v[1][0] == 'init')
HEAP = ('object', 'array', 'memory')


def callees(p, f):
    if not hasattr(f, '_callees'):
        f._callees = set()
        for b in f.blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                    f._callees.add(i.x['callee'][1][1] if isinstance(i.x['callee'][1], tuple) else i.x['callee'][1])
    return f._callees


def core(v):
    return v[2] if v[0] == 'own' else v


def bare(p, n):
    s = p.sname(n)
    return s if s else n


def again(eng, st, ins):
    """the arguments after older values of the instruction were renamed"""
    return [v for t, v in eng.reeval(eng.stack[-1][0], ins, st)]


class HandleRule(StrModel):
    """st.mon = ((handle, kind, where acquired, escaped), ...), ((handle, kind, where released), ...)"""
    join_limit = 12
    max_depth = 12
    heap = True

    def __init__(self, cls, this, relevant):
        self.cls, self.this, self.relevant = cls, this, relevant
        self.guards = getattr(relevant, 'classes', ())

    # ------------------------------------------------------------------ bookkeeping
    def rename(self, eng, mon, f):
        return tuple(tuple((f(h[0]),) + h[1:] for h in part) for part in mon)

    def mon_values(self, mon):
        return [h[0] for part in mon for h in part]

    def keep(self, obj, off):
        """what a function which is not followed leaves alone: this object, when it is given the object and not one of its members"""
        if obj != self.this:
            return False
        return not isinstance(off, int) or self.eng.extent(None, obj, off) is None

    def class_of(self, obj):
        return self.cls if obj == self.this else None

    def inline(self, eng, fn, sname):
        return fn.name in self.relevant or self.own(sname) or sname.rsplit('::', 1)[0] in self.guards

    def own(self, sname):
        return self.cls is not None and sname.rsplit('::', 1)[0] == self.cls

    def pure_repo(self, sname):
        return True

    def opened(self, eng, st, ins, val, kind):
        if kind in INIT:
            val = ('own', kind, val)
        for h in st.mon[0]:
            if h[0] == val:
                eng.report(ins, 'acquires a %s again which is still held' % kind)
        w = eng.p.where(ins)
        if self.forgotten(eng, st, ins, w):
            return False
        alive = lambda v: any(mentions(x, v) for x in st.regs.values()) or any(
            mentions(c[0], v) for d in st.mem.values() for c in d.values() if isinstance(c, tuple))
        st.mon = (tuple(sorted(st.mon[0] + ((val, kind, w, False),), key=repr)), tuple(h for h in st.mon[1] if h[0] != val and alive(core(h[0]))))
        return True

    def forgotten(self, eng, st, ins, w):
        """what the same statement acquired in an earlier iteration must be released or stored by now"""
        for h in st.mon[0]:
            if h[2] == w and is_old(h[0]) and not h[3]:
                v = core(h[0])
                if sum(x[0] == h[0] for x in st.mon[0]) > 1 or not any(
                        mentions(c[0], v) for o, d in st.mem.items() if o == self.this or o[0] in 'ah' for c in d.values() if isinstance(c, tuple)):
                    eng.report(ins, 'acquires another %s although the one of the previous iteration was not released' % h[1])
                    return True
        return False

    def find(self, eng, st, val, kind=None):
        val = self.plain(eng, st, val)
        if kind in INIT:
            val = ('own', kind, val)
        for h in st.mon[0]:
            if h[0] == val:
                return h
        return None

    def dead(self, st, v, kind=None):
        for x in st.mon[1]:
            if x[0] == v or kind in INIT and x[0] == ('own', kind, v):
                return x
        return None

    def plain(self, eng, st, v):
        return eng.norm(st, v)

    def is_null(self, eng, st, v, kind):
        if kind == 'descriptor':
            return eng.decide_icmp(st, 'slt', v, I(0), 32) is True
        return v == NULL or eng.decide_icmp(st, 'eq', v, NULL, 64) is True

    def of_interest(self, eng, kind):
        return True

    def release(self, eng, st, ins, v, kind, null_ok, name):
        v = self.plain(eng, st, v)
        h = self.find(eng, st, v, kind)
        if kind in INIT:
            x = self.dead(st, v)
            if x:
                eng.report(ins, 'releases the %s in an object which was released at %s' % (kind, x[2].split(' ')[0]))
        if h is not None:
            if h[1] != kind:
                eng.report(ins, 'releases a %s with %s()' % (h[1], name))
            if kind == 'database' and name == 'sqlite3_close' and any(x[1] == 'statement' for x in st.mon[0]):
                s = [x for x in st.mon[0] if x[1] == 'statement'][0]
                eng.report(ins, 'closes the database while the statement prepared at %s is still open: the database stays open' % s[2])
            st.mon = (tuple(x for x in st.mon[0] if x is not h), tuple(sorted(st.mon[1] + ((h[0], h[1], eng.p.where(ins)),), key=repr)))
            return
        x = self.dead(st, v, kind)
        if x is None and self.foreign(v):
            st.mon = (st.mon[0], tuple(sorted(st.mon[1] + ((('own', kind, v) if kind in INIT else v, kind, eng.p.where(ins)),), key=repr)))
            return
        if x:
            eng.report(ins, 'releases a %s again which was released at %s' % (x[1], x[2].split(' ')[0]) if x[1] == kind else
                       'releases a %s of an object which was released at %s' % (kind, x[2].split(' ')[0]))
            return
        if self.is_null(eng, st, v, kind):
            if not null_ok:
                eng.report(ins, 'passes %s to %s()' % ('no valid descriptor' if kind == 'descriptor' else 'a null pointer', name))
            return
        if kind in HEAP:
            return                                      # memory from elsewhere
        eng.report(ins, 'releases a %s which was not acquired here (or whose acquisition failed)' % kind)

    # ------------------------------------------------------------------ calls
    def call(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        name = sname
        if fn is not None and fn.lines is not None and name not in ACQUIRE and name not in RELEASE and eng.is_repo(fn, name):
            c = name.rsplit('::', 1)[0]
            if not self.own(name) and eng.p.cls(c) is not None:
                # a method of another class: that class is responsible for its own members; guards on the stack are followed
                q = eng.as_ptr(a[1 if getattr(fn, 'sret', False) and len(a) > 1 else 0]) if a else None
                if q is None or q[0][0] != 'a' or c not in self.guards:
                    self.passed(eng, st, ins, name, None, a, q)
                    fresh(eng, st, ins)
                    # (a method of a base class does not know the members of this class)
                    inner = [x for x in eng.reeval(eng.stack[-1][0], ins, st) if not self.base(eng, x[1])]
                    eng.havoc_args(st, inner, ins, name, None if len(inner) != len(args) else fn.name)
                    return [Outcome('ret', None if ins.ty == ('void',) else ('s', ('r', eng.cur_path, ins.idx)), st)]
        if name in USE:
            kind, n = USE[name]
            v = self.plain(eng, st, a[n])
            if self.find(eng, st, v, kind) is None:
                x = self.dead(st, v, kind)
                if not x and self.foreign(v) or not x and kind == 'descriptor' and self.is_null(eng, st, v, kind):
                    pass                                # fails with EBADF
                elif x:
                    eng.report(ins, '%s() uses a %s which was released at %s' % (name, x[1], x[2].split(' ')[0]))
                else:
                    eng.report(ins, '%s() is called although no %s is open on this path' % (name, kind))
        if name in ACQUIRE:
            return self.acquire(eng, st, ins, name, a, fn)
        if name in RELEASE:
            kind, n, null_ok = RELEASE[name]
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            self.release(eng, st, ins, a[n], kind, null_ok, name)
            return [Outcome('ret', None if ins.ty == ('void',) else ('s', ('r', eng.cur_path, ins.idx)), st)]
        r = self.str_call(eng, st, ins, sname, args)
        if r is not None:
            return r
        if name.startswith('llvm.'):
            return None
        if name not in USE:
            self.passed(eng, st, ins, name, fn, a)
        return None

    def base(self, eng, v):
        q = eng.as_ptr(v) if isinstance(v, tuple) else None
        return q is not None and q[0] == self.this and not isinstance(q[1], int)

    def store(self, eng, st, ins, ptr, val, size):
        """an element of an array member (C10 shows that it stays within the array)"""
        q = eng.as_ptr(ptr)
        if q is not None and q[0] == self.this and isinstance(q[1], tuple) and q[1][0] == 'so' and isinstance(q[1][2], int):
            ext = eng.extent(st, self.this, q[1][2])
            if ext is not None and ext[1] - ext[0] > 8:
                eng.havoc_range(st, self.this, ext[0], ext[1], ins)
                return True
        return None

    def foreign(self, v):
        """a handle which a helper function is given by its callers"""
        return self.cls is None and mentions_arg(v)

    def passed(self, eng, st, ins, name, fn, a, this=None):
        """a handle is given to a function which is not followed"""
        if fn is not None and fn.lines is not None and eng.want_inline(fn, name):
            return
        last = name.rsplit('::', 1)
        special = len(last) == 2 and (last[1].lstrip('~') == last[0].rsplit('::', 1)[-1] or re.sub(r'<.*', '', last[1]).lstrip('~') == re.sub(r'<.*', '', last[0].rsplit('::', 1)[-1]))
        for n, v in enumerate(a):
            if not isinstance(v, tuple):
                continue
            v = self.plain(eng, st, v)
            for x in st.mon[1]:
                if x[0] == v and v[0] in ('p', 's'):
                    eng.report(ins, 'passes a %s to %s which was released at %s' % (x[1], name, x[2].split(' ')[0]))
            if special and n == 0 or this is not None and eng.as_ptr(v) == this:
                continue
            h = self.find(eng, st, v)
            if h is not None and h[1] in HEAP and not h[3]:
                st.mon = (tuple(sorted([x for x in st.mon[0] if x is not h] + [h[:3] + (True,)], key=repr)), st.mon[1])

    def acquire(self, eng, st, ins, name, a, fn):
        kind, how, fail = ACQUIRE[name]
        fresh(eng, st, ins)
        a = again(eng, st, ins)
        ret = ('s', ('r', eng.cur_path, ins.idx))
        if how == 'ret':
            if kind in HEAP and not self.heap:
                return None
            ok = st.copy() if fail != 'never' else st
            if fail == 'fd':
                h = ('s', ('e', eng.cur_path, ins.idx))
                eng.assume_icmp(ok, 'sge', h, I(0), 32)
            else:
                obj = ('h', eng.cur_path, ins.idx)
                ok.mem[obj] = {}
                ok.ver[obj] = (eng.cur_path, ins.idx)
                h = ('p', obj, 0)
            if not self.opened(eng, ok, ins, h, kind):
                return []
            if fail == 'never':
                return [Outcome('ret', h, ok)]
            return [Outcome('ret', h, ok), Outcome('ret', MINUS1 if fail == 'fd' else NULL, st)]
        if how[0] in ('obj', 'init'):
            ok = st.copy() if how[0] == 'obj' else st
            if not self.opened(eng, ok, ins, self.plain(eng, ok, a[how[1]]), kind):
                return []
            out = [Outcome('ret', I(0), ok)]
            if how[0] == 'obj':
                q = eng.as_ptr(a[how[1]])
                if q:
                    for s in (ok, st):
                        eng.havoc_obj(s, q[0], ins)
                eng.assume_icmp(st, 'ne', ret, I(0), 32)
                out.append(Outcome('ret', ret, st))
            return out
        target = a[how[1]]
        out = []
        null_target = target == NULL
        for case in {'null': ('ok', 'null'), 'keep': ('ok', 'keep'), 'either': ('ok', 'handle', 'null'), 'error': ('fine', 'handle', 'null')}[fail]:
            s = st.copy()
            good = case in ('ok', 'fine')
            if not null_target:
                if case in ('ok', 'handle'):
                    obj = ('h', eng.cur_path, ins.idx)
                    s.mem[obj] = {}
                    s.ver[obj] = (eng.cur_path, ins.idx)
                    h = ('p', obj, 0)
                    if not self.opened(eng, s, ins, h, kind):
                        return []
                    eng.mstore(s, target, h, 8)
                elif case in ('null', 'fine'):
                    eng.mstore(s, target, NULL, 8)
            elif case == 'handle':
                continue
            if not good:
                eng.assume_icmp(s, 'ne', ret, I(0), 32)
            out.append(Outcome('ret', I(0) if good else ret, s))
        return out

    def vcall(self, eng, st, ins, vn, args, targets):
        a = [v for t, v in args]
        v = self.plain(eng, st, a[0]) if a else None
        if vn and re.search(r'~', str(vn)):
            h = self.find(eng, st, v)
            dead = [x for x in st.mon[1] if x[0] == v]
            if dead:
                eng.report(ins, 'deletes an object again which was deleted at %s' % dead[0][2])
            elif h is not None:
                st.mon = (tuple(x for x in st.mon[0] if x is not h), tuple(sorted(st.mon[1] + ((h[0], h[1], eng.p.where(ins)),), key=repr)))
            fresh(eng, st, ins)
            return [Outcome('ret', None, st)]
        self.passed(eng, st, ins, 'a virtual function', None, a[1:])
        return quiet(eng, st, ins)


# ---------------------------------------------------------------------- drivers
def relevant_functions(p, names):
    """Functions of the repository from which one of the given functions can be reached through direct calls."""
    fs = {f.name: f for f in p.iter_funcs() if p.in_repo(f)}
    rel = set()
    hit = lambda n: bare(p, n) in names or n in rel
    change = True
    while change:
        change = False
        for n, f in fs.items():
            if n not in rel and any(hit(c) for c in callees(p, f)):
                rel.add(n)
                change = True
    out = Names(rel)
    out.classes = set(p.sname(n).rsplit('::', 1)[0] for n in rel)
    return out


def is_old(v):
    return isinstance(v, tuple) and (len(v) > 0 and v[0] in ('old', 'oldobj') or any(is_old(x) for x in v))


def mentions_arg(v):
    return isinstance(v, tuple) and (len(v) == 2 and v[0] == 'arg' and isinstance(v[1], int) or any(mentions_arg(x) for x in v))


class Names(set):
    classes = ()


def valid(e, mon):
    """the facts that the handles are valid"""
    st = State()
    for h in mon:
        if h[1] == 'descriptor':
            e.assume_icmp(st, 'sge', h[0], I(0), 32)
        elif h[1] not in INIT:
            e.assume_icmp(st, 'ne', h[0], NULL, 64)
    return st.facts


class ClassState:
    """Abstract states of the members between two calls"""

    def __init__(self, ctx, p, cls, relevant, rule):
        self.ctx, self.p, self.cls, self.rule = ctx, p, cls, rule
        self.relevant = relevant
        c = p.cls(cls)
        self.members = [m for m in p.flat_members(c)]
        # a slot is (offset in *this, None) or (offset of a member which holds an object, offset in that object)
        self.name = {(m[1], None): m[0].rsplit('::', 1)[-1] for m in self.members if m[2] <= 8}
        self.size = {(m[1], None): m[2] for m in self.members}
        self.bools = [(m[1], None) for m in self.members if m[3] in ('bool', '_Bool')]
        self.handles = {}           # slot -> kind
        self.this = ('this', cls)

    def value(self, off, v):
        """The preset value of a member"""
        if v == 'null':
            return NULL if self.handles.get(off) != 'descriptor' else MINUS1
        if v.startswith('open'):
            return self.symbol(off)
        return None

    def symbol(self, slot):
        return ('s', ('H', self.cls) + slot)

    def run(self, f, state, what):
        """-> set of abstract states at the end"""
        p = self.p
        r = HandleRule(self.cls, self.this, self.relevant)
        e = r.eng = Engine(p, r)
        mem, mon = {self.this: {}}, []
        if state is not None:
            for off, v in state[0]:
                val = self.value(off, v)
                if val is not None:
                    obj = self.this if off[1] is None else ('o', self.symbol((off[0], None)))
                    mem.setdefault(obj, {})[off[0] if off[1] is None else off[1]] = (val, self.size[off])
                where = 'member %s' % self.name[off]
                for kind in v.split('+')[1:]:
                    mon.append((('own', kind, val if 'open' in v else ('p', self.this, off[0])), kind, where, False))
                if v.startswith('open'):
                    mon.append((val, self.handles[off], where, False))
            for off, v in state[1]:
                if v is not None:
                    mem[self.this][off[0]] = (I(1 if v else 0), 1)
        facts = valid(e, mon)
        args = special_args(e, f, self.cls, self.this)
        outs = e.explore(f, args, (tuple(sorted(mon, key=repr)), ()), mem=mem, facts=facts)
        res = set()
        for o in outs:
            if o.kind == 'ret':
                res.add(self.leave(e, f, o, what))
        self.ctx.take(e, self.rule)
        self.ctx.ok(self.rule, '%s: %s%s' % (p.fwhere(f), p.sname(f.name), '' if state is None else ' from ' + self.text(state)))
        return res

    def text(self, state):
        return ', '.join(['%s %s' % (self.name[o], v) for o, v in state[0]] + ['%s %s' % (self.name[o], 'true' if v else 'false') for o, v in state[1] if v is not None]) or 'any state'

    def leave(self, e, f, o, what):
        p, st = self.p, o.st
        fn = p.sname(f.name)
        bad = lambda msg, key: self.ctx.violation(self.rule, p.fwhere(f), fn, msg, [], key='%s:%s' % (fn, key))
        cells = {(off, None): c[0] for off, c in st.mem.get(self.this, {}).items() if (off, None) in self.name and isinstance(c, tuple)}
        for slot, v in sorted(cells.items()):
            q = e.as_ptr(v)
            if q and q[1] == 0 and q[0] != self.this and any(h[0] == v and h[1] in HEAP for h in st.mon[0]):
                for i, c in st.mem.get(q[0], {}).items():
                    if isinstance(c, tuple) and isinstance(i, int) and c[1] <= 8:
                        x = (slot[0], i)
                        cells[x] = c[0]
                        self.name[x] = '%s->[%d]' % (self.name[slot], i)
                        self.size[x] = c[1]
        hs, held = {}, {}
        last = what == 'destructor'
        for off, v in sorted(cells.items(), key=repr):
            for h in st.mon[0]:
                if h[0] == v and not last:
                    held.setdefault(v, []).append(off)
                    hs[off] = 'open'
                    self.handles.setdefault(off, h[1])
            for h in st.mon[1]:
                if h[0] == v and not last:
                    bad('leaves the released %s in %s (released at %s)' % (h[1], self.name[off], h[2]), 'keeps:' + self.name[off])
        for h in sorted(st.mon[0], key=repr):
            if h[0] in held:
                if len(held[h[0]]) > 1:
                    bad('keeps the same %s in two members' % h[1], 'twice')
                continue
            if h[1] in INIT and not last:
                q = h[0][2]
                if q[0] == 'p' and q[1] == self.this and isinstance(q[2], int) and (q[2], None) in self.name:
                    hs[q[2], None] = 'here' + '+' + h[1]
                    self.handles.setdefault((q[2], None), h[1])
                    continue
                for v in held:
                    if q == v:
                        hs[held[v][0]] += '+' + h[1]
                        break
                else:
                    q = None
                if q:
                    continue
            if h[3] or o.ret == h[0] or h[1] in HEAP and self.escapes(st, h[0]):
                continue
            m = h[2].startswith('member')
            bad(('never releases the %s acquired at %s' if not m else 'does not release the %s in %s' if last else 'loses the %s in %s') % (h[1], h[2]),
                'leak:%s:%s' % (h[1], h[2] if m else ''))
        for off in self.handles:
            if off not in hs:
                c = cells.get(off)
                null = c is not None and (c == NULL or self.handles[off] == 'descriptor' and e.decide_icmp(st, 'slt', c, I(0), 32) is True)
                hs[off] = 'null' if null else 'unknown'
        bs = tuple((off, truth_of(e, st, cells[off]) if off in cells else None) for off in self.bools)
        return (tuple(sorted(hs.items(), key=repr)), bs)

    def escapes(self, st, v):
        for o, d in st.mem.items():
            if o[0] in ('a', 'oldobj') or o == self.this:
                continue
            for c in d.values():
                if isinstance(c, tuple) and mentions(c[0], v):
                    return True
        return False

    def entries(self):
        """constructors, methods which are called from outside, destructors"""
        p = self.p
        ctors, dtors = p.special(self.cls, 'C'), p.special(self.cls, 'D')
        methods = []
        for m in p.cls(self.cls).methods:
            f = p.funcs.get(m.get('linkageName') or '')
            if f is None or f.lines is None or m['name'].startswith('~') or m['name'] == self.cls.rsplit('::', 1)[-1]:
                continue
            fl = m.get('flags', '') + ' ' + m.get('spFlags', '')
            if ('DIFlagPublic' in fl or 'Virtual' in fl or 'DIFlagProtected' in fl) and 'StaticMember' not in fl:
                methods.append(f)
        return ctors, methods, dtors

    def run_all(self):
        ctors, methods, dtors = self.entries()
        if not ctors:
            raise Broken('no constructor of %s was found' % self.cls)
        base = len(self.ctx.findings)
        while True:
            n = len(self.handles)
            del self.ctx.findings[base:]
            states = set()
            for f in ctors:
                states |= self.run(f, None, 'constructor')
            work = sorted(states, key=repr)
            while work and n == len(self.handles):
                s = work.pop()
                for f in methods:
                    for t in sorted(self.run(f, s, 'method'), key=repr):
                        if t not in states:
                            states.add(t)
                            work.append(t)
                    if n != len(self.handles):
                        break
                if len(states) > 60:
                    raise Broken('too many states of %s' % self.cls)
            if n == len(self.handles):
                break
        for s in sorted(states, key=repr):
            if not dtors and any(v.startswith(('open', 'here')) for o, v in s[0]):
                self.ctx.violation(self.rule, '%s' % p_where(self.p, self.cls), self.cls, 'has no destructor which releases its members', [])
            for f in dtors:
                self.run(f, s, 'destructor')
        return states


def p_where(p, cls):
    c = p.cls(cls)
    return '%s:%s' % (c.file, c.line)


def r01(ctx):
    from .bounds import ALL
    p = ctx.load(ALL, ['templates'])
    ctx.assumptions += ['C++ exceptions are not followed', 'a pointer to a member is not kept by the functions which it is passed to']
    names = set(SYSTEM) | set(k for k in RELEASE if RELEASE[k][0] not in HEAP)
    rel = relevant_functions(p, names)
    ctx.rule('classes', 'what a class acquires is held by exactly one member from then on, used only while it is open, and released by the destructor')
    ctx.rule('functions', 'what a function acquires is released on every path through it, once, and not used afterwards')
    # (classes which only release something are guards: they are followed where they are used)
    acquirers = relevant_functions(p, SYSTEM).classes
    classes = {}
    plain = []
    for f in p.iter_funcs():
        if f.name not in rel or not p.in_repo(f) or not any(bare(p, c) in names for c in callees(p, f)):
            continue
        s = p.sname(f.name).rsplit('::', 1)[0]
        if s == 'icl_core::plugin::PluginManager':
            continue                            # the libraries of the plugins: P01
        if p.cls(s) is not None:
            if s in acquirers:
                classes.setdefault(s, []).append(f)
        else:
            plain.append(f)
    owners = {}
    heap = ('operator new', 'operator delete', 'operator new[]', 'operator delete[]', 'malloc', 'calloc', 'strdup', 'free')
    for f in p.iter_funcs():
        s = p.sname(f.name).rsplit('::', 1)[0]
        if s not in classes and p.in_repo(f) and p.cls(s) is not None and any(bare(p, c) in heap for c in callees(p, f)) and \
                any('*' in m[3] for m in p.flat_members(p.cls(s))) and p.special(s, 'C'):
            owners.setdefault(s, []).append(f)
    for c in sorted(owners):
        # only constructors and destructors can tell whether the class owns an object
        n = len(ctx.findings)
        k = ClassState(ctx, p, c, rel, 'owners')
        if DEBUG:
            print('?', c, flush=True)
        for f in k.entries()[0]:
            k.run(f, None, 'constructor')
        del ctx.findings[n:]
        if k.handles:
            classes[c] = owners[c]
    for c in sorted(classes):
        if '<' in p.fullname(classes[c][0].name).split('(')[0] or c.endswith('PluginManager'):
            continue
        if DEBUG:
            print('..', c, flush=True)
        k = ClassState(ctx, p, c, rel, 'classes')
        st = k.run_all()
        if DEBUG:
            print(c, k.handles, [k.text(x) for x in st])
    for f in plain:
        r = HandleRule(None, ('none',), rel)
        e = r.eng = Engine(p, r)
        for o in e.explore(f, e.default_args(f), ((), ())):
            for h in o.st.mon[0] if o.kind == 'ret' else ():
                if not h[3] and o.ret != h[0]:
                    ctx.violation('functions', p.fwhere(f), p.sname(f.name), 'never releases the %s acquired at %s' % (h[1], h[2]), [])
        ctx.take(e, 'functions')
        ctx.ok('functions', '%s: %s' % (p.fwhere(f), p.sname(f.name)))
    ctx.need('functions', 1)
    ctx.need('classes', 20)
