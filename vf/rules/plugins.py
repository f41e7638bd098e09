"""P01: the plugin manager.
One arbitrary identifier K is followed through the maps of the manager; all other identifiers are treated alike. Every function starts in every state which
the invariant allows and has to end in such a state."""
import re
from ..absint import Engine, Outcome, I, NULL
from .common import *
from .strings import *
from .config import quiet, truth_of
from .logs import fresh
from .resources import again
from ..core import Broken

MANAGER = 'icl_core::plugin::PluginManager'
K, OTHER = ('s', ('K',)), ('s', ('another identifier',))


def ptr(n):
    return ('p', ('h', 0, n), 0)


HANDLES = {'h1': ptr(-11), 'h2': ptr(-12)}                     # libraries which were opened
INSTANCES = {'p1': ptr(-21), 'p2': ptr(-22), 'p3': ptr(-23)}    # instances which a library of K created
STATICS = {'s1': ptr(-31), 's2': ptr(-32)}                      # plugins which belong to the user
OTHERS = {'handle': ptr(-41), 'loaded': ptr(-42), 'static': ptr(-43)}
VALUES = dict(HANDLES, **dict(INSTANCES, **STATICS))
NAMES = {v: k for k, v in VALUES.items()}
MAPS = ('handle', 'loaded', 'static')
# the entry of K in the maps: 'none', 'null' or the value; open libraries; living instances; loops; what is known
START = {'handle': 'none', 'loaded': 'none', 'static': 'none', 'open': frozenset(), 'alive': frozenset(), 'loops': (), 'error': False, 'of': (), 'ident': None,
         'listed': (), 'failed': False, 'opened': False, 'nonempty': frozenset()}
FIELDS = sorted(START)


class PluginRule(StrModel):
    """st.mon = values of FIELDS"""
    join_limit = 3
    split_bools = True
    max_depth = 12
    max_steps = 600000
    recursion = 1

    def __init__(self, cls, this, offsets, flags):
        self.cls, self.this, self.flags = cls, this, flags
        self.maps = {o: n for n, o in offsets.items()}

    def get(self, st, n):
        return st.mon[FIELDS.index(n)]

    def set(self, st, **kw):
        m = list(st.mon)
        for k, v in kw.items():
            m[FIELDS.index(k)] = v
        st.mon = tuple(m)

    def part(self, eng, st):
        return tuple(truth_of(eng, st, eng.mload(st, ('p', self.this, o), 1, None)) for o in self.flags)

    def class_of(self, obj):
        return self.cls if obj == self.this else None

    def keep(self, obj, off):
        return obj == self.this or obj[0] == 'h' and obj[1] == 0 or obj[0] == 'o'

    def pure_repo(self, sname):
        return True

    def inline(self, eng, fn, sname):
        return sname.startswith(MANAGER + '::') or not sname.startswith('icl_core::') and eng.is_repo(fn, sname)

    # -- maps
    def map_of(self, eng, v):
        q = eng.as_ptr(v)
        return self.maps.get(q[1]) if q is not None and q[0] == self.this else None

    def entry(self, m, k):
        return ('o', ('s', ('entry', m, k)))

    def entry_of(self, q):
        if q is not None and q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'entry':
            return q[0][1][1][1:]
        return None

    def load(self, eng, st, ins, p, size):
        q = eng.as_ptr(p)
        e = self.entry_of(q)
        if e is None:
            return None
        m, k = e
        if q[1] == 0:
            if k == 'K' and self.get(st, m) == 'none':
                eng.report(ins, 'uses the identifier of an entry which was removed')
            return K if k == 'K' else OTHER
        if q[1] == 32:
            if k != 'K':
                return OTHERS[m]
            v = self.get(st, m)
            if v == 'none':
                eng.report(ins, 'uses an entry which was removed')
                return NULL
            return NULL if v == 'null' else VALUES[v]
        return None

    def store(self, eng, st, ins, p, val, size):
        q = eng.as_ptr(p)
        e = self.entry_of(q)
        if e is None or q[1] != 32:
            return None
        m, k = e
        val = eng.norm(st, val)
        n = NAMES.get(val)
        if m == 'handle' and n in HANDLES:
            of = dict(self.get(st, 'of'))
            if of.get(n) != (k, True):
                eng.report(ins, 'a library is registered %s' % ('under the identifier of another one' if of.get(n, (k, 0))[0] != k else 'although its base type was not compared or does not match'))
        if k != 'K':
            if m == 'handle' and n in HANDLES:
                # from here on it is one of the others
                self.set(st, open=self.get(st, 'open') - {n}, of=tuple(x for x in self.get(st, 'of') if x[0] != n))
            elif n in INSTANCES:
                eng.report(ins, 'an instance is filed under the identifier of another library')
            return True
        if val == NULL:
            n = 'null'
        elif n is None:
            n = 'null'
            if m == 'static' or val not in OTHERS.values():
                eng.report(ins, 'stores something which is not %s' % ('a library' if m == 'handle' else 'a plugin'))
            else:
                eng.report(ins, 'stores what belongs to another identifier')
        self.set(st, **{m: n})
        return True

    def content(self, eng, st, p, ins):
        v = self.load(eng, st, ins, p, 8) if self.entry_of(eng.as_ptr(p)) else None
        return v if v is not None else StrModel.content(self, eng, st, p, ins)

    def key(self, eng, st, p, ins):
        """outcomes: the identifier is K or another one"""
        c = self.content(eng, st, p, ins)
        return 'K' if c == K else 'other'

    # -- loops
    def loop(self, st, m):
        return dict(self.get(st, 'loops')).get(m, ('unk', False))

    def setloop(self, st, m, v):
        d = dict(self.get(st, 'loops'))
        d[m] = v
        self.set(st, loops=tuple(sorted(d.items())))

    def it(self, m, pos):
        return ('s', ('it', m, pos))

    def pos(self, eng, st, v, ins):
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'it':
            return v[1][1:]
        if v[0] == 'p':
            w = eng.mload(st, v, 8, ins)
            if w[0] == 's' and isinstance(w[1], tuple) and w[1][0] == 'it':
                return w[1][1:]
        return None

    def step(self, eng, st, m, end=True):
        """where can an iterator be: [(position, state)]"""
        pos, seen = self.loop(st, m)
        if pos != 'unk':
            return [(pos, st)]
        out = []
        there = self.get(st, m) != 'none' and not seen
        if end and not there and m not in self.get(st, 'nonempty'):
            x = st.copy()
            self.setloop(x, m, ('end', seen))
            out.append(('end', x))
        if there:
            x = st.copy()
            self.setloop(x, m, ('K', True))
            out.append(('K', x))
        x = st.copy()
        self.setloop(x, m, ('other', seen))
        out.append(('other', x))
        return out

    # -- calls
    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        for f in (self.map_call, self.pair_call, self.library_call):
            r = f(eng, st, ins, base, a)
            if r is not None:
                return r
        if base == '__assert_fail':
            eng.report(ins, 'the condition of an assertion does not hold')
            return []
        r = self.str_call(eng, st, ins, sname, args)
        if r is not None:
            return self.base_type(eng, r)
        if sname == '<indirect>':
            return self.indirect(eng, st, ins, a)
        if base in ('operator delete', 'operator new', '__clang_call_terminate', '__cxa_begin_catch', '__cxa_end_catch'):
            return quiet(eng, st, ins)
        if fn is not None and fn.lines is not None and self.inline(eng, fn, sname):
            return None
        return quiet(eng, st, ins)

    def base_type(self, eng, outs):
        """Comparing the base type of a library as text: both results, noted for the library"""
        res = []
        for o in outs:
            v = o.ret
            n = eng.bnot(v) if v is not None and v[0] == 'x' else None
            y = v if v is not None and v[0] == 's' else n if n is not None and n[0] == 's' else None
            h = [x[1][1] for x in y[1][1:3] if isinstance(x, tuple) and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'basetype'] \
                if y is not None and isinstance(y[1], tuple) and y[1][0] in ('streq', 'scmp') else []
            if len(h) != 1:
                res.append(o)
                continue
            for t in (True, False):
                s = o.st.copy()
                self.same_type(s, h[0], t)
                res.append(Outcome('ret', (I(int(t)) if y is v else I(int(not t))) if y[1][0] == 'streq' else I(int(not t)), s))
        return res

    def same_type(self, st, h, t):
        of = dict(self.get(st, 'of'))
        if h is not None:
            of[h] = (of.get(h, (None, None))[0], t)
            self.set(st, of=tuple(sorted(of.items())))

    def map_call(self, eng, st, ins, base, a):
        m = re.match(r'std::map::(~?[\w]+(?:\[\]|=)?)$', base)
        if m and a:
            name, mp = m.group(1), self.map_of(eng, a[0])
            if mp is None:
                return None
            if name in ('begin', 'cbegin'):
                fresh(eng, st, ins)
                self.setloop(st, mp, ('unk', False))
                return [Outcome('ret', self.it(mp, 'cur'), st)]
            if name in ('end', 'cend'):
                return [Outcome('ret', self.it(mp, 'end'), st)]
            if name in ('empty', 'size'):
                out = []
                if self.get(st, mp) == 'none' and mp not in self.get(st, 'nonempty'):
                    out.append(Outcome('ret', I(int(name == 'empty')), st.copy()))
                self.set(st, nonempty=self.get(st, 'nonempty') | {mp})
                if name == 'empty':
                    return out + [Outcome('ret', I(0), st)]
                fresh(eng, st, ins)
                n = ('s', ('r', eng.cur_path, ins.idx))
                eng.assume_icmp(st, 'ne', n, I(0), 64)
                eng.assume_icmp(st, 'ugt', n, I(0), 64)
                return out + [Outcome('ret', n, st)]
            if name in ('find', 'count', 'lower_bound'):
                k = self.key(eng, st, a[1], ins)
                if k == 'K':
                    t = [self.get(st, mp) != 'none']
                else:
                    t = [True, False]
                return [Outcome('ret', (I(int(x)) if name == 'count' else self.it(mp, ('key', k) if x else 'end')), st.copy()) for x in t]
            if name in ('operator[]', 'at'):
                k = self.key(eng, st, a[1], ins)
                if k == 'K' and self.get(st, mp) == 'none':
                    self.set(st, **{mp: 'null'})
                return [Outcome('ret', ('p', self.entry(mp, k), 32), st)]
            if name == 'erase':
                q = self.pos(eng, st, a[1], ins)
                out = []
                if q is not None and q[0] == mp:
                    for p_, s in (self.step(eng, st, mp) if q[1] == 'cur' else [(q[1][1] if isinstance(q[1], tuple) else 'end', st)]):
                        if p_ == 'end':
                            eng.report(ins, 'removes an entry which does not exist')
                            continue
                        if q[1] == 'cur':
                            self.setloop(s, mp, ('unk', self.loop(s, mp)[1]))
                        if p_ == 'K':
                            self.set(s, **{mp: 'none'})
                        self.set(s, nonempty=self.get(s, 'nonempty') - {mp})
                        out.append(Outcome('ret', self.it(mp, 'cur'), s))
                    return out
                if self.key(eng, st, a[1], ins) == 'K':
                    self.set(st, **{mp: 'none'})
                self.set(st, nonempty=self.get(st, 'nonempty') - {mp})
                return quiet(eng, st, ins)
            if name == 'clear':
                self.set(st, **{mp: 'none'})
                return quiet(eng, st, ins)
            if name in ('insert', 'emplace') and 2 <= len(a) <= 3:
                # a pair, or an identifier and a value
                q = eng.as_ptr(a[1])
                if self.get_pair(eng, st, a[1], ins) is None and len(a) == 2:
                    raise Broken('what is inserted into a map of the plugin manager is not known')
                c, v = self.get_pair(eng, st, a[1], ins) if len(a) == 2 else (self.text_of(eng, st, a[1], ins), eng.mload(st, a[2], 8, ins))
                out = []
                # (what happens to a second entry for the same identifier is decided for K, which is any)
                for t in ([self.get(st, mp) == 'none'] if c == K else [True]):
                    s = st.copy()
                    if t:
                        self.store(eng, s, ins, ('p', self.entry(mp, 'K' if c == K else 'other'), 32), v, 8)
                    out.append(Outcome('ret', ('agg', (self.it(mp, ('key', 'K' if c == K else 'other')), I(int(t)))), s))
                return out
            if name in ('insert_or_assign', 'swap', 'operator=', 'try_emplace', 'emplace_hint', 'insert', 'emplace'):
                raise Broken('std::map::%s on the maps of the plugin manager is not known to the analysis' % name)
            return quiet(eng, st, ins)
        m = re.match(r'std::(?:_Rb_tree_(?:const_)?iterator)::(.*)$', base)
        if m and a:
            name = m.group(1)
            if name.startswith('_Rb_tree'):
                q = self.pos(eng, st, a[1], ins) if len(a) == 2 else None
                if q is not None:
                    eng.mstore(st, a[0], self.it(*q), 8)
                    return [Outcome('ret', None, st)]
                return quiet(eng, st, ins)
            q = self.pos(eng, st, a[0], ins)
            if q is None:
                return None
            if name in ('operator*', 'operator->'):
                out = []
                for p_, s in (self.step(eng, st, q[0]) if q[1] == 'cur' else [(q[1][1] if isinstance(q[1], tuple) else 'end', st)]):
                    if p_ == 'end':
                        eng.report(ins, 'an iterator which may be at the end is dereferenced')
                        continue
                    out.append(Outcome('ret', ('p', self.entry(q[0], p_), 0), s))
                return out
            if name == 'operator++':
                out = []
                for p_, s in self.step(eng, st, q[0]):
                    if p_ == 'end':
                        continue
                    self.setloop(s, q[0], ('unk', self.loop(s, q[0])[1]))
                    if len(a) == 2:
                        out.append(Outcome('ret', self.it(q[0], ('key', p_)), s))
                    else:
                        out.append(Outcome('ret', a[0], s))
                return out
            if name in ('operator==', 'operator!='):
                return self.compare(eng, st, ins, name.endswith('=='), a)
            return None
        if base in ('std::operator==', 'std::operator!=') and len(a) == 2:
            return self.compare(eng, st, ins, base.endswith('=='), a)
        m = re.match(r'std::(?:__cxx11::)?list::(push_back|emplace_back|push_front)$', base)
        if m and len(a) == 2:
            q = eng.as_ptr(a[1])
            e = self.entry_of(q)
            what = None
            if e is not None and q[1] == 0:
                what = ('identifier', e[0], e[1])
            else:
                v = self.load(eng, st, ins, a[1], 8)
                v = eng.norm(st, eng.mload(st, a[1], 8, ins) if v is None else v)
                if v == NULL:
                    eng.report(ins, 'a plugin which does not exist is listed')
                elif v in NAMES:
                    what = ('value', NAMES[v])
                elif v == K:
                    what = ('identifier', '?', 'K')
            if what is not None and what[-1] != 'other':
                d = dict(self.get(st, 'listed'))
                d[what] = min(d.get(what, 0) + 1, 2)
                self.set(st, listed=tuple(sorted(d.items())))
            return quiet(eng, st, ins)
        return None

    def text_of(self, eng, st, v, ins):
        w = self.chars(eng, st, v)
        return w if w in (K, OTHER) else self.content(eng, st, v, ins)

    def get_pair(self, eng, st, v, ins):
        q = eng.as_ptr(v)
        if q is None or q[1] != 0 or 32 not in st.mem.get(q[0], {}):
            return None
        return self.content(eng, st, v, ins), eng.mload(st, ('p', q[0], 32), 8, ins)

    def pair_call(self, eng, st, ins, base, a):
        if base == 'std::get' and len(a) == 1 and eng.as_ptr(a[0]) is not None:
            m = re.search(r'std::get<(\d)u?l?, ', eng.p.full.get(eng.cur_name, ''))
            q = eng.as_ptr(a[0])
            if m and isinstance(q[1], int) and self.entry_of((q[0], 0)) is not None:
                return [Outcome('ret', ('p', q[0], q[1] + 32 * int(m.group(1))), st)]
            return None
        if base in ('std::make_pair', 'std::pair::pair') and len(a) in (2, 3):
            q = eng.as_ptr(a[0])
            if q is None or not isinstance(q[1], int):
                return None
            if len(a) == 3:
                c, v = self.text_of(eng, st, a[1], ins), eng.mload(st, a[2], 8, ins)
            else:
                r = self.get_pair(eng, st, a[1], ins)
                if r is None:
                    return None
                c, v = r
            self.setc(eng, st, a[0], c)
            eng.mstore(st, ('p', q[0], q[1] + 32), v, 8)
            return [Outcome('ret', None, st)]
        return None

    def compare(self, eng, st, ins, eq, a):
        qa, qb = (self.pos(eng, st, v, ins) for v in a)
        if qa is None or qb is None or qa[0] != qb[0]:
            return None
        if qa[1] == qb[1]:
            return [Outcome('ret', I(int(eq)), st)]
        if 'end' not in (qa[1], qb[1]):
            return None
        o = qa[1] if qb[1] == 'end' else qb[1]
        if o != 'cur':
            return [Outcome('ret', I(int(not eq)), st)]
        return [Outcome('ret', I(int((p_ == 'end') == eq)), s) for p_, s in self.step(eng, st, qa[0])]

    def library_call(self, eng, st, ins, base, a):
        if base == 'dlopen':
            fresh(eng, st, ins)
            bad = st.copy()
            self.set(bad, error=True)
            free = [n for n in sorted(HANDLES) if n not in self.get(st, 'open') and self.get(st, 'handle') != n]
            if not free:
                eng.report(ins, 'a library which was opened before is neither registered nor closed')
                return []
            self.set(st, open=self.get(st, 'open') | {free[0]}, opened=True, of=tuple(x for x in self.get(st, 'of') if x[0] != free[0]))
            return [Outcome('ret', HANDLES[free[0]], st), Outcome('ret', NULL, bad)]
        if base == 'dlsym':
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            h, name = eng.norm(st, a[0]), cstring(eng.p, a[1])
            n = NAMES.get(h)
            if h == NULL or (n in HANDLES and n not in self.get(st, 'open')):
                eng.report(ins, 'looks for a symbol in a library which is not open')
                return []
            if n not in HANDLES and h != OTHERS['handle']:
                t = eng.decide_icmp(st, 'ne', h, NULL, 64)
                if t is not True:
                    eng.report(ins, 'looks for a symbol in a library which may not be open')
                    return []
            bad = st.copy()
            self.set(bad, error=True)
            if name == 'load_plugin':
                self.set(bad, failed=True)
            f = ('p', ('o', ('s', ('function', name, n))), 0)
            eng.assume_icmp(st, 'ne', f, NULL, 64)
            return [Outcome('ret', f, st), Outcome('ret', NULL, bad)]
        if base == 'dlerror':
            fresh(eng, st, ins)
            e = self.get(st, 'error')
            self.set(st, error=False)
            return [Outcome('ret', ptr(-51) if e else NULL, st)]
        if base == 'dlclose':
            h = eng.norm(st, a[0])
            n = NAMES.get(h)
            if h == NULL:
                eng.report(ins, 'closes a library which was not opened')
            elif n in HANDLES:
                if n not in self.get(st, 'open'):
                    eng.report(ins, 'closes a library a second time')
                # (the instance of K needs its code)
                if n == self.get(st, 'handle') and any(self.get(st, 'loaded') == i and i in self.get(st, 'alive') for i in INSTANCES):
                    eng.report(ins, 'closes a library while its plugin still exists')
                self.set(st, open=self.get(st, 'open') - {n})
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx)), st)]
        if base in ('strcmp', 'std::strcmp') and len(a) == 2:
            v = [eng.norm(st, x) for x in a]
            b = [x[1][1][1] for x in v if x[0] == 'p' and x[1][0] == 'o' and x[1][1][0] == 's' and isinstance(x[1][1][1], tuple) and x[1][1][1][0] == 'text of']
            if len(b) == 1 and b[0][1] == 'basetype':
                fresh(eng, st, ins)
                out = []
                for t in (True, False):
                    s = st.copy()
                    of = dict(self.get(s, 'of'))
                    if b[0][2] is not None:
                        k = of.get(b[0][2], (None, None))[0]
                        of[b[0][2]] = (k, t)
                        self.set(s, of=tuple(sorted(of.items())))
                    out.append(Outcome('ret', I(0) if t else I(1), s))
                return out
        if base in ('std::operator==', 'std::operator!='):
            return None
        return None

    def chars(self, eng, st, v):
        v = eng.norm(st, v)
        if v[0] == 'p' and v[1][0] == 'o' and v[1][1][0] == 's' and isinstance(v[1][1][1], tuple) and v[1][1][1][0] == 'text of':
            w = v[1][1][1]
            if w[1] == 'identifier':
                return K if len(w) > 3 and w[3] == 'K' else OTHER
            return ('s', ('basetype', w[2]))
        return super().chars(eng, st, v)

    def indirect(self, eng, st, ins, a):
        f = eng.norm(st, eng.val(st, ins.x['callee'], None))
        q = eng.as_ptr(f)
        if f == NULL:
            eng.report(ins, 'calls a function which was not found in the library')
            return []
        if q is None or q[0][0] != 'o' or q[0][1][0] != 's' or not isinstance(q[0][1][1], tuple) or q[0][1][1][0] != 'function':
            return quiet(eng, st, ins)
        name, h = q[0][1][1][1:]
        if h in HANDLES and h not in self.get(st, 'open'):
            eng.report(ins, 'calls a function of a library which was closed')
        if name in ('identifier', 'basetype'):
            fresh(eng, st, ins)
            if name == 'basetype' or h is None:
                return [Outcome('ret', ('p', ('o', ('s', ('text of', name, h))), 0), st)]
            out = []
            of = dict(self.get(st, 'of'))
            k0, t0 = of.get(h, (None, None))
            for k in ('K', 'other') if k0 is None else (k0,):
                s = st.copy()
                of[h] = (k, t0)
                self.set(s, of=tuple(sorted(of.items())))
                out.append(Outcome('ret', ('p', ('o', ('s', ('text of', name, h, k))), 0), s))
            return out
        if name == 'load_plugin':
            fresh(eng, st, ins)
            bad = st.copy()
            self.set(bad, failed=True)
            if h is None:
                return [Outcome('ret', OTHERS['loaded'], st), Outcome('ret', NULL, bad)]
            free = [n for n in sorted(INSTANCES) if n not in self.get(st, 'alive') and self.get(st, 'loaded') != n]
            if not free:
                eng.report(ins, 'an instance of a plugin gets lost')
                return []
            self.set(st, alive=self.get(st, 'alive') | {free[0]})
            return [Outcome('ret', INSTANCES[free[0]], st), Outcome('ret', NULL, bad)]
        return quiet(eng, st, ins)

    def vcall(self, eng, st, ins, vn, args, targets):
        a = [v for t, v in args]
        this = next((eng.norm(st, v) for v in a if eng.norm(st, v) in NAMES), None)
        n = NAMES.get(this)
        if '~' in str(vn):
            if n in INSTANCES:
                if n not in self.get(st, 'alive'):
                    eng.report(ins, 'deletes a plugin a second time')
                elif self.get(st, 'loaded') == n and self.get(st, 'handle') not in self.get(st, 'open'):
                    eng.report(ins, 'deletes a plugin after its library was closed')
                self.set(st, alive=self.get(st, 'alive') - {n})
            elif n in STATICS:
                eng.report(ins, 'deletes a plugin which belongs to the user')
            elif any(eng.norm(st, v) == OTHERS['static'] for v in a):
                eng.report(ins, 'deletes a plugin which belongs to the user')
            return quiet(eng, st, ins)
        if 'Identifier' in str(vn):
            fresh(eng, st, ins)
            a = [eng.norm(st, v) for v in again(eng, st, ins)]
            if n in INSTANCES and n not in self.get(st, 'alive'):
                eng.report(ins, 'uses a plugin which was deleted')
            out = []
            # the first argument is the result
            for k in (('K', 'other') if n in STATICS and self.get(st, 'ident') is None else (self.get(st, 'ident') if n in STATICS else 'K' if n in INSTANCES else 'other',)):
                s = st.copy()
                if n in STATICS:
                    self.set(s, ident=k)
                self.setc(eng, s, a[0], K if k == 'K' else OTHER)
                out.append(Outcome('ret', None, s))
            return out
        return quiet(eng, st, ins)


PUBLIC = ('initialize', 'availablePlugins', 'plugins', 'plugin', 'createPluginInstance', 'addStaticPlugin', 'removeStaticPlugin', 'isStaticPlugin')
PROTECTED = ('initializePlugins', 'loadHandle', 'loadPlugins', 'unloadPlugin', 'closePluginHandle')


def p01(ctx):
    p = ctx.load([], ['templates'])
    ctx.assumptions += ['dlopen(), dlsym(), dlclose() and dlerror() do what their manual says', 'the functions of a plugin are those which its macro defines']
    ctx.rule('plugin', 'for every identifier: its library is open exactly while it is registered, its instance lives exactly while it is listed, and lookups tell just that')
    fs = {}
    for f in p.iter_funcs():
        m = re.match(re.escape(MANAGER) + r'::(~?\w+)$', p.sname(f.name))
        if m:
            fs.setdefault(m.group(1), []).append(f)
    for n in PUBLIC + ('~PluginManager',):
        if n not in fs:
            raise Broken('anchor vanished: PluginManager::%s()' % n)
    f0 = fs['plugin'][0]
    cls = one([c for c in p.classes() if c.startswith(MANAGER + '<') and p.cls(c) is not None], 'an instance of the plugin manager')[0]
    ms = [(m[0].rsplit('::', 1)[-1], m[1], m[2], m[3]) for m in p.flat_members(p.cls(cls))]
    maps = [m for m in ms if re.match(r'(std::|icl_core::)?[mM]ap<', m[3])]
    if len(maps) != 3:
        raise Broken('the plugin manager has %d maps instead of 3' % len(maps))
    handle = [m for m in maps if re.search(r'^[^<]*<[^<]*<[^>]*>[^,]*, void ?\*|, void \*,', m[3])]
    rest = [m for m in maps if m not in handle]
    st = [m for m in rest if uses(p, fs['isStaticPlugin'][0], m[1])]
    if len(handle) != 1 or len(st) != 1:
        raise Broken('the maps of the plugin manager were not told apart')
    offsets = {'handle': handle[0][1], 'static': st[0][1], 'loaded': next(m[1] for m in rest if m is not st[0])}
    bools = [m for m in ms if m[2] == 1]
    flags = {}
    for n, g in (('init', 'isInitialized'), ('lazy', 'loadLazy')):
        hit = [m for m in bools if uses(p, fs[g][0], m[1])]
        if len(hit) != 1:
            raise Broken('the flag read by %s() was not found' % g)
        flags[n] = hit[0][1]
    this = ('this', cls)
    for name in PUBLIC + PROTECTED + ('~PluginManager',):
        for f in fs.get(name, [])[:1]:
            check(ctx, p, name, f, cls, this, offsets, flags)
    ctx.need('plugin', 8)


def uses(p, f, off):
    """does f access the member at this offset (of this)?"""
    from ..absint import Rule

    class U(Rule):
        hit = False

        def call(self, eng, st, ins, sname, fn, args):
            for t, v in args:
                q = eng.as_ptr(v)
                if q is not None and q == (('this', 'x'), off):
                    self.hit = True
            return quiet(eng, st, ins)

        def load(self, eng, st, ins, ptr, size):
            if eng.as_ptr(ptr) == (('this', 'x'), off):
                self.hit = True
            return None
    r = U()
    e = Engine(p, r)
    for o in e.explore(f, e.default_args(f, ('this', 'x')), ()):
        pass
    return r.hit


def check(ctx, p, name, f, cls, this, offsets, flags):
    where, fn = p.fwhere(f), '%s::%s' % (MANAGER, name)
    n = 0
    states = []
    for h in ('none', 'h1'):
        for l in ('none', 'p1') if h == 'h1' else ('none',):
            for s in ('none', 's1'):
                for init, lazy in ((1, 0), (1, 1)) + (((0, 0),) if h == 'none' else ()):
                    states.append((h, l, s, init, lazy))
    pl = p.param_list(f.name)[0]
    keyed = [i for i, t in enumerate(pl) if 'string' in t]
    for h, l, s, init, lazy in states:
        if name in PROTECTED and name != 'initializePlugins' and not init:
            continue
        if name == 'initializePlugins' and init:
            continue
        for key in (K, OTHER) if keyed and name != 'loadHandle' else (None,):
            r = PluginRule(cls, this, offsets, list(flags.values()))
            e = r.eng = Engine(p, r)
            args = e.default_args(f, this)
            mon = dict(START, handle=h, loaded=l, static=s, open=frozenset({h} - {'none'}), alive=frozenset({l} - {'none'}))
            mem = {this: {flags['init']: (I(init), 1), flags['lazy']: (I(lazy), 1)}}
            first = 1 + (1 if getattr(f, 'sret', False) else 0)
            if key is not None:
                ob = ('o', ('s', 'identifier'))
                mem[ob] = {0: (key, 8)}
                args[first + keyed[0]] = ('p', ob, 0)
            if name == 'addStaticPlugin':
                args[first] = STATICS['s2']
            seen = set()

            def bad(msg):
                if msg not in seen:
                    seen.add(msg)
                    ctx.violation('plugin', where, fn, msg, [], key='%s:%s' % (name, msg))
            mon0 = tuple(mon[x] for x in FIELDS)
            facts = None
            for o in e.explore(f, args, mon0, mem=mem):
                if o.kind != 'ret':
                    continue
                n += 1
                after(e, r, o, name, key, h, l, s, init, lazy, flags, this, bad, args)
            ctx.take(e, 'plugin')
    if n == 0:
        raise Broken('%s() never returns' % name)
    ctx.ok('plugin', '%s: %s in %d states' % (where, fn, len(states)))


def after(e, r, o, name, key, h, l, s, init, lazy, flags, this, bad, args):
    st = o.st
    g = lambda x: r.get(st, x)
    H, L, S, op, alive = g('handle'), g('loaded'), g('static'), g('open'), g('alive')
    ret = NAMES.get(e.norm(st, o.ret)) if o.ret is not None else None
    null = o.ret is not None and e.norm(st, o.ret) == NULL
    if H == 'null':
        bad('an identifier is registered for which no library is open')
    elif H in HANDLES and H not in op:
        bad('a library which was closed stays registered')
    for x in sorted(op - {H}):
        bad('a library stays open although it is not registered')
    if L == 'null':
        bad('a plugin is listed which could not be loaded')
    elif L in INSTANCES and L not in alive:
        bad('a plugin which was deleted is still listed')
    elif L in INSTANCES and H not in HANDLES:
        bad('a plugin is listed whose library is not registered')
    if S == 'null':
        bad('a static plugin is listed which does not exist')
    lost = alive - {L}
    if name == 'createPluginInstance':
        lost -= {ret}
    if lost:
        bad('an instance of a plugin gets lost')
    if name == '~PluginManager':
        if op or H not in ('none',) and H in op:
            bad('a library is not closed')
        if alive:
            bad('a plugin is not deleted')
        return
    if name == 'createPluginInstance' and ret in INSTANCES and ret == L:
        bad('the instance of the manager is handed out as a new one')
    ini = truth_of(e, st, e.mload(st, ('p', this, flags['init']), 1, None))
    lz = truth_of(e, st, e.mload(st, ('p', this, flags['lazy']), 1, None))
    if init and ini is not True:
        bad('the manager is not initialised any more')
    if init and g('opened') and name not in ('loadHandle', 'initializePlugins'):
        bad('looks for the plugins again')
    if name in ('initialize', 'availablePlugins', 'plugins', 'plugin', 'createPluginInstance', 'initializePlugins') and ini is not True:
        bad('the manager is not initialised afterwards')
    if init and h != H and name not in ('closePluginHandle', 'loadHandle'):
        bad('the library which is registered changes')
    if init and l != 'none' and L != l and name not in ('closePluginHandle', 'unloadPlugin'):
        bad('the instance of a plugin is replaced')
    if s != S and not (name in ('addStaticPlugin', 'removeStaticPlugin')):
        bad('the static plugins change')
    listing = name in ('availablePlugins', 'plugins', 'plugin', 'createPluginInstance')
    loads = listing and (lazy or not init) or name == 'loadPlugins'
    if name == 'initialize':
        want = e.norm(st, args[1])
        t = truth_of(e, st, want)
        t = e.decide(st, want) if t is None else t
        loads = t is False and (lazy or not init)
        if t is True and not init and lz is not True:
            bad('the plugins are not loaded when they are needed')
        if truth_of(e, st, o.ret) is not True and e.decide(st, o.ret) is not True:
            bad('does not report success')
    if loads:
        if H in HANDLES and L == 'none' and not g('failed'):
            bad('a plugin is not loaded although its library is registered')
        if lz is not False:
            bad('the plugins are loaded, but this is not noted')
    if name == 'plugin' and key == K:
        want = S if S != 'none' else L if L != 'none' else None
        if want is None and not null:
            bad('does not return NULL for an unknown plugin')
        elif want is not None and ret != want:
            bad('does not return the %s plugin' % ('static' if want == S else 'loaded'))
    if name == 'createPluginInstance' and key == K:
        if null and H in HANDLES and not g('failed'):
            bad('returns NULL although the plugin could be loaded')
        if not null and ret not in INSTANCES:
            bad('returns something which is not an instance of this plugin')
        if H == 'none' and not null:
            bad('returns an instance although there is no library')
    listed = dict(g('listed'))
    if name == 'plugins':
        if listed.get(('value', L), 0) != (1 if L in INSTANCES else 0):
            bad('the loaded plugin is listed %d times' % listed.get(('value', L), 0))
        if listed.get(('value', S), 0) != (1 if S in STATICS else 0):
            bad('the static plugin is listed %d times' % listed.get(('value', S), 0))
        if any(k[0] == 'value' and k[1] not in (L, S) for k in listed):
            bad('lists something which is not a plugin of the manager')
    if name == 'availablePlugins':
        c = sum(v for k, v in listed.items() if k[0] == 'identifier')
        if c != (H in HANDLES) + (S in STATICS):
            bad('the identifier of a plugin is listed %d times instead of %d times' % (c, (H in HANDLES) + (S in STATICS)))
    if name == 'isStaticPlugin' and key == K:
        t = e.norm(st, o.ret)
        if t != I(int(s != 'none')):
            bad('does not tell whether the plugin is a static one')
    if name == 'addStaticPlugin':
        k = g('ident')
        if k == 'K' and S != 's2':
            bad('the plugin is not added')
        if k != 'K' and S != s:
            bad('another static plugin is changed')
    if name == 'removeStaticPlugin':
        if key == K and S != 'none':
            bad('the static plugin is not removed')
        if key != K and S != s:
            bad('another static plugin is changed')
    if name == 'unloadPlugin' and key == K and (L != 'none' or H != h):
        bad('the plugin is not unloaded, or its library is changed')
    if name == 'closePluginHandle' and key == K and (L != 'none' or H != 'none'):
        bad('the library is not closed completely')
    if name in ('unloadPlugin', 'closePluginHandle') and key != K and (L != l or H != h):
        bad('another plugin is changed')
    if name == 'loadHandle' and h == 'none':
        ok = any(k == 'K' and t is True for n, (k, t) in g('of'))
        if ok and H == 'none':
            bad('a plugin is not registered')
