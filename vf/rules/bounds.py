"""C10: fixed-size buffers are never overrun and text in them is always terminated."""
import re
from ..absint import AnalysisLimit, Unsupported, to_signed
from .common import *
from .lints import ALL

BIG = 1 << 62
NAME = r'(^|::)%s$'


def const_of(eng, st, v, w=64):
    v = eng.norm(st, v)
    return to_signed(v[1], w) if v[0] == 'i' else None


class Lin(object):
    """Linear reasoning over values: sizes and lengths are taken not to wrap around."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.facts = None

    def lin(self, v, k=1, acc=None, w=64):
        acc = {} if acc is None else acc
        v = self.eng.norm(self.st, v)
        if v[0] == 'i':
            self.put(acc, 1, k * to_signed(v[1], 64))
        elif v[0] == 'x' and v[1] in ('zext', 'sext'):
            self.lin(v[2], k, acc, v[3])
        elif v[0] == 'x' and v[1] == 'add':
            self.lin(v[2], k, acc, v[4])
            if v[3][0] == 'i':
                self.put(acc, 1, k * to_signed(v[3][1], v[4]))
            else:
                self.lin(v[3], k, acc, v[4])
        elif v[0] == 'x' and v[1] == 'sub':
            self.lin(v[2], k, acc, v[4])
            self.lin(v[3], -k, acc, v[4])
        elif v[0] == 'x' and v[1] == 'mul' and v[3][0] == 'i':
            self.lin(v[2], k * to_signed(v[3][1], v[4]), acc, v[4])
        elif v[0] == 'x' and v[1] == 'trunc' and v[4] >= 32:
            self.lin(v[2], k, acc, v[3])
        else:
            self.put(acc, (v, w), k)
        return acc

    def put(self, acc, a, k):
        acc[a] = acc.get(a, 0) + k
        if acc[a] == 0:
            del acc[a]

    def inequalities(self):
        """linear forms known to be >= 0"""
        if self.facts is None:
            out = []
            for k, f in self.st.facts.items():
                if k[0] == 'rel' and len(k) == 4:
                    d = self.lin(k[3])
                    self.lin(k[2], -1, d)       # b - a
                    if f <= frozenset('<='):
                        e = dict(d)
                        if '=' not in f:
                            self.put(e, 1, -1)
                        out.append(e)
                    if f <= frozenset('>='):
                        e = {a: -c for a, c in d.items()}
                        if '=' not in f:
                            self.put(e, 1, -1)
                        out.append(e)
                elif k[0] in ('ivs', 'ivu') and k[1][0] == 'x':
                    d = self.lin(k[1])
                    if len(d) == 1 and 1 not in d and list(d.values()) == [1]:
                        continue
                    w = k[2]
                    if f[1] < (1 << (w - 1)) - 1:
                        e = {a: -c for a, c in d.items()}
                        self.put(e, 1, f[1])
                        out.append(e)
                    if k[0] == 'ivs' and f[0] > -(1 << (w - 1)) or f[0] > 0:
                        e = dict(d)
                        self.put(e, 1, -f[0])
                        out.append(e)
            self.facts = out
        return self.facts

    def bound(self, a):
        v, w = a
        lo, hi = self.eng.interval(self.st, v, w, True)
        l2, h2 = self.eng.interval(self.st, v, w, False)
        if h2 < (1 << (w - 1)):
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def low(self, g):
        """a lower bound of g by intervals"""
        r = g.get(1, 0)
        for a, c in g.items():
            if a == 1:
                continue
            lo, hi = self.bound(a)
            r += c * (lo if c > 0 else hi)
        return r

    def nonneg(self, g, depth=3):
        if self.low(g) >= 0:
            return True
        if depth == 0:
            return False
        for f in self.inequalities():
            for a, c in f.items():
                d = g.get(a)
                if a == 1 or d is None or (d > 0) != (c > 0):
                    continue
                # g = (d / c) * f + rest, d / c > 0
                if d % c == 0:
                    q, m = d // c, 1
                else:
                    q, m = abs(d), abs(c)
                    q = q if True else q
                rest = {x: y * m for x, y in g.items()}
                for x, y in f.items():
                    self.put(rest, x, -q * y)
                if self.nonneg(rest, depth - 1):
                    return True
        return False

    def le(self, a, b):
        """is the linear form a <= b on this path?"""
        d = dict(b)
        for x, c in a.items():
            self.put(d, x, -c)
        return self.nonneg(d)


def fmt_max(fmt, sizes):
    """Largest length of what a printf format can produce; None if it is not bounded."""
    n = 0
    i = 0
    arg = 0
    while i < len(fmt):
        if fmt[i] != '%':
            n += 1
            i += 1
            continue
        m = re.match(r'%[-+ #0]*(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L)?([diuoxXcspfFeEgG%])', fmt[i:])
        if not m:
            return None
        wd, pr, ln, cv = m.groups()
        if cv == '%':
            k = 1
        elif cv == 'c':
            k = 1
        elif cv == 's':
            if pr is None:
                return None
            k = int(pr)
        elif cv == 'p':
            k = 18
        elif cv in 'fF':
            k = 311 + int(pr if pr is not None else 6)
        elif cv in 'eEgG':
            k = 9 + int(pr if pr is not None else 6)
        else:
            k = {'hh': 4, 'h': 6, None: 11}.get(ln, 20)
            if cv in 'oxX':
                k = {'hh': 3, 'h': 6, None: 11}.get(ln, 22)
            if pr is not None:
                k = max(k, int(pr) + 1)
            if '#' in m.group(0):
                k += 2
        if wd:
            k = max(k, int(wd))
        n += k
        i += m.end()
    return n


# name -> (destination, size, kind): the sized primitives
WRITES = [
    (re.compile(NAME % r'v?snprintf'), 0, 1, 'print'),
    (re.compile(NAME % r'strncpy'), 0, 2, 'strncpy'),
    (re.compile(NAME % r'mem(cpy|move)'), 0, 2, 'copy'),
    (re.compile(NAME % r'strftime'), 0, 1, 'strftime'),
    (re.compile(NAME % r'fgets'), 0, 1, 'print'),
    (re.compile(NAME % r'(std::)?(istream|basic_istream<.*>)::get(line)?'), 1, 2, 'print'),
    (re.compile(NAME % r'(std::)?(istream|basic_istream<.*>)::read'), 1, 2, 'copy'),
    (re.compile(NAME % r'(read|recv|recvfrom)'), 1, 2, 'copy'),
    (re.compile(NAME % r'(readlink)'), 1, 2, 'copy'),
    (re.compile(NAME % r'(getcwd|gethostname|getdomainname|strerror_r)'), 0, 1, 'print'),
]
READS = [
    (re.compile(NAME % r'mem(cpy|move)'), 1, 2),
    (re.compile(NAME % r'(write|send|sendto)'), 1, 2),
    (re.compile(NAME % r'(std::)?(ostream|basic_ostream<.*>)::write'), 1, 2),
    (re.compile(r'basic_string<.*>::(basic_string|assign|append)$|(^|::)string::(string|assign|append)$'), 1, 2),
]
UNBOUNDED = re.compile(r'(^|::)(strcpy|stpcpy|strcat|sprintf|vsprintf|gets)$')


class BoundsRule(Rule):
    """mon = ((array, state), ...): 'L' its last byte is null, 'T' it holds a null, 'N' it may not be terminated"""
    join_limit = 6
    max_steps = 60000
    max_depth = 6
    expr_depth = 14
    ptr_join = True

    def __init__(self, p, inv, interesting):
        self.p, self.inv, self.interesting = p, inv, interesting
        self.classes = {}
        self.count = 0
        self.silent = False
        self.proved = {}
        self.handovers = []

    def class_of(self, obj):
        return self.classes.get(obj)

    def inline(self, eng, fn, sname):
        return self.p.in_repo(fn) and fn.name in self.interesting and len(eng.stack) < 5 and self.handed

    def inline_external(self, eng, fn, sname):
        return re.sub(r'<.*>', '', sname) in ('std::min', 'std::max', 'std::clamp')

    def pure_repo(self, sname):
        return False

    # ------------------------------------------------------------ objects
    def cls(self, eng, obj):
        if obj[0] == 'this':
            return obj[1]
        if obj[0] == 'a':
            t = getattr(eng, 'alloca_types', {}).get(obj)
            if t and len(t[1]) > 1 and isinstance(t[1][1], str):
                m = re.match(r'^%?"?(?:class|struct)\.(.*?)(\.\d+)?"?$', t[1][1])
                return m.group(1) if m else None
            return None
        return self.classes.get(obj)

    def arrays(self, eng, obj):
        """[(lo, hi, element size, is text)] of the arrays of known size in obj"""
        if obj[0] == 'a':
            mod, ty, n = eng.alloca_types[obj]
            t = mod.resolve(ty)
            if t[0] == 'arr':
                es = mod.size(t[2])
                return [(0, mod.size(t), es, es == 1)]
        if obj[0] == 'h':
            n = self.heap.get(obj)
            return [(0, n, 1, True)] if n is not None else []
        if obj[0] == 'g':
            m = eng.gmod(obj[1])
            if m is None:
                return []
            gm, gi = self.p.ginit(m, obj[1][1])
            if gi is None:
                return []
            t = gm.resolve(gi['ty'])
            if t[0] == 'arr':
                return [(0, gm.size(t), gm.size(t[2]), False)]
            return []
        q = self.cls(eng, obj)
        c = self.p.cls(q) if q and q.startswith('icl_core') else None
        if c is None:
            return []
        if not hasattr(c, '_arr'):
            c._arr = [(m[1], m[1] + m[2], 1, True) for m in self.p.flat_members(c) if m[3] == 'char[]' and m[2] > 1]
        return c._arr

    heap = {}
    handed = True

    def where(self, eng, ptr):
        """(object, array, offset as a linear form) of a pointer into an array of known size"""
        o = eng.as_ptr(ptr)
        if o is None or o[1] is None:
            return None
        ob, off = o
        if ob[0] == 'o':
            return None
        base = off if isinstance(off, int) else off[2]
        best = None
        for a in self.arrays(eng, ob):
            if a[0] <= base < a[1] or base == a[1] and best is None:
                best = a
        if best is None and not isinstance(off, int):
            # joined pointers have no constant part: the bounds of the offset tell the array
            lo, hi = eng.interval(self.cur, eng.offv(('p', ob, off)), 64, True)
            for a in self.arrays(eng, ob):
                if a[0] <= lo < a[1]:
                    best = a
        if best is None:
            return None
        return ob, best, off

    def offlin(self, L, off):
        if isinstance(off, int):
            return {1: off} if off else {}
        r = L.lin(off[1])
        L.put(r, 1, off[2])
        return r

    # ------------------------------------------------------------ joins
    def join_facts(self, eng, a, b, j, ren):
        """upper bounds which hold on both sides also hold for the joined value"""
        syms = set(s for s, x, y in ren)

        def stable(v):
            if v in syms or v and v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'old':
                return False
            return all(stable(x) for x in v if isinstance(x, tuple))
        cand = []
        for k in list(a.facts) + list(b.facts):
            if k[0] == 'rel' and len(k) == 4:
                cand += [k[2], k[3]]
        for s, x, y in ren:
            cand += [x, y]
        la, lb = Lin(eng, a), Lin(eng, b)
        caps = sorted(set(k for k in self.inv.values() if isinstance(k, int) and k >= 0))
        for s, x, y in ren:
            if x[0] not in ('s', 'x', 'i') or y[0] not in ('s', 'x', 'i') or x[0] == y[0] == 'i':
                continue
            lo, hi = eng.interval(j, s, 64, False)
            for k in caps:
                if k >= hi:
                    break
                lx, ly = la.lin(x), lb.lin(y)
                if la.le(lx, {1: k}) and lb.le(ly, {1: k}) and la.le({}, lx) and lb.le({}, ly):
                    j.facts[('ivu', s, 64)] = (lo, k)
                    j.facts[('ivs', s, 64)] = (lo, k)
                    break
        out = []
        for c in cand:
            if c[0] in ('s', 'x') and c not in out and c[1] not in ('icmp', 'not', 'trunc') and stable(c):
                out.append(c)
        if not out:
            return
        for s, x, y in ren:
            if x[0] not in ('s', 'x', 'i') or y[0] not in ('s', 'x', 'i'):
                continue
            lx, ly = la.lin(x), lb.lin(y)
            for c in out[:16]:
                if la.le(lx, la.lin(c)) and lb.le(ly, lb.lin(c)):
                    k, sw = eng._relkey(s, c)
                    j.facts[('rel', 'u') + k] = frozenset('>=' if sw else '<=')

    # ------------------------------------------------------------ state
    def get(self, st, key):
        for k, s in st.mon:
            if k == key:
                return s
        return 'N' if key[0][0] == 'a' and self.cls(self.eng, key[0]) is None else self.entry(key)

    def entry(self, key):
        q = self.cls(self.eng, key[0])
        return self.inv.get(('term', q, key[1]), 'L')

    def set(self, st, key, s):
        st.mon = tuple(sorted([(k, v) for k, v in st.mon if k != key] + [(key, s)], key=repr))

    def rename(self, eng, mon, f):
        return tuple((((f(k[0]),) + k[1:]), s) for k, s in mon)

    # ------------------------------------------------------------ accesses
    def fits(self, eng, st, ob, arr, off, size):
        """off + size <= end and off >= begin; size is a linear form"""
        L = Lin(eng, st)
        o = self.offlin(L, off)
        end = dict(o)
        for a, c in size.items():
            L.put(end, a, c)
        return L.le(end, {1: arr[1]}) and L.le({1: arr[0]}, o)

    def say(self, eng, ins, msg):
        if not self.silent:
            eng.report(ins, msg)

    def good(self, eng, ins, what):
        self.proved.setdefault((eng.p.where(ins), what), 0)

    def text(self, arr):
        return 'an array of %d bytes' % (arr[1] - arr[0])

    def access(self, eng, st, ins, ptr, size, what):
        self.cur = st
        w = self.where(eng, ptr)
        if w is None:
            return None
        ob, arr, off = w
        if isinstance(off, int) and arr[0] <= off and off + size <= arr[1] and ob[0] != 'a':
            return w
        if ob[0] == 'a' and isinstance(off, int) and arr[0] <= off and off + size <= arr[1]:
            return w
        if self.scanned(eng, ob):
            return w
        if self.mine(eng) and not self.fits(eng, st, ob, arr, off, {1: size}):
            self.say(eng, ins, '%s %s at an index which is not known to be within it' % (what, self.text(arr)))
        elif self.mine(eng):
            self.good(eng, ins, what)
        return w

    def scanned(self, eng, ob):
        """A global line buffer: text in it is scanned up to its terminator, which is not modelled."""
        if ob[0] != 'g':
            return False
        m = eng.gmod(ob[1])
        gm, gi = self.p.ginit(m, ob[1][1]) if m is not None else (None, None)
        t = gm.resolve(gi['ty']) if gi else None
        return bool(gi) and t[0] == 'arr' and gm.size(t[2]) == 1 and not gi.get('const')

    def mine(self, eng):
        return self.p.in_repo(eng.stack[-1][0])

    def load(self, eng, st, ins, ptr, size):
        self.access(eng, st, ins, ptr, size, 'reads')
        o = eng.as_ptr(ptr)
        if o is not None and isinstance(o[1], int) and o[0][0] != 'o':
            k = self.inv.get(('max', self.cls(eng, o[0]), o[1]))
            if k is not None and k >= 0:
                v = eng.mload(st, ptr, size, ins)
                if v[0] == 's' and v[1][0] == 'ld':
                    st.facts[('ivu', v, 8 * size)] = (0, k)
                return v
        return None

    def store(self, eng, st, ins, ptr, val, size):
        w = self.access(eng, st, ins, ptr, size, 'writes')
        if w is None or not w[1][3]:
            return None
        ob, arr, off = w
        key = (ob, arr[0], arr[1])
        s = self.get(st, key)
        zero = const_of(eng, st, val) == 0
        if zero:
            self.set(st, key, 'L' if s == 'L' or off == arr[1] - 1 else 'T')
        elif s == 'L':
            # keeps its last byte if this cannot reach it
            self.set(st, key, 'L' if self.fits(eng, st, ob, (arr[0], arr[1] - 1), off, {1: size}) else 'N')
        else:
            self.set(st, key, 'N')
        if not isinstance(off, int):
            eng.havoc_range(st, ob, arr[0], arr[1], ins)
            return True
        return None

    def memset(self, eng, st, ins, dst, val, n):
        w = self.sized(eng, st, ins, dst, n, 'zero' if val == ('i', 0) else 'copy', 'memset')
        if w is not None and not (isinstance(w[2], int) and n[0] == 'i'):
            self.clobber(eng, st, ins, dst)
            return True
        return None

    def memcpy(self, eng, st, ins, dst, src, n):
        if n[0] == 'i' and not (self.text_at(eng, st, dst) or self.text_at(eng, st, src)):
            return None
        self.sized(eng, st, ins, dst, n, 'copy', 'memcpy')
        self.readn(eng, st, ins, src, n, 'memcpy')
        self.cur = st
        w = self.where(eng, dst)
        if w is not None and not (isinstance(w[2], int) and n[0] == 'i'):
            self.clobber(eng, st, ins, dst)
            return True
        return None

    def text_at(self, eng, st, ptr):
        """Does this pointer point into text (rather than to an object which contains some)?"""
        self.cur = st
        w = self.where(eng, ptr)
        return w is not None and w[1][3]

    def size_lin(self, eng, st, n):
        return Lin(eng, st).lin(n)

    def sized(self, eng, st, ins, dst, n, kind, name):
        self.cur = st
        w = self.where(eng, dst)
        if w is None:
            return None
        ob, arr, off = w
        if not arr[3] and kind == 'zero':
            return w
        size = self.size_lin(eng, st, n)
        if not self.fits(eng, st, ob, arr, off, size):
            self.say(eng, ins, '%s may write behind the end of %s' % (name, self.text(arr)))
        else:
            self.good(eng, ins, name)
        if arr[3]:
            key = (ob, arr[0], arr[1])
            s = self.get(st, key)
            keeps = self.fits(eng, st, ob, (arr[0], arr[1] - 1), off, size)
            if kind == 'zero':
                whole = set(size) <= {1} and isinstance(off, int) and off + size.get(1, 0) == arr[1]
                self.set(st, key, 'L' if whole or s == 'L' else 'T')
            elif kind == 'print':
                # writes a null within the size (nothing at all for size zero)
                L = Lin(eng, st)
                if s != 'L':
                    self.set(st, key, 'T' if s == 'T' or L.le({1: 1}, size) else 'N')
            else:
                self.set(st, key, 'L' if s == 'L' and keeps else 'N')
        return w

    def readn(self, eng, st, ins, src, n, name):
        self.cur = st
        w = self.where(eng, src)
        if w is None:
            return
        ob, arr, off = w
        if not self.fits(eng, st, ob, arr, off, self.size_lin(eng, st, n)):
            self.say(eng, ins, '%s may read behind the end of %s' % (name, self.text(arr)))
        else:
            self.good(eng, ins, name)

    def terminated(self, eng, st, ins, ptr, name):
        self.cur = st
        w = self.where(eng, ptr)
        if w is None or not w[1][3]:
            return
        key = (w[0], w[1][0], w[1][1])
        if self.get(st, key) == 'N':
            self.say(eng, ins, 'text which may not be terminated is passed to %s' % name)
        else:
            self.good(eng, ins, name)

    def clobber(self, eng, st, ins, ptr):
        """an unknown function may write the array: nothing is known about its end"""
        w = self.where(eng, ptr)
        if w is not None:
            eng.havoc_range(st, w[0], w[1][0], w[1][1], ins)

    # ------------------------------------------------------------ calls
    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        short_name = base.rsplit('::', 1)[-1]
        self.cur = st
        # functions which are handed text are followed, the others are analysed on their own
        self.handed = any(t == ('ptr',) and self.text_at(eng, st, v) for t, v in args)
        if UNBOUNDED.search(base) and not (fn is not None and fn.lines is not None and short_name not in ('strcpy', 'strcat', 'sprintf')):
            w = self.where(eng, args[0][1]) if args else None
            if w is not None:
                self.say(eng, ins, '%s() writes to %s without a limit' % (short_name, self.text(w[1])))
                return None
        if re.search(NAME % 'strlen', base) and len(args) == 1:
            self.terminated(eng, st, ins, args[0][1], 'strlen()')
            w = self.where(eng, args[0][1])
            hi = w[1][1] - w[1][0] - 1 if w is not None else BIG
            return self.result(eng, st, ins, ('rng', ('len', eng.cur_path, ins.idx), 0, hi))
        hit = None
        for rx, d, n, kind in WRITES:
            if rx.search(base) and len(args) > max(d, n) and args[d][0] == ('ptr',):
                hit = (d, n, kind)
                break
        rd = None
        for rx, s, n in READS:
            if rx.search(sname if 'basic_string' in rx.pattern else base) and len(args) > n and args[s][0] == ('ptr',) and args[n][0][0] == 'int':
                rd = (s, n)
                break
        if rd:
            self.readn(eng, st, ins, args[rd[0]][1], args[rd[1]][1], short_name + '()')
        if hit:
            d, n, kind = hit
            dst, size = args[d][1], args[n][1]
            if kind == 'strftime':
                w = self.sized(eng, st, ins, dst, size, 'copy', 'strftime()')
                if w is None:
                    return None
                # success: terminated; failure: undefined
                a, b = st, st.copy()
                self.clobber(eng, a, ins, dst)
                self.clobber(eng, b, ins, dst)
                key = (w[0], w[1][0], w[1][1])
                if self.get(a, key) != 'L':
                    self.set(a, key, 'T')
                return [Outcome('ret', ('s', ('rng', ('n', eng.cur_path, ins.idx), 1, BIG)), a), Outcome('ret', I(0), b)]
            if kind == 'strncpy':
                # pads with nulls
                t, k = self.cstring(args[1][1]), const_of(eng, st, size)
                if t is not None and k is not None and len(t) < k:
                    kind = 'zero'
            w = self.sized(eng, st, ins, dst, size, kind, short_name + '()')
            if w is not None:
                self.clobber(eng, st, ins, dst)
            if kind == 'print' and 'printf' in short_name and len(args) > 2:
                f = self.cstring(args[2][1])
                for t, v in args[3:]:
                    if t == ('ptr',) and f and '%s' in f:
                        self.terminated(eng, st, ins, v, short_name + '()')
                m = fmt_max(f, None) if f is not None else None
                if w is None and m is None:
                    return None
                w32 = ('rng', ('len', eng.cur_path, ins.idx), 0, m if m is not None else (1 << 31) - 1)
                return self.result(eng, st, ins, w32)
            if w is None:
                return None
            if ins.ty == ('ptr',):
                return self.result(eng, st, ins, None, dst)
            if ins.ty == ('void',):
                return self.result(eng, st, ins, None)
            return self.result(eng, st, ins, ('r', eng.cur_path, ins.idx))
        # any other function
        inl = fn is not None and fn.lines is not None and self.inline(eng, fn, sname)
        if not inl:
            self.escapes(eng, st, ins, args, fn, base)
        # needs the text it is handed to be terminated
        name = ins.x['callee'][1] if ins.x.get('callee') and ins.x['callee'][0] == 'g' else None
        if name and not inl and not rd:
            pl = (self.p.param_list(name) or ((), 0))[0]
            sh = len(args) - len(pl)
            for k, t in enumerate(pl):
                if k + sh < len(args) and args[k + sh][0] == ('ptr',):
                    v = args[k + sh][1]
                    nxt = pl[k + 1] if k + 1 < len(pl) else ''
                    if t in ('char const*', 'char*') and not re.match(r'^(unsigned )?(long|int)( long)?$', nxt):
                        if t == 'char const*':
                            self.terminated(eng, st, ins, v, short_name + '()')
            if not pl and re.match(r'^(puts|fputs|printf|fprintf|strcmp|strncmp|strcasecmp|atoi|open|fopen|unlink|rename|strchr|strrchr|strstr|strdup|system|remove|mkdir|access|stat)$', name):
                for t, v in args:
                    if t == ('ptr',):
                        self.terminated(eng, st, ins, v, short_name + '()')
        return None

    def escapes(self, eng, st, ins, args, fn, base):
        """An object which is handed to code which is not followed keeps what is assumed of its class."""
        for t, v in args:
            o = eng.as_ptr(v) if t == ('ptr',) else None
            if o is None or o[1] != 0 or o[0][0] not in ('a', 'this'):
                continue
            q = self.cls(eng, o[0])
            if q is None or not q.startswith('icl_core'):
                continue
            short = base.rsplit('::', 1)[-1]
            if short.startswith('~') or short == q.rsplit('::', 1)[-1]:
                continue
            if o[0][0] == 'this':
                if fn is not None and self.p.in_repo(fn):
                    self.handovers.append((ins, st.copy()))
                continue
            for key, s in st.mon:
                if key[0] == o[0] and 'LTN'.index('N' if s == 'U' else s) > 'LTN'.index(self.entry(key)):
                    self.say(eng, ins, 'an object whose text may not be terminated is passed to %s()' % short)

    def result(self, eng, st, ins, sym, val=None):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}
        r = val if val is not None else ('s', sym) if sym is not None else None
        return [Outcome('ret', r, st)]

    def cstring(self, v):
        from .timing import cstring
        try:
            return cstring(self.p, v)
        except Exception:
            return None


# ------------------------------------------------------------ driver
PRIM = re.compile(r'^(v?snprintf|strncpy|strftime|fgets|read|recv|recvfrom|readlink|getcwd|gethostname|strcpy|strcat|sprintf|vsprintf|strlen|'
                  r'write|send|sendto|llvm\.mem(set|cpy|move)\..*)$')
SHORT = re.compile(r'(^|::)(v?snprintf|strncpy|strftime|memcpy|memset|memmove|getline)$')


def has_arrays(p, f):
    for ins in f.blocks.values():
        for x in ins:
            if x.op in ('call', 'invoke'):
                c = x.x.get('callee')
                if c and c[0] == 'g' and (PRIM.match(c[1]) or SHORT.search(re.sub(r'<.*>', '', p.sname(c[1])))):
                    if c[1].startswith('llvm.mem') and 'std::' in p.sname(f.name):
                        continue
                    return True
            elif x.op == 'alloca' and f.mod.resolve(x.ty)[0] == 'arr':
                return True
            elif x.op == 'gep' and len(x.ops) > 2 and has_arr_type(f.mod, x.ty):
                return True
    return False


def has_arr_type(mod, t):
    t = mod.resolve(t)
    if t[0] == 'arr':
        return True
    return False


def make_classes(p, f, r):
    pl = (p.param_list(f.name) or ((), 0))[0]
    first = len(f.params) - len(pl)
    for k, t in enumerate(pl):
        m = re.match(r'^(icl_core::[\w:]+)(?: const)?\s*[&*]$', t)
        if m:
            r.classes[('arg', k + first)] = m.group(1)


class Sizes(object):
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.fns = [f for f in p.iter_funcs() if f.lines is not None and p.in_repo(f) and has_arrays(p, f)]
        self.inter = set(f.name for f in self.fns)
        self.inv = {}

    def roots(self):
        for f in sorted(self.fns, key=lambda f: f.name):
            n = f.name
            if self.twin(n) or re.search('D[02]E', n):
                continue
            yield f

    def twin(self, n):
        """a base object constructor which exists as a complete one as well"""
        c = self.p.funcs.get(n.replace('C2E', 'C1E')) if 'C2E' in n else None
        return c is not None and c.name != n

    def owner(self, f):
        """class of the this parameter"""
        q = self.p.sname(f.name).rsplit('::', 1)[0]
        i = 1 if getattr(f, 'sret', False) else 0
        if len(f.params) > i and 'this' in f.params[i][1]:
            return q, i
        return None, None

    def analyse(self, f, silent):
        r = BoundsRule(self.p, self.inv, self.inter)
        r.silent = silent
        r.heap = {}
        e = Engine(self.p, r)
        q, i = self.owner(f)
        make_classes(self.p, f, r)
        args = e.default_args(f, ('this', q) if q else None)
        args = [('s', ('rng', ('A', n), 0, BIG)) if a[0] == 's' and f.params[n][0] == ('int', 64) else a for n, a in enumerate(args)]
        mon = ()
        ctor = re.search(r'C[12]E', f.name) is not None
        if q and ctor:
            mon = tuple(sorted([((('this', q), a[0], a[1]), 'U') for a in r.arrays(e, ('this', q))], key=repr))
        outs = e.explore(f, args, mon)
        return r, e, outs, q, ctor

    def candidates(self):
        """unsigned members of classes with text arrays -> bounds to try, the tightest useful one first"""
        out = {}
        for q, c in self.p.classes().items():
            if not c.complete or not q.startswith('icl_core::'):
                continue
            fm = self.p.flat_members(c)
            caps = sorted(set(m[2] for m in fm if m[3] == 'char[]' and m[2] > 1), reverse=True)
            for m in fm:
                if caps and m[4] == 'scalar' and re.match(r'^(unsigned|size_t|int|long)', m[3]) and m[2] in (4, 8):
                    out[('max', q, m[1])] = [k for cap in caps for k in (cap - 2, cap - 1, cap - 3)] + [None]
        return out

    def infer(self):
        """The largest set of these bounds and of terminated members which every function keeps (Houdini)."""
        cand = self.candidates()
        classes = set(k[1] for k in cand)
        for q, c in self.p.classes().items():
            if c.complete and q.startswith('icl_core::') and any(m[3] == 'char[]' and m[2] > 1 for m in self.p.flat_members(c)):
                classes.add(q)
        roots = [f for f in self.methods(classes)]
        tried = {k: 0 for k in cand}
        self.inv = {k: v[0] for k, v in cand.items()}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Broken('no invariant of the buffer classes was found')
            bad = set()
            for f in roots:
                r, e, outs, q, ctor = self.analyse(f, True)
                ends = [o.st for o in outs if o.kind == 'ret']
                for st, here in [(x, False) for x in ends] + [(x[1], True) for x in r.handovers]:
                    ob = ('this', q)
                    for k in list(self.inv):
                        if k[1] != q:
                            continue
                        if k[0] == 'max' and self.inv[k] is not None:
                            v = st.mem.get(ob, {}).get(k[2])
                            if v is None:
                                if ctor and not here:
                                    z = any(isinstance(x, tuple) and x[0] == 'z' and x[1] <= k[2] < x[1] + x[2] for x in st.mem.get(ob, {}))
                                    if not z:
                                        bad.add(k)
                                continue
                            L = Lin(e, st)
                            x = L.lin(v[0], w=8 * v[1])
                            if not (L.le(x, {1: self.inv[k]}) and L.le({}, x)):
                                bad.add(k)
                    for k, s in st.mon:
                        if k[0] != ob:
                            continue
                        t = ('term', q, k[1])
                        cur = self.inv.get(t, 'L')
                        if s in 'NU' and (ctor or s == 'U'):
                            s = 'N'
                        if 'LTN'.index(s) > 'LTN'.index(cur) and (ctor or s != 'N'):
                            self.inv[t] = s
                            bad.add(None)
            if not bad:
                return
            for k in bad - {None}:
                tried[k] += 1
                self.inv[k] = cand[k][tried[k]]

    def methods(self, classes):
        for n, f in sorted(self.p.funcs.items()):
            if f.name != n or f.lines is None or re.search('D[012]E', n):
                continue
            q, i = self.owner(f)
            if q in classes and self.p.in_repo(f):
                if self.twin(n):
                    continue
                yield f


def c10(ctx):
    p = ctx.load(ALL, ['templates'])
    ctx.rule('bounds', 'every access with a computed index or size to an array of known size lies within it')
    ctx.rule('terminated', 'text in an array is terminated whenever it is passed on and when the function which wrote it returns')
    S = Sizes(ctx, p)
    S.infer()
    seen = set()
    for f in S.roots():
        full = p.fullname(f.name)
        try:
            r, e, outs, q, ctor = S.analyse(f, False)
        except (AnalysisLimit, Unsupported) as x:
            raise Broken('%s could not be analysed: %s' % (full, x))
        ctx.take(e, 'bounds')
        for (w, what) in r.proved:
            if (w, what) not in seen:
                seen.add((w, what))
                ctx.ok('bounds', '%s %s' % (w, what))
        done = set()
        for o in outs:
            if o.kind != 'ret':
                continue
            for k, s in o.st.mon:
                if k[0] == ('this', q) and s != 'U' and k not in done:
                    done.add(k)
                    nm = [m[0] for m in p.flat_members(p.cls(q)) if m[1] == k[1]]
                    if s == 'N':
                        ctx.violation('terminated', p.fwhere(f), full, 'leaves %s without a terminating null' % nm[0])
                    else:
                        ctx.ok('terminated', '%s %s' % (full, nm[0]))
    ctx.need('bounds', 20)
    ctx.need('terminated', 5)
    ctx.notes = sorted('%s %s+%d: %s' % (k[0], k[1], k[2], v) for k, v in S.inv.items() if v is not None)
