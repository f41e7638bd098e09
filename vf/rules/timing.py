"""C01 exactness and normal form of the time classes, C02 comparison of times."""
import re
import struct
from fractions import Fraction
from ..absint import AnalysisLimit, Unsupported
from .common import *

G = 1000000000
CLASSES = ('TimeBase', 'TimeSpan', 'TimeStamp')
CLS = r'icl_core::(?:TimeBase|TimeSpan|TimeStamp)'
NMAX = G - 1


def sec_sym(k):
    return ('s', ('S', k))


def nsec_sym(k):
    return ('s', ('rng', ('N', k), -NMAX, NMAX))


def time_mem(k):
    return {0: (sec_sym(k), 8), 8: (nsec_sym(k), 4)}


class Poly(object):
    """Linear normal form over atoms, with exact integer division by constants."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.busy = 0

    def rng(self, v, w, signed=True):
        a = self.eng.interval(self.st, v, w, signed)
        if a[1] - a[0] > (1 << 34) or w == 32 and v[0] == 'x' and v[1] in ('mul', 'add', 'sub', 'trunc'):
            b = self.remainder(v, w)
            if b is not None:
                a = (max(a[0], b[0]), min(a[1], b[1]))
        return a

    def remainder(self, v, w):
        """Range of v when it is k * (x - c * (x / c)), by its linear form."""
        if v[0] != 'x' or v[1] not in ('sub', 'mul', 'trunc', 'add', 'sext'):
            return None
        if v[1] == 'trunc' and self.busy > 3:
            return None
        self.busy += 1
        try:
            p = self.of(v)
        finally:
            self.busy -= 1
        for a, c in p.items():
            if isinstance(a, tuple) and a[0] == 'div':
                k = -c / a[2]
                x = dict(a[1])
                rest = {b: d for b, d in p.items() if b != a}
                if k and rest == {b: d * k for b, d in x.items()}:
                    m = abs(k) * (a[2] - 1)
                    return (-m, m)
        return None

    def exact(self, v):
        """does the w-bit operation v compute the mathematical result?"""
        w = v[4]
        if w >= 64:
            return True
        op = v[1]
        ok = False
        for signed in (True, False):
            a, b = self.rng(v[2], w, signed), self.rng(v[3], w, signed)
            if v[3][0] == 'i' and op == 'add':
                b = (v[3][1],) * 2
            if op == 'add':
                r = (a[0] + b[0], a[1] + b[1])
            elif op == 'sub':
                r = (a[0] - b[1], a[1] - b[0])
            else:
                c = [x * y for x in a for y in b]
                r = (min(c), max(c))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if lo <= r[0] and r[1] <= hi:
                ok = True
        return ok

    def of(self, v):
        r = {}
        self.add(r, v, Fraction(1))
        return self.fold(r)

    def put(self, r, a, k):
        r[a] = r.get(a, 0) + k
        if r[a] == 0:
            del r[a]

    def addp(self, r, p, k):
        for a, c in p.items():
            self.put(r, a, c * k)

    def key(self, p):
        return tuple(sorted(p.items(), key=repr))

    def div(self, v, c):
        """atom of the truncated quotient v / c"""
        if v[0] == 'x' and v[1] in ('sext', 'zext'):
            return self.div(v[2], c)
        if v[0] == 'x' and v[1] in ('sdiv', 'udiv') and v[3][0] == 'i' and v[3][1] > 0:
            return self.div(v[2], v[3][1] * c)
        if v[0] == 'x' and v[1] in ('srem', 'urem') and v[3][0] == 'i' and v[3][1] > 0:
            k = v[3][1]
            if k % c == 0:
                r = {}
                self.addp(r, self.div(v[2], c), 1)
                self.addp(r, self.div(v[2], k), -(k // c))
                return r
        if v[0] == 'i':
            q = abs(v[1]) // c
            return {1: Fraction(q if v[1] >= 0 else -q)} if q else {}
        p = self.of(v)
        k = self.key(p)
        # the quotient is truncated, hence odd: only the positive one gets a name
        if k and k[0][1] < 0:
            return {('div', self.key({a: -x for a, x in p.items()}), c): Fraction(-1)}
        return {('div', k, c): Fraction(1)} if k else {}

    def add(self, r, v, k):
        v = self.eng.norm(self.st, v)
        if v[0] == 'i':
            self.put(r, 1, k * v[1])
        elif v[0] == 'x' and v[1] in ('sext', 'zext', 'sitofp', 'uitofp', 'fpext'):
            self.add(r, v[2], k)
        elif v[0] == 'x' and v[1] == 'trunc':
            w = v[4]
            ok = False
            for signed in (True, False):
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                a = self.rng(v[2], v[3], signed)
                if lo <= a[0] and a[1] <= hi:
                    ok = True
            if v[2][0] == 's' and isinstance(v[2][1], tuple) and v[2][1][0] == 'tv':
                ok = True
            if ok:
                self.add(r, v[2], k)
            else:
                self.put(r, ('lossy', v), k)
        elif v[0] == 'x' and v[1] in ('add', 'sub') and self.exact(v):
            self.add(r, v[2], k)
            self.add(r, v[3], k if v[1] == 'add' else -k)
        elif v[0] == 'x' and v[1] == 'mul' and self.exact(v):
            a, b = v[2], v[3]
            if b[0] != 'i' and a[0] == 'i':
                a, b = b, a
            if b[0] == 'i':
                self.add(r, a, k * b[1])
            else:
                self.put(r, v, k)
        elif v[0] == 'x' and v[1] in ('sdiv', 'udiv') and v[3][0] == 'i' and v[3][1] > 0:
            self.addp(r, self.div(v[2], v[3][1]), k)
        elif v[0] == 'x' and v[1] in ('srem', 'urem') and v[3][0] == 'i' and v[3][1] > 0:
            c = v[3][1]
            self.add(r, v[2], k)
            self.addp(r, self.div(v[2], c), -c * k)
        elif v[0] == 'x' and v[1] in ('fadd', 'fsub'):
            self.add(r, v[2], k)
            self.add(r, v[3], k if v[1] == 'fadd' else -k)
        elif v[0] == 'x' and v[1] == 'fneg':
            self.add(r, v[2], -k)
        elif v[0] == 'x' and v[1] == 'fmul' and (self.fconst(v[2]) is not None or self.fconst(v[3]) is not None):
            a, b = (v[2], v[3]) if self.fconst(v[3]) is not None else (v[3], v[2])
            self.add(r, a, k * self.fconst(b))
        elif v[0] == 'x' and v[1] == 'fmul':
            # distribute over the linear operand: (a + b) * f
            a, b = v[2], v[3]
            if b[0] != 's':
                a, b = b, a
            for at, c in self.of(a).items():
                self.put(r, ('fmul', at, b), c * k)
        elif v[0] == 'x' and v[1] == 'fdiv':
            c = self.fconst(v[3])
            if c:
                self.add(r, v[2], k / c)
            else:
                for at, c in self.of(v[2]).items():
                    self.put(r, ('fdiv', at, v[3]), c * k)
        elif v[0] == 'x' and v[1] in ('fptosi', 'fptoui'):
            # x - e, where e is the truncated fraction
            self.add(r, v[2], k)
            self.put(r, ('frac', self.key(self.of(v[2])), v[4]), -k)
        elif self.fconst(v) is not None:
            self.put(r, 1, k * self.fconst(v))
        else:
            self.put(r, v, k)

    def fconst(self, v):
        if v[0] != 'fl':
            return None
        t = str(v[1])
        if t.startswith('0x'):
            try:
                return Fraction(struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            except (ValueError, OverflowError):
                return None
        try:
            return Fraction(float(t))
        except (ValueError, OverflowError):
            return None

    def fold(self, r):
        """Replaces the two halves of a normalised value by what was normalised."""
        for a in list(r):
            if isinstance(a, tuple) and a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 'NS':
                key = a[1][1]
                n = ('s', ('rng', ('NN', key), -NMAX, NMAX))
                if r.get(n) is not None and r[a] == G * r[n]:
                    k = r[n]
                    del r[a]
                    del r[n]
                    self.add(r, key[0], k * G)
                    self.add(r, key[1], k)
                    return self.fold(r)
        return r


class TimeRule(Rule):
    join_limit = 100
    max_steps = 60000
    max_depth = 8
    expr_depth = 30
    nsw = True
    normalize = False

    def __init__(self, p):
        self.p = p
        self.norms = 0

    def part(self, eng, st):
        return hash(frozenset(st.facts.items()))

    def inline_external(self, eng, fn, sname):
        return 'numeric_limits' in sname

    def load(self, eng, st, ins, ptr, size):
        ob = eng.as_ptr(ptr)
        if ob is not None and ob[0][0] == 'g' and eng.p.sname(ob[0][1][1]) in ('icl_core::TimeSpan::cZERO', 'icl_core::TimeStamp::cZERO'):
            return I(0)
        return None

    def inline(self, eng, fn, sname):
        return True

    def call(self, eng, st, ins, sname, fn, args):
        if re.match(CLS + '::normalizeTime$', sname) and not self.normalize:
            ob = eng.as_ptr(args[0][1])
            if ob is None or not isinstance(ob[1], int):
                return None
            self.norms += 1
            s = eng.mload(st, ('p', ob[0], ob[1]), 8, ins)
            n = eng.mload(st, ('p', ob[0], ob[1] + 8), 4, ins)
            k = (s, n)
            eng.mstore(st, ('p', ob[0], ob[1]), ('s', ('NS', k)), 8, ins)
            eng.mstore(st, ('p', ob[0], ob[1] + 8), ('s', ('rng', ('NN', k), -NMAX, NMAX)), 4, ins)
            return [Outcome('ret', None, st)]
        if sname == 'icl_core::TimeStamp::now' and not eng.stack[0][0].name.endswith('3nowEv'):
            return [Outcome('ret', ('agg', (sec_sym('now'), nsec_sym('now'))), st)]
        if re.search(r'(^|::)(gettimeofday|clock_gettime)$', sname):
            for t, v in args:
                ob = eng.as_ptr(v) if t == ('ptr',) else None
                if ob is not None:
                    eng.mstore(st, ('p', ob[0], ob[1]), ('s', ('tv', 'sec')), 8, ins)
                    eng.mstore(st, ('p', ob[0], ob[1] + 8), ('s', ('tv', 'nsec')), 8, ins)
            return [Outcome('ret', I(0), st)]
        return None


def normal(eng, st, s, n):
    """Is (s, n) a normalised pair?  None if unknown"""
    if s[0] == 's' and n[0] == 's' and isinstance(s[1], tuple) and isinstance(n[1], tuple) and n[1][0] == 'rng':
        if s[1][0] == 'NS' and n[1][1] == ('NN', s[1][1]):
            return True
        if s[1][0] == 'S' and n[1][1] == ('N', s[1][1]):
            return True
    a = eng.interval(st, n, 32, True)
    if a == (0, 0):
        return True
    b = eng.interval(st, s, 64, True)
    if a[0] < -NMAX or a[1] > NMAX:
        return False
    return (a[0] >= 0 and b[0] >= 0) or (a[1] <= 0 and b[1] <= 0) or b == (0, 0)


def eng_ptr(ptr, ob):
    return ('p', ob[0], ob[1])


class LoopRule(TimeRule):
    """normalizeTime itself: mon = change of 1e9*secs+nsecs since the entry of the loop iteration"""
    normalize = True
    join_limit = 4

    def part(self, eng, st):
        d = st.mem.get(('this', 'icl_core::TimeBase'), {})
        if 0 not in d or 8 not in d:
            return None
        s = eng.interval(st, d[0][0], 64, True)
        n = eng.interval(st, d[8][0], 32, True)

        def cls(iv, cuts):
            # between which cuts the interval lies
            return (sum(1 for c in cuts if iv[0] >= c), sum(1 for c in cuts if iv[1] >= c))
        return cls(s, (0, 1)), cls(n, (-NMAX, 0, 1, G))

    def store(self, eng, st, ins, ptr, val, size):
        ob = eng.as_ptr(ptr)
        if ob is not None and ob[0][0] == 'this' and ob[1] in (0, 8) and size in (4, 8):
            cur = eng.mload(st, ptr, size, ins)
            P = Poly(eng, st)
            d = P.of(val)
            P.addp(d, P.of(cur), -1)
            m = dict(st.mon)
            P.addp(m, d, G if ob[1] == 0 else 1)
            st.mon = P.key(m)
            # the new value is only known by its range from here on
            w = 8 * size
            iv = eng.interval(st, val, w, True)
            if ins.idx in st.defd:
                eng.redefine(st, ins.idx)
            st.defd = st.defd | {ins.idx}
            new = ('s', ('r', eng.cur_path, ins.idx, 'f'))
            st.facts[('ivs', new, w)] = iv
            eng.mstore(st, eng_ptr(ptr, ob), new, size, ins)
            return True
        return None


def fixed(p, name):
    return p.fullname(name).replace('std::__cxx11::', 'std::')


def t_arg(t):
    m = re.match(r'^(%s)(?: const)?\s*[&*]$' % CLS, t)
    return bool(m)


def setup(p, f, cls):
    """arguments and initial memory of a function of the time classes"""
    pl = (p.param_list(f.name) or ((), 0))[0]
    args, mem = [], {}
    params = list(f.params)
    n = 0
    r = TimeRule(p)
    e = Engine(p, r)
    out = []
    k = 0
    member = bool(params) and 'this' in params[0][1] or (len(params) > 1 and 'this' in params[1][1])
    for n, (t, nm) in enumerate(params):
        if getattr(f, 'sret', False) and n == 0:
            out.append(('p', ('ret', 0), 0))
            continue
        if 'this' in nm and member and k == 0 and not any(o[0] == 'p' and o[1][0] == 'this' for o in out):
            ob = ('this', cls)
            out.append(('p', ob, 0))
            if not re.search(r'C[12]E', f.name):
                mem[ob] = time_mem('this')
            continue
        ty = pl[k] if k < len(pl) else ''
        k += 1
        if t_arg(ty):
            ob = ('arg', k)
            out.append(('p', ob, 0))
            mem[ob] = time_mem(k)
        elif 'timespec' in ty:
            ob = ('arg', k)
            out.append(('p', ob, 0))
            mem[ob] = {0: (('s', ('tv', 'sec')), 8), 8: (('s', ('tv', 'nsec')), 8)}
        elif t == ('ptr',):
            out.append(('p', ('arg', k), 0))
        elif 'unsigned int' == ty:
            out.append(('s', ('rng', ('A', k), 0, (1 << 31) - 1)))
        else:
            out.append(('s', ('A', k)))
    return r, e, out, mem, pl


def S(k):
    return {sec_sym(k): 1}


def V(k):
    if k == 'tv':
        return {('s', ('tv', 'sec')): G, ('s', ('tv', 'nsec')): 1}
    return {sec_sym(k): G, nsec_sym(k): 1}


def A(k, c=1):
    return {('s', ('A', k)): c}


def plus(*ps):
    r = {}
    for p, c in ps:
        for a, k in p.items():
            r[a] = r.get(a, 0) + c * k
    return {a: Fraction(k) for a, k in r.items() if k}


def quo(k, c):
    n = nsec_sym(k) if k[0] != 's' else k
    return {('div', ((n, Fraction(1)),), c): 1}


def sdiv(k, c):
    return {('div', ((sec_sym(k), Fraction(1)),), c): 1}


T = 'this'
SPEC = []


def spec(rx, kind, val, text):
    SPEC.append((re.compile('^(?:%s)$' % rx), kind, val, text))


O = r'icl_core::(?:TimeBase|TimeSpan|TimeStamp) const&'
spec(CLS + r'::\w+\(long, int\)', 'this', plus((A(1), G), (A(2), 1)), 'the given seconds and nanoseconds')
spec(r'icl_core::TimeStamp::TimeStamp\(unsigned long, unsigned int\)', 'this',
     plus((A(1), G), ({('s', ('rng', ('A', 2), 0, (1 << 31) - 1)): 1}, 1)), 'the given seconds and nanoseconds')
spec(r'icl_core::TimeStamp::TimeStamp\(long\)', 'this', plus((A(1), G)), 'the given seconds')
spec(r'icl_core::TimeStamp::TimeStamp\(\)', 'this', {}, 'zero')
spec(CLS + r'::(?:TimeBase|TimeSpan|TimeStamp|fromTimespec)\(timespec const&\)', 'this', plus((V('tv'), 1)), 'the given timespec')
spec(r'icl_core::TimeStamp::TimeStamp\(icl_core::TimeBase const&\)', 'this', plus((V(1), 1)), 'the given time')
spec(CLS + r'::operator\+=\(%s\)' % O, 'this', plus((V(T), 1), (V(1), 1)), 'the sum')
spec(CLS + r'::operator-=\(%s\)' % O, 'this', plus((V(T), 1), (V(1), -1)), 'the difference')
spec(r'icl_core::operator\+\(%s, %s\)' % (O, O), 'ret', plus((V(1), 1), (V(2), 1)), 'the sum')
spec(r'icl_core::operator-\(%s, %s\)' % (O, O), 'ret', plus((V(1), 1), (V(2), -1)), 'the difference')
spec(r'icl_core::TimeSpan::fromSec\(long\)', 'this', plus((A(1), G)), 'the given seconds')
spec(r'icl_core::TimeSpan::fromMSec\(long\)', 'this', plus((A(1), 1000000)), 'the given milliseconds')
spec(r'icl_core::TimeSpan::fromUSec\(long\)', 'this', plus((A(1), 1000)), 'the given microseconds')
spec(r'icl_core::TimeSpan::createFromSec\(long\)', 'ret', plus((A(1), G)), 'the given seconds')
spec(r'icl_core::TimeSpan::createFromMSec\(long\)', 'ret', plus((A(1), 1000000)), 'the given milliseconds')
spec(r'icl_core::TimeSpan::createFromUSec\(long\)', 'ret', plus((A(1), 1000)), 'the given microseconds')
spec(r'icl_core::TimeStamp::futureMSec\(unsigned long\)', 'ret', plus((A(1), 1000000), (V('now'), 1)), 'the current time plus the given milliseconds')
spec(r'icl_core::TimeStamp::now\(\)', 'ret', plus((V('tv'), 1)), 'the clock')
spec(r'icl_core::TimeStamp::fromNow\(\)', 'this', plus((V('tv'), 1)), 'the clock')
spec(CLS + r'::maxTime\(\)', 'ret', {1: Fraction(((1 << 63) - 1) * G + NMAX)}, 'the largest time')
spec(CLS + r'::(?:tsSec|tbSec)\(\) const', 'int', plus((S(T), 1)), 'the seconds')
spec(CLS + r'::(?:tsNSec|tbNSec)\(\) const', 'int', plus(({nsec_sym(T): 1}, 1)), 'the nanoseconds')
spec(CLS + r'::(?:tsUSec|microSeconds)\(\) const', 'int', plus((quo(T, 1000), 1)), 'the microseconds')
spec(CLS + r'::milliSeconds\(\) const', 'int', plus((quo(T, 1000000), 1)), 'the milliseconds')
spec(CLS + r'::nanoSeconds\(\) const', 'int', plus(({nsec_sym(T): 1}, 1), (quo(T, 1000), -1000)), 'the nanoseconds within a microsecond')
spec(CLS + r'::toMSec\(\) const', 'int', plus((S(T), 1000), (quo(T, 1000000), 1)), 'the whole milliseconds')
spec(CLS + r'::toUSec\(\) const', 'int', plus((S(T), 1000000), (quo(T, 1000), 1)), 'the whole microseconds')
spec(CLS + r'::toNSec\(\) const', 'int', plus((V(T), 1)), 'the nanoseconds')
spec(CLS + r'::days\(\) const', 'int', plus((sdiv(T, 86400), 1)), 'the whole days')
spec(CLS + r'::hours\(\) const', 'int', plus((sdiv(T, 3600), 1), (sdiv(T, 86400), -24)), 'the hours of the day')
spec(CLS + r'::minutes\(\) const', 'int', plus((sdiv(T, 60), 1), (sdiv(T, 3600), -60)), 'the minutes of the hour')
spec(CLS + r'::seconds\(\) const', 'int', plus((S(T), 1), (sdiv(T, 60), -60)), 'the seconds of the minute')
spec(CLS + r'::(?:timespec|systemTimespec)\(\) const', 'pair', plus((V(T), 1)), 'seconds and nanoseconds')
spec(r'icl_core::operator\*\(icl_core::TimeSpan const&, double\)', 'scale', 'fmul', 'the product')
spec(r'icl_core::operator/\(icl_core::TimeSpan const&, double\)', 'scale', 'fdiv', 'the quotient')
spec(r'icl_core::abs\(icl_core::TimeSpan const&\)', 'abs', None, 'the absolute value')


def show(p):
    if not p:
        return '0'

    def at(a):
        if a == 1:
            return '1'
        if a[0] == 'div':
            return '(%s)/%d' % (' + '.join('%s*%s' % (c, at(x)) for x, c in a[1]), a[2])
        if a[0] == 's' and a[1][0] == 'S':
            return 'secs' if a[1][1] == 'this' else 'secs%s' % a[1][1]
        if a[0] == 's' and a[1][0] == 'rng':
            return '%s%s' % ('nsecs' if a[1][1][0] == 'N' else 'arg', '' if a[1][1][1] == 'this' else a[1][1][1])
        if a[0] == 's' and a[1][0] == 'A':
            return 'arg%d' % a[1][1]
        if a[0] == 's' and a[1][0] == 'tv':
            return 'tv_' + a[1][1]
        if a[0] == 'frac':
            return 'fraction'
        if a[0] == 'lossy':
            return 'truncated value'
        if a[0] in ('fmul', 'fdiv'):
            return '%s%sfactor' % (at(a[1]), '*' if a[0] == 'fmul' else '/')
        return 'unknown'
    return ' + '.join(('%s*%s' % (c, at(a)) if c != 1 else at(a)) for a, c in sorted(p.items(), key=repr))[:300]


def fields(eng, o, ob):
    d = o.st.mem.get(ob, {})
    if 0 not in d or 8 not in d:
        return None
    return d[0][0], d[8][0]


def result_pair(eng, o):
    v = o.ret
    if v is None:
        return fields(eng, o, ('ret', 0))
    if v[0] == 'agg':
        return v[1][0], v[1][1]
    return None


def check_one(ctx, p, f, full, kind, want, text):
    cls = p.sname(f.name).rsplit('::', 1)[0]
    r, e, args, mem, pl = setup(p, f, cls)
    outs = [o for o in e.explore(f, args, (), mem=mem) if o.kind == 'ret']
    ctx.take(e, 'value')
    where = p.fwhere(f)
    if not outs:
        ctx.violation('value', where, full, 'never returns')
        return
    for o in outs:
        P = Poly(e, o.st)
        if kind == 'this':
            pr = fields(e, o, ('this', cls))
        elif kind in ('ret', 'pair', 'scale', 'abs'):
            pr = result_pair(e, o)
        else:
            pr = (None, o.ret)
        if pr is None:
            raise Broken('%s: the result could not be read' % full)
        got = {}
        if pr[0] is not None:
            P.add(got, pr[0], Fraction(G))
        P.add(got, pr[1], Fraction(1))
        got = P.fold(got)
        if isinstance(want, dict):
            exp = {}
            for a, c in want.items():
                if isinstance(a, tuple) and a[0] == 's':
                    P.add(exp, a, Fraction(c))
                else:
                    P.put(exp, a, Fraction(c))
        if kind == 'scale':
            err = 0
            rest = {}
            for a, c in got.items():
                if isinstance(a, tuple) and a[0] == 'frac':
                    err += abs(c)
                    # the nanoseconds are converted to a 32 bit number: they must be known to be less than a second
                    if a[2] != ('int', 64) and not small(dict(a[1])):
                        ctx.violation('value', where, full, 'a quotient or product of the nanoseconds which can exceed %d bits is converted' % a[2][1])
                else:
                    rest[a] = c
            fa = ('s', ('A', 2))
            exp = plus(({(want, sec_sym(1), fa): 1}, G), ({(want, nsec_sym(1), fa): 1}, 1))
            if rest != exp:
                ctx.violation('value', where, full, 'computes %s instead of %s (%s)' % (show(rest), text, show(exp)))
            elif err > 2:
                ctx.violation('value', where, full, 'loses up to %s ns of %s' % (err, text))
        elif kind == 'abs':
            pos, neg = {}, {}
            for a, c in V(1).items():
                P.add(pos, a, Fraction(c))
                P.add(neg, a, Fraction(-c))
            s1, n1 = e.interval(o.st, sec_sym(1), 64, True), e.interval(o.st, nsec_sym(1), 32, True)
            isneg = s1[1] < 0 or s1[1] <= 0 and n1[1] < 0
            ispos = s1[0] > 0 or s1[0] >= 0 and n1[0] >= 0
            if not isneg and not ispos:
                raise Broken('%s: the sign of the argument is not known' % full)
            if got != (neg if isneg else pos):
                ctx.violation('value', where, full, 'computes %s instead of %s' % (show(got), text))
                continue
        elif got != exp:
            ctx.violation('value', where, full, 'computes %s instead of %s, %s' % (show(got), text, show(want)))
            continue
        if kind in ('this', 'ret', 'scale', 'abs') and not normal(e, o.st, *pr):
            if not (kind == 'ret' and 'maxTime' in full and normal(e, o.st, *pr)):
                ctx.violation('normal', where, full, 'the result is not normalised')
        elif kind in ('this', 'ret', 'scale', 'abs'):
            ctx.ok('normal', full)
    ctx.ok('value', '%s: %s' % (full, text))


def small(d):
    """is the linear form a fraction of a second, i.e. G * frac(...)?"""
    fr = [(a, c) for a, c in d.items() if isinstance(a, tuple) and a[0] == 'frac']
    return len(d) == len(fr) == 1 and abs(fr[0][1]) <= G


def c01(ctx):
    p = ctx.load(['icl_core'], ['timing'])
    ctx.rule('value', 'every function of the time classes computes exactly the time it stands for (linear arithmetic over seconds and nanoseconds, exact integer division)')
    ctx.rule('normal', 'every time that is stored or returned is in normal form: less than a second of nanoseconds, with the sign of the seconds')
    ctx.rule('normalize', 'normalizeTime() keeps the value and ends in the normal form')
    seen = 0
    for n, f in sorted(p.funcs.items()):
        if f.name != n or f.lines is None or not p.in_repo(f) and 'icl_core::' not in p.fullname(n):
            continue
        if re.search(r'[CD]2E', n) and n.replace('C2E', 'C1E') in p.funcs:
            continue
        full = p.fullname(n).replace('(anonymous namespace)::', '')
        for rx, kind, want, text in SPEC:
            if rx.match(full):
                check_one(ctx, p, f, full, kind, want, text)
                seen += 1
                break
    ctx.need('value', 40)
    fs = one(p.find('icl_core::TimeBase::normalizeTime'), 'TimeBase::normalizeTime')
    for f in fs:
        r = LoopRule(p)
        e = Engine(p, r)
        ob = ('this', 'icl_core::TimeBase')
        full = p.fullname(f.name)
        outs = [o for o in e.explore(f, [('p', ob, 0)], (), mem={ob: {0: (('s', ('S', 0)), 8), 8: (('s', ('N0', 0)), 4)}}) if o.kind == 'ret']
        ctx.take(e, 'normalize')
        if not outs:
            ctx.violation('normalize', p.fwhere(f), full, 'never returns')
        for o in outs:
            if o.st.mon:
                ctx.violation('normalize', p.fwhere(f), full, 'changes the value by %s' % show(dict(o.st.mon)))
            s, nn = fields(e, o, ob)
            if not normal(e, o.st, s, nn):
                ctx.violation('normalize', p.fwhere(f), full, 'can end with seconds in %s and nanoseconds in %s' % (
                    e.interval(o.st, s, 64, True), e.interval(o.st, nn, 32, True)))
            ctx.ok('normalize', 'way out with seconds in %s, nanoseconds in %s' % (e.interval(o.st, s, 64, True), e.interval(o.st, nn, 32, True)))
    ctx.need('normalize', 1)
    ctx.rule('print', 'the numbers and units that are printed for a time span add up to it')
    printing(ctx, ctx.load(['icl_core', 'icl_core_logging'], ['timing']), 'print')
    ctx.need('print', 8)


# ------------------------------------------------------------------ printing
UNITS = {'d': 86400 * G, 'h': 3600 * G, 'm': 60 * G, 'min': 60 * G, 's': G, 'ms': 1000000, 'us': 1000, 'ns': 1}


def cstring(p, v):
    """contents of the string constant v points to"""
    if v[0] != 'p' or v[1][0] != 'g' or not isinstance(v[2], int):
        return None
    mod, gi = p.ginit(None if v[1][1][0] is None else next((m for m in p.modules if m.src == v[1][1][0]), None), v[1][1][1])
    if gi is None or not gi.get('init'):
        return None
    b = gi['init']
    if b[0] == 'zero':
        return ''
    if b[0] != 'str':
        return None
    s = bytes(b[1])[v[2]:]
    return s.split(b'\0')[0].decode('latin1')


class PrintRule(TimeRule):
    """mon = (sign, printed number without unit, sum of what was printed)"""

    def part(self, eng, st):
        return hash((frozenset(st.facts.items()), st.mon))

    def call(self, eng, st, ins, sname, fn, args):
        r = TimeRule.call(self, eng, st, ins, sname, fn, args)
        if r is not None:
            return r
        if sname.split('<')[0].endswith('operator') and '<<' in sname and len(args) == 2:
            sign, num, acc = st.mon
            if args[1][0] == ('ptr',):
                t = cstring(eng.p, args[1][1])
                if t is None:
                    eng.report(ins, 'a text which is not a constant is printed')
                elif t.strip() in ('-', '+') and num is None:
                    sign = -1 if t.strip() == '-' else 1
                elif t.strip() in UNITS and num is not None:
                    P = Poly(eng, st)
                    m = dict(acc)
                    k = UNITS[t.strip()]
                    # a number below the seconds carries its own sign
                    P.addp(m, P.of(num), k * (sign if k >= G else 1))
                    acc, num = P.key(m), None
                elif t.strip():
                    eng.report(ins, 'prints "%s" %s' % (t, 'which is not a unit of time' if num is not None else 'without a number'))
            else:
                if num is not None:
                    eng.report(ins, 'a number is printed without its unit')
                num = args[1][1]
            st.mon = (sign, num, acc)
            return [Outcome('ret', args[0][1], st)]
        return None


def residue_zero(eng, st, r):
    """Is r zero by the equalities among the path conditions (linear elimination)?"""
    if not r:
        return True
    P = Poly(eng, NoEq(st))
    zeros = []
    for v, b in list(st.facts.items()):
        d = {}
        if v[0] == 'rel' and b == frozenset('=') and len(v) >= 4:
            d = P.of(v[2])
            P.addp(d, P.of(v[3]), -1)
        elif v[0] == 'eq' and v[1][0] in ('x', 's') and isinstance(b, int) and v[1][1] not in ('icmp', 'and', 'or', 'not', 'xor'):
            d = P.of(v[1])
            P.put(d, 1, Fraction(-b))
        if d:
            zeros.append(d)
    rows = []
    r = {a: Fraction(c) for a, c in r.items()}
    for z in zeros + [None]:
        cur = dict(z if z is not None else r)
        for pv, row in rows:
            if pv in cur:
                P.addp(cur, row, -cur[pv] / row[pv])
        if z is None:
            return not cur
        piv = [a for a in cur if a != 1]
        if piv:
            rows.append((min(piv, key=repr), cur))
            # keep the rows reduced by each other
            pv, row = rows[-1]
            for n, (q, other) in enumerate(rows[:-1]):
                if pv in other:
                    P.addp(other, row, -other[pv] / row[pv])


class NoEq(object):
    """A state without the equalities (to look at an expression which is known to be zero)."""

    def __init__(self, st):
        self.facts = {k: v for k, v in st.facts.items() if k[0] != 'eq'}
        self.mem = st.mem


def printing(ctx, p, rule):
    seen = 0
    for n, f in sorted(p.funcs.items()):
        full = p.fullname(n)
        if f.name != n or f.lines is None or not re.match(r'^icl_core::(logging::)?operator<<\(.*, icl_core::TimeSpan const&\)$', full):
            continue
        r, e, args, mem, pl = setup(p, f, '')
        pr = PrintRule(p)
        e = Engine(p, pr)
        # the time span is the second argument
        mem = {('arg', 2): time_mem(1)}
        outs = [o for o in e.explore(f, [('p', ('arg', 1), 0), ('p', ('arg', 2), 0)], (1, None, ()), mem=mem) if o.kind == 'ret']
        ctx.take(e, rule)
        for o in outs:
            sign, num, acc = o.st.mon
            P = Poly(e, o.st)
            want = {}
            P.add(want, sec_sym(1), Fraction(G))
            P.add(want, nsec_sym(1), Fraction(1))
            left = dict(want)
            P.addp(left, dict(acc), -1)
            if num is not None:
                ctx.violation(rule, p.fwhere(f), full, 'a number is printed without its unit')
            elif not residue_zero(e, o.st, left):
                ctx.violation(rule, p.fwhere(f), full, 'what is printed differs from the time span by %s' % show(left))
            else:
                ctx.ok(rule, '%s: %s' % (full, show(dict(acc))))
        seen += 1
    if seen < 2:
        raise Broken('the output operators of TimeSpan were not found')


# ---------------------------------------------------------------- comparison
REL = {'<': 'slt', '=': 'eq', '>': 'sgt'}
OPS = {'==': lambda c: c == 0, '!=': lambda c: c != 0, '<': lambda c: c < 0, '>': lambda c: c > 0,
       '<=': lambda c: c <= 0, '>=': lambda c: c >= 0}


def c02(ctx):
    p = ctx.load(['icl_core'], ['timing'])
    ctx.rule('order', 'for each of the nine orders of the seconds and the nanoseconds of two times, every comparison operator has the result of the lexicographic order')
    for n, f in sorted(p.funcs.items()):
        full = p.fullname(n)
        m = re.match(r'^(%s)::operator(==|!=|<|>|<=|>=)\(%s\) const$' % (CLS, O), full)
        if f.name != n or f.lines is None or not m:
            continue
        cls, op = m.groups()
        cases = 0
        for rs in '<=>':
            for rn in '<=>':
                e = Engine(p, TimeRule(p))
                st = e_state()
                if not (e.assume_icmp(st, REL[rs], sec_sym(T), sec_sym(1), 64) and
                        e.assume_icmp(st, REL[rn], nsec_sym(T), nsec_sym(1), 32)):
                    raise Broken('the order of two times could not be assumed')
                mem = {('this', cls): time_mem(T), ('arg', 1): time_mem(1)}
                want = OPS[op]((-1 if rs == '<' else 1) if rs != '=' else '<=>'.index(rn) - 1)
                outs = [o for o in e.explore(f, [('p', ('this', cls), 0), ('p', ('arg', 1), 0)], (), mem=mem, facts=st.facts) if o.kind == 'ret']
                ctx.take(e, 'order')
                case = 'seconds %s, nanoseconds %s' % (rs, rn)
                if not outs:
                    ctx.violation('order', p.fwhere(f), full, 'never returns when %s' % case)
                for o in outs:
                    v = e.norm(o.st, o.ret)
                    if v[0] != 'i':
                        d = e.decide(o.st, v)
                        if d is None:
                            raise Broken('%s: the result is not known for %s' % (full, case))
                        v = I(int(d))
                    if bool(v[1] & 1) != want:
                        ctx.violation('order', p.fwhere(f), full, 'is %s when this has %s than the other' % (
                            str(not want).lower(), case), key='%s %s%s' % (full, rs, rn))
                    else:
                        cases += 1
        if cases == 9:
            ctx.ok('order', full)
    ctx.need('order', 18)


def e_state():
    from ..absint import State
    return State()
