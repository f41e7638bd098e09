"""Path-sensitive abstract interpretation (property simulation) over LLVM IR.

The interpreter computes, for one analysed entry function, the set of abstract
states at every program point by a work-list iteration.  Functions of the
repository are analysed context sensitively (the call is replaced by the
summary of the callee for the abstract input state); every other function is
an opaque event.  Abstract states consist of

  regs    SSA register  -> abstract value   (current activation only)
  mem     object -> offset -> (value, size)
  facts   what the branches taken so far say about opaque values
  mon     the state of the property automaton of the rule

There is no solver: facts are intervals, excluded constants and the three
possible orderings of two values.  Loops converge because symbols are named
after the allocation/definition site; after JOIN_LIMIT different states at one
block, states which agree on the property automaton are joined and widened.
"""
import re
from .llparse import ParseError

INF = float('inf')


class AnalysisLimit(Exception):
    eng = None


class Unsupported(Exception):
    pass


def I(n):
    return ('i', n)


NULL = ('i', 0)
UNK = ('u',)

SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
RELS = {'eq': frozenset('='), 'ne': frozenset('<>'), 'slt': frozenset('<'), 'sgt': frozenset('>'),
        'sle': frozenset('<='), 'sge': frozenset('>='), 'ult': frozenset('<'), 'ugt': frozenset('>'),
        'ule': frozenset('<='), 'uge': frozenset('>=')}
ALLREL = frozenset('<=>')


def width_mask(w):
    return (1 << w) - 1


def to_signed(n, w):
    n &= width_mask(w)
    return n - (1 << w) if n >> (w - 1) else n


def to_unsigned(n, w):
    return n & width_mask(w)


class State(object):
    __slots__ = ('regs', 'mem', 'ver', 'facts', 'mon', 'defd')

    def __init__(self):
        self.regs = {}
        self.mem = {}
        self.ver = {}
        self.facts = {}
        self.mon = None
        self.defd = frozenset()

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)      # inner dicts are copy-on-write
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.defd = self.defd
        return s

    def key(self, live=None):
        if live is None:
            r = frozenset(self.regs.items())
        else:
            r = frozenset((k, v) for k, v in self.regs.items() if k in live)
        return (r, frozenset((o, frozenset(d.items())) for o, d in self.mem.items()),
                frozenset(self.ver.items()), frozenset(self.facts.items()), self.mon)


class Outcome(object):
    __slots__ = ('kind', 'ret', 'st', 'exc')

    def __init__(self, kind, ret, st, exc=None):
        self.kind = kind        # 'ret' | 'throw' | 'stop'
        self.ret = ret
        self.st = st
        self.exc = exc


class Violation(Exception):
    pass


class Rule(object):
    """Base class of the property automata.  Hooks return None for the default."""
    opaque = ()             # short names of repo functions treated as opaque events
    max_depth = 10
    max_steps = 400000
    join_limit = 48
    split_bools = False
    recursion = 0           # how often a function on the stack is followed again
    exceptions = False

    def inline(self, eng, fn, sname):
        return True

    def call(self, eng, st, ins, sname, fn, args):
        return None

    def after_call(self, eng, st, ins, sname, fn, args, ret):
        pass

    def load(self, eng, st, ins, ptr, size):
        return None

    def store(self, eng, st, ins, ptr, val, size):
        return None

    def ret(self, eng, st, ins, fn, val):
        pass

    def enter(self, eng, st, ins, fn, args):
        pass

    def volatile(self, eng, st, ptr):
        return False

    def join_facts(self, eng, a, b, j, ren):
        """ren: (joined symbol, value in a, value in b); may add facts to j"""

    def part(self, eng, st):
        """States are only joined when they agree on this (and on mon)."""
        return None


# External functions which do not modify memory reachable from their arguments.
READONLY = re.compile(
    r'(::(size|length|empty|capacity|max_size|begin|end|cbegin|cend|rbegin|rend|c_str|data|front|back|at|find|rfind|count|'
    r'find_first_of|find_last_of|find_first_not_of|find_last_not_of|substr|compare|good|eof|fail|bad|is_open|rdstate|what|'
    r'lower_bound|upper_bound|operator bool|operator!|operator\*|operator->|operator==|operator!=|operator\[\]|px|get|'
    r'total_seconds|count|str|_M_data|_M_get_Tp_allocator|native|string|extension|filename|tellg)$)'
    r'|^(strlen|strcmp|strncmp|strcasecmp|strncasecmp|memcmp|strchr|strrchr|strstr|atoi|atof|atol|printf|puts|fputs|fprintf|syslog|'
    r'pthread_self|isdigit|isspace|isalpha|tolower|toupper|rename|unlink|open|fopen|access|mkdir|rmdir|dlsym|dlopen|llvm\.\S+|__errno_location|'
    r'__clang_call_terminate|std::terminate|abort|exit|_exit|pthread_create|pow|sqrt|floor|ceil)$')


class Engine(object):
    def __init__(self, prog, rule):
        self.p = prog
        self.rule = rule
        self.expr_depth = getattr(rule, 'expr_depth', 7)
        self.nsw = getattr(rule, 'nsw', False)
        self.ptr_join = getattr(rule, 'ptr_join', False)
        rule.eng = self
        self.paths = {(): 0}
        self.path_parent = [(-1, -1, None)]
        self.live_cache = {}
        self.steps = 0
        self.stack = []
        self.findings = {}
        self.visited_fns = set()
        self.visited_calls = set()
        self.notes = []
        self.memo = {}
        self._const_cache = {}

    # ------------------------------------------------------------------
    def report(self, ins, msg, fn=None, key=None, what=None):
        """Registers a violation found at an instruction (or function)."""
        if ins is not None:
            where = self.p.where(ins)
            f = ins.fn
        else:
            f = fn
            where = self.p.fwhere(fn)
        name = self.p.fullname(f.name)
        chain = [self.p.sname(x[0].name) for x in self.stack]
        k = key or (name, where, msg)
        if k not in self.findings:
            self.findings[k] = {'where': where, 'function': name, 'message': msg, 'path': chain, 'what': what}
        return None

    # ------------------------------------------------------------------ paths
    def subpath(self, path, idx, fn):
        k = (path, idx, fn.name)
        r = self.paths.get(k)
        if r is None:
            r = len(self.path_parent)
            self.paths[k] = r
            self.path_parent.append((path, idx, fn))
        return r

    def under(self, path, base, idx):
        """Is `path` inside (or below) the call at instruction idx of activation base?"""
        while path > 0:
            pp, pi, _ = self.path_parent[path]
            if pp == base and pi == idx:
                return True
            path = pp
        return False

    # ------------------------------------------------------------------ liveness
    def liveness(self, fn):
        r = self.live_cache.get(fn)
        if r is not None:
            return r
        blocks = fn.blocks
        use = {}
        dfn = {}
        succ = {}
        phiuse = {}

        def regs_of(v, acc):
            if v[0] == 'r':
                acc.add(v[1])
            elif v[0] in ('agg', 'ce'):
                for x in v[1:]:
                    if isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple):
                                regs_of(y[1], acc)
        for l, ins in blocks.items():
            u = set()
            d = set()
            s = []
            for i in ins:
                acc = set()
                if i.op == 'phi':
                    for v, lab in i.x:
                        a2 = set()
                        regs_of(v, a2)
                        phiuse.setdefault(lab, set()).update(a2)
                elif i.op in ('call', 'invoke'):
                    regs_of(i.x['callee'], acc)
                    for t, v in i.x['args']:
                        if v[0] != 'md':
                            regs_of(v, acc)
                    if i.op == 'invoke':
                        s += [i.x['normal'], i.x['unwind']]
                elif i.op == 'gep':
                    for t, v in i.ops:
                        regs_of(v, acc)
                else:
                    for v in i.ops:
                        regs_of(v, acc)
                if i.op == 'br':
                    s += i.x
                elif i.op == 'switch':
                    s.append(i.x[0])
                    s += [c[1] for c in i.x[1]]
                u |= acc - d
                if i.res:
                    d.add(i.res)
            use[l], dfn[l], succ[l] = u, d, s
        live = {l: set(use[l]) for l in blocks}
        ch = True
        order = list(blocks)[::-1]
        while ch:
            ch = False
            for l in order:
                out = set(phiuse.get(l, ()))
                for s in succ[l]:
                    out |= live[s]
                n = use[l] | (out - dfn[l])
                if n != live[l]:
                    live[l] = n
                    ch = True
        # phi results are defined at block entry; they are not in live-in
        preds = {}
        for l, ss in succ.items():
            for s in ss:
                preds.setdefault(s, []).append(l)
        # reverse post order numbers
        rpo = {}
        seen = set()
        post = []
        stack = [(fn.entry, iter(succ[fn.entry]))]
        seen.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        for n, b in enumerate(reversed(post)):
            rpo[b] = n
        r = (live, succ, preds, rpo)
        self.live_cache[fn] = r
        return r

    # ------------------------------------------------------------------ values
    def val(self, st, v, mod):
        k = v[0]
        if k == 'r':
            r = st.regs.get(v[1])
            if r is None:
                raise Unsupported('register %s undefined' % v[1])
            return r
        if k == 'i':
            return v
        if k == 'g':
            return ('p', ('g', self._gkey(mod, v[1])), 0)
        if k == 'zero':
            return ('i', 0)
        if k == 'undef':
            return ('undef',)
        if k == 'fl':
            return ('fl', v[1])
        if k == 'ce':
            if v[1] == 'getelementptr':
                st2, ops = v[2], v[3]
                base = self.val(st, ops[0][1], mod)
                return self.gep(st, base, st2, [(t, self.val(st, o, mod)) for t, o in ops[1:]], mod)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.val(st, v[3], mod)
            return UNK
        if k == 'agg':
            return ('agg', tuple(self.val(st, x, mod) for t, x in v[1]))
        if k == 'md':
            return v
        return UNK

    def _gkey(self, mod, name):
        if name in mod.funcs and mod.funcs[name].linkage in ('internal', 'private'):
            return (mod.src, name)
        t = mod.globals.get(name)
        if t is not None and t.startswith(('private', 'internal')):
            return (mod.src, name)
        return (None, name)

    def gmod(self, gk):
        if gk[0] is None:
            d = self.p.gdefs.get(gk[1])
            return d[0] if d else None
        for m in self.p.modules:
            if m.src == gk[0]:
                return m
        return None

    def as_ptr(self, v):
        """(obj, off) of a pointer value, or None for null / unknown"""
        if v[0] == 'p':
            return v[1], v[2]
        if v[0] in ('s', 'x'):
            return ('o', v), 0
        return None

    def gep(self, st, base, sty, idxs, mod):
        off = 0
        t = sty
        sym = None
        for n, (it, v) in enumerate(idxs):
            if n == 0:
                es = mod.size(t)
            else:
                t = mod.resolve(t)
                if t[0] == 'struct':
                    offs, _ = mod.layout(t)
                    off += offs[v[1]]
                    t = t[2][v[1]]
                    continue
                t = t[2]
                es = mod.size(t)
            v = self.norm(st, v)
            if v[0] == 'i':
                w = it[1] if it[0] == 'int' else 64
                off += to_signed(v[1], w) * es
            else:
                term = ('x', 'mul', v, I(es), 64) if es != 1 else v
                sym = term if sym is None else self.binop(st, 'add', sym, term, 64, None)
        b = self.norm(st, base)
        if b[0] == 'p':
            bo, boff = b[1], b[2]
        elif b[0] in ('s', 'x'):
            if sym is None and off == 0:
                return b
            bo, boff = ('o', b), 0
        elif b[0] == 'i':
            if sym is None:
                return ('i', b[1] + off)
            return UNK
        else:
            return UNK
        if sym is None and isinstance(boff, int):
            noff = boff + off
            if bo[0] == 'o' and noff == 0:
                return bo[1]
            return ('p', bo, noff)
        # symbolic offset
        if isinstance(boff, int):
            tot = off + boff
            so = sym
        elif boff is None:
            return ('p', bo, None)
        else:
            so, tot = boff[1], boff[2] + off
            if sym is not None:
                so = self.binop(st, 'add', so, sym, 64, None)
        if so[0] == 'i':
            return ('p', bo, to_signed(so[1], 64) + tot)
        return ('p', bo, ('so', so, tot))

    def offv(self, v):
        """offset of a pointer as a value"""
        if isinstance(v[2], int):
            return I(v[2])
        if v[2][2] == 0:
            return v[2][1]
        return ('x', 'add', v[2][1], I(v[2][2]), 64)

    def same_obj(self, a, b):
        return a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and a[2] is not None and b[2] is not None and not (
            isinstance(a[2], int) and isinstance(b[2], int))

    def depth(self, v):
        d = 0
        if v[0] == 'x':
            for y in v[2:]:
                if isinstance(y, tuple):
                    d = max(d, self.depth(y))
            return d + 1
        return 0

    def norm(self, st, v):
        """Substitutes what the facts say is a constant."""
        if v[0] in ('s', 'x'):
            f = st.facts.get(('eq', v))
            if f is not None:
                return ('i', f)
        return v

    def binop(self, st, op, a, b, w, ins):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if a[0] == 'i' and b[0] == 'i':
            r = self.fold(op, a[1], b[1], w)
            if r is not None:
                return I(r)
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'i' and b[0] != 'i':
            a, b = b, a
        if b[0] == 'i':
            c = to_unsigned(b[1], w)
            if c == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if c == 0 and op in ('mul', 'and'):
                return I(0)
            if c == 1 and op in ('mul', 'sdiv', 'udiv'):
                return a
            if w == 1 and op == 'xor':
                return self.bnot(a)
            if w == 1 and op == 'and':
                return a if c else I(0)
            if w == 1 and op == 'or':
                return I(1) if c else a
            if op == 'sub':
                op, b = 'add', I(to_signed(-b[1], w))
            if op == 'add':
                b = I(to_signed(b[1], w))
                if a[0] == 'p' and isinstance(a[2], int):
                    return ('p', a[1], a[2] + b[1])
                if a[0] == 'x' and a[1] == 'add' and a[3][0] == 'i' and a[4] == w:
                    c2 = to_signed(a[3][1] + b[1], w)
                    if c2 == 0:
                        return a[2]
                    return ('x', 'add', a[2], I(c2), w)
            elif op != 'add':
                b = I(b[1])
        if op == 'sub':
            if a == b and a[0] in ('s', 'x', 'p'):
                return I(0)
            if self.same_obj(a, b):
                return self.binop(st, 'sub', self.offv(a), self.offv(b), 64, ins)
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                return I(a[2] - b[2])
        if w == 1 and op in ('and', 'or') and a == b:
            return a
        if a[0] in ('u', 'undef') or b[0] in ('u', 'undef'):
            return self.fresh(ins)
        r = ('x', op, a, b, w)
        if self.depth(r) > self.expr_depth:
            return self.fresh(ins)
        if self.nsw and op in ('add', 'sub', 'mul') and ins is not None and ' nsw ' in (ins.text or ''):
            self.no_overflow(st, r, w)
        return r

    def no_overflow(self, st, r, w):
        """Records that the signed operation r does not overflow."""
        a, b = self.interval(st, r[2], w, True), self.interval(st, r[3], w, True)
        if r[1] == 'add':
            x = (a[0] + b[0], a[1] + b[1])
        elif r[1] == 'sub':
            x = (a[0] - b[1], a[1] - b[0])
        else:
            c = [i * j for i in a for j in b]
            x = (min(c), max(c))
        lo, hi = self.interval(st, r, w, True)
        if max(lo, x[0]) > lo or min(hi, x[1]) < hi:
            if max(lo, x[0]) <= min(hi, x[1]):
                st.facts[('ivs', r, w)] = (max(lo, x[0]), min(hi, x[1]))

    def fresh(self, ins, tag='e'):
        if ins is None:
            return UNK
        return ('s', (tag, self.cur_path, ins.idx))

    def bnot(self, v):
        if v[0] == 'i':
            return I(1 - (v[1] & 1))
        if v[0] == 'x' and v[1] == 'not':
            return v[2]
        if v[0] == 'x' and v[1] == 'icmp':
            return ('x', 'icmp', NEG[v[2]], v[3], v[4], v[5])
        return ('x', 'not', v)

    @staticmethod
    def fold(op, a, b, w):
        ua, ub = to_unsigned(a, w), to_unsigned(b, w)
        sa, sb = to_signed(a, w), to_signed(b, w)
        if op == 'add':
            r = ua + ub
        elif op == 'sub':
            r = ua - ub
        elif op == 'mul':
            r = ua * ub
        elif op == 'and':
            r = ua & ub
        elif op == 'or':
            r = ua | ub
        elif op == 'xor':
            r = ua ^ ub
        elif op == 'shl':
            r = ua << ub if ub < w else 0
        elif op == 'lshr':
            r = ua >> ub if ub < w else 0
        elif op == 'ashr':
            r = sa >> ub if ub < w else (-1 if sa < 0 else 0)
        elif op == 'udiv':
            if ub == 0:
                return None
            r = ua // ub
        elif op == 'urem':
            if ub == 0:
                return None
            r = ua % ub
        elif op == 'sdiv':
            if sb == 0:
                return None
            r = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                r = -r
        elif op == 'srem':
            if sb == 0:
                return None
            r = abs(sa) % abs(sb)
            if sa < 0:
                r = -r
        else:
            return None
        r = to_unsigned(r, w)
        return to_signed(r, w) if w > 1 else r

    # ------------------------------------------------------------------ intervals
    def interval(self, st, v, w, signed):
        """(lo, hi) of v as a signed/unsigned w-bit number"""
        v = self.norm(st, v)
        if signed:
            full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        else:
            full = (0, (1 << w) - 1)
        if v[0] == 'i':
            n = to_signed(v[1], w) if signed else to_unsigned(v[1], w)
            return (n, n)
        lo, hi = full
        f = st.facts.get(('ivs' if signed else 'ivu', v, w))
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        # the other signedness
        f = st.facts.get(('ivu' if signed else 'ivs', v, w))
        if f and f[0] >= 0 and f[1] <= (1 << (w - 1)) - 1:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        if w < 64:
            # what is known about its extension
            for op, sg in (('sext', True), ('zext', False)):
                e = ('x', op, v, w, 64)
                for k in ('ivs', 'ivu'):
                    f = st.facts.get((k, e, 64))
                    if f and (k == 'ivs' or f[1] < 1 << 63) and (sg == signed or f[0] >= 0 and f[1] < 1 << (w - 1)):
                        lo, hi = max(lo, f[0]), min(hi, f[1])
        if v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'rng':
            lo, hi = max(lo, v[1][2]), min(hi, v[1][3])
        if v[0] == 'x':
            op = v[1]
            if op in ('zext', 'sext') and v[3] < w:
                a = self.interval(st, v[2], v[3], op == 'sext')
                if signed or a[0] >= 0:
                    lo, hi = max(lo, a[0]), min(hi, a[1])
            elif op == 'icmp' or op == 'not':
                d = self.decide(st, v)
                if d is not None:
                    d = (-1 if signed and w == 1 else 1) if d else 0
                    return (d, d)
                if not (signed and w == 1):
                    lo, hi = max(lo, 0), min(hi, 1)
            elif op in ('add', 'sub', 'mul') and v[4] == w:
                a = self.interval(st, v[2], w, signed)
                if op == 'add' and v[3][0] == 'i':
                    c = to_signed(v[3][1], w)
                    b = (c, c)
                else:
                    b = self.interval(st, v[3], w, signed)
                if op == 'add':
                    r = (a[0] + b[0], a[1] + b[1])
                elif op == 'sub':
                    r = (a[0] - b[1], a[1] - b[0])
                else:
                    c = [x * y for x in a for y in b]
                    r = (min(c), max(c))
                if r[0] >= full[0] and r[1] <= full[1]:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
            elif op == 'urem' and v[3][0] == 'i' and v[3][1] > 0:
                lo, hi = max(lo, 0), min(hi, v[3][1] - 1)
            elif op == 'srem' and v[3][0] == 'i' and v[3][1] != 0:
                m = abs(to_signed(v[3][1], w)) - 1
                a = self.interval(st, v[2], w, True)
                r = (0 if a[0] >= 0 else -m, 0 if a[1] <= 0 else m)
                if signed or r[0] >= 0:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
            elif op == 'and' and v[3][0] == 'i':
                c = to_unsigned(v[3][1], w)
                if c <= full[1]:
                    lo, hi = max(lo, 0), min(hi, c)
            elif op in ('udiv', 'sdiv') and v[3][0] == 'i' and to_signed(v[3][1], w) > 0:
                c = to_signed(v[3][1], w)
                a = self.interval(st, v[2], w, op == 'sdiv')
                if signed == (op == 'sdiv') or a[0] >= 0:
                    q = lambda n: n // c if n >= 0 else -((-n) // c)
                    r = (q(a[0]), q(a[1]))
                    lo, hi = max(lo, r[0]), min(hi, r[1])
            elif op == 'lshr' and v[3][0] == 'i':
                a = self.interval(st, v[2], w, False)
                r = (a[0] >> v[3][1], a[1] >> v[3][1])
                if r[1] <= full[1]:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
        return (lo, hi)

    # ------------------------------------------------------------------ branching
    def nonnull(self, v):
        return v[0] == 'p' and (v[1][0] in ('a', 'h', 'g', 'this', 'arg') or not (isinstance(v[2], int) and v[2] == 0))

    def decide(self, st, v):
        """True / False / None"""
        v = self.norm(st, v)
        if v[0] == 'i':
            return bool(v[1] & 1)
        if v[0] == 'x':
            if v[1] == 'not':
                r = self.decide(st, v[2])
                return None if r is None else (not r)
            if v[1] == 'icmp':
                return self.decide_icmp(st, v[2], v[3], v[4], v[5])
            if v[1] == 'and' and v[4] == 1:
                a, b = self.decide(st, v[2]), self.decide(st, v[3])
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if v[1] == 'or' and v[4] == 1:
                a, b = self.decide(st, v[2]), self.decide(st, v[3])
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return None
        return None

    def decide_icmp(self, st, pred, a, b, w):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if self.same_obj(a, b):
            return self.decide_icmp(st, pred.replace('u', 's') if pred[0] == 'u' else pred, self.offv(a), self.offv(b), 64)
        if a[0] == 'i' and b[0] == 'i':
            signed = pred[0] == 's'
            x = to_signed(a[1], w) if signed else to_unsigned(a[1], w)
            y = to_signed(b[1], w) if signed else to_unsigned(b[1], w)
            rel = '<' if x < y else ('=' if x == y else '>')
            return rel in RELS[pred]
        if a[0] == 'i':
            a, b, pred = b, a, SWAP[pred]
        hook = getattr(self.rule, 'decide_icmp', None)
        if hook:
            r = hook(self, st, pred, a, b, w)
            if r is not None:
                return r
        if b[0] == 'i':
            # pointers
            if to_unsigned(b[1], w) == 0 and pred in ('eq', 'ne') and self.nonnull(a):
                return pred == 'ne'
            # zext of a narrower value
            if a[0] == 'x' and a[1] == 'zext' and pred in ('eq', 'ne') :
                c = to_unsigned(b[1], w)
                if c <= width_mask(a[3]):
                    if a[3] == 1:
                        r = self.decide(st, a[2])
                        if r is None:
                            return None
                        return (int(r) == c) == (pred == 'eq')
                    return self.decide_icmp(st, pred, a[2], I(c), a[3])
            c = to_unsigned(b[1], w)
            if pred in ('eq', 'ne'):
                ne = st.facts.get(('ne', a))
                if ne and c in ne:
                    return pred == 'ne'
            for signed in ((True, False) if pred in ('eq', 'ne') else (pred[0] == 's',)):
                lo, hi = self.interval(st, a, w, signed)
                y = to_signed(b[1], w) if signed else c
                rel = set()
                if lo < y:
                    rel.add('<')
                if lo <= y <= hi:
                    rel.add('=')
                if hi > y:
                    rel.add('>')
                if pred in ('eq', 'ne'):
                    if '=' not in rel:
                        return pred == 'ne'
                    if lo == hi == y:
                        return pred == 'eq'
                else:
                    rs = RELS[pred]
                    if rel <= rs:
                        return True
                    if not (rel & rs):
                        return False
            return None
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                x, y = a[2], b[2]
                rel = '<' if x < y else ('=' if x == y else '>')
                return rel in RELS[pred]
            if pred in ('eq', 'ne') and a[1] != b[1] and a[1][0] in ('a', 'h', 'g') and b[1][0] in ('a', 'h', 'g', 'this'):
                return pred == 'ne'
        if a == b and a[0] in ('s', 'x', 'p') and not self._isold(a):
            return '=' in RELS[pred]
        # stored relation
        k, sw = self._relkey(a, b)
        rel = ALLREL
        for sg in (('s', 'u') if pred in ('eq', 'ne') else (pred[0],)):
            f = st.facts.get(('rel', sg) + k)
            if f is not None:
                r = f if not sw else frozenset({'<': '>', '>': '<', '=': '='}[c] for c in f)
                rel = rel & r if sg == pred[0] or pred in ('eq', 'ne') and ('=' not in r or r == frozenset('=')) else rel
        rs = RELS[pred]
        if rel <= rs:
            return True
        if not (rel & rs):
            return False
        # linear reasoning through intervals
        if pred in ('eq', 'ne'):
            lo, hi = self.interval(st, a, w, True)
            lo2, hi2 = self.interval(st, b, w, True)
            if hi < lo2 or hi2 < lo:
                return pred == 'ne'
        else:
            sg = pred[0] == 's'
            lo, hi = self.interval(st, a, w, sg)
            lo2, hi2 = self.interval(st, b, w, sg)
            p = pred[1:]
            if p == 'lt':
                if hi < lo2:
                    return True
                if lo >= hi2:
                    return False
            elif p == 'le':
                if hi <= lo2:
                    return True
                if lo > hi2:
                    return False
            elif p == 'gt':
                if lo > hi2:
                    return True
                if hi <= lo2:
                    return False
            elif p == 'ge':
                if lo >= hi2:
                    return True
                if hi < lo2:
                    return False
        return None

    def _isold(self, v):
        if v[0] == 's':
            return isinstance(v[1], tuple) and v[1] and v[1][0] == 'old'
        if v[0] == 'x':
            return any(isinstance(y, tuple) and self._isold(y) for y in v[2:])
        if v[0] == 'p':
            return v[1][0] == 'o' and self._isold(v[1][1])
        return False

    def _relkey(self, a, b):
        ra, rb = repr(a), repr(b)
        if ra <= rb:
            return (a, b), False
        return (b, a), True

    def assume(self, st, v, truth):
        """Adds the fact v == truth; returns False when contradictory."""
        v = self.norm(st, v)
        if v[0] == 'i':
            return bool(v[1] & 1) == truth
        d = self.decide(st, v)
        if d is not None:
            return d == truth
        if v[0] == 'x':
            if v[1] == 'not':
                return self.assume(st, v[2], not truth)
            if v[1] == 'icmp':
                pred = v[2] if truth else NEG[v[2]]
                return self.assume_icmp(st, pred, v[3], v[4], v[5])
            if v[1] == 'and' and v[4] == 1 and truth:
                return self.assume(st, v[2], True) and self.assume(st, v[3], True)
            if v[1] == 'or' and v[4] == 1 and not truth:
                return self.assume(st, v[2], False) and self.assume(st, v[3], False)
            st.facts[('eq', v)] = int(truth)
            return True
        if v[0] == 's':
            st.facts[('eq', v)] = int(truth)
        return True

    def assume_icmp(self, st, pred, a, b, w):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if self.same_obj(a, b):
            return self.assume_icmp(st, pred.replace('u', 's') if pred[0] == 'u' else pred, self.offv(a), self.offv(b), 64)
        if a[0] == 'i' and b[0] != 'i':
            a, b, pred = b, a, SWAP[pred]
        if b[0] == 'i':
            if a[0] == 'x' and a[1] == 'zext' and pred in ('eq', 'ne'):
                c = to_unsigned(b[1], w)
                if a[3] == 1 and c in (0, 1):
                    return self.assume(st, a[2], (c == 1) == (pred == 'eq'))
                if c <= width_mask(a[3]):
                    return self.assume_icmp(st, pred, a[2], I(c), a[3])
            if a[0] not in ('s', 'x'):
                return True
            c = to_unsigned(b[1], w)
            if pred == 'eq':
                st.facts[('eq', a)] = b[1]
                # x + c == k  =>  x == k - c
                if a[0] == 'x' and a[1] == 'add' and a[3][0] == 'i' and a[4] == w and a[2][0] in ('s', 'x'):
                    st.facts[('eq', a[2])] = to_signed(b[1] - a[3][1], w)
                return True
            if pred == 'ne':
                st.facts[('ne', a)] = st.facts.get(('ne', a), frozenset()) | {c}
                for sg in (True, False):
                    lo, hi = self.interval(st, a, w, sg)
                    y = to_signed(b[1], w) if sg else c
                    if lo == y:
                        st.facts[('ivs' if sg else 'ivu', a, w)] = (lo + 1, hi)
                    elif hi == y:
                        st.facts[('ivs' if sg else 'ivu', a, w)] = (lo, hi - 1)
                return True
            sg = pred[0] == 's'
            y = to_signed(b[1], w) if sg else c
            lo, hi = self.interval(st, a, w, sg)
            p = pred[1:]
            if p == 'lt':
                hi = min(hi, y - 1)
            elif p == 'le':
                hi = min(hi, y)
            elif p == 'gt':
                lo = max(lo, y + 1)
            elif p == 'ge':
                lo = max(lo, y)
            ne = st.facts.get(('ne', a), ())
            while ne and lo <= hi and to_unsigned(lo, w) in ne:
                lo += 1
            while ne and lo <= hi and to_unsigned(hi, w) in ne:
                hi -= 1
            if lo > hi:
                return False
            st.facts[('ivs' if sg else 'ivu', a, w)] = (lo, hi)
            if lo == hi:
                st.facts[('eq', a)] = to_signed(lo, w) if w > 1 else lo
            if a[0] == 'x' and a[1] in ('zext',) :
                pass
            return True
        if a[0] in ('u', 'undef') or b[0] in ('u', 'undef'):
            return True
        k, sw = self._relkey(a, b)
        rs = RELS[pred]
        if sw:
            rs = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in rs)
        for sg in (('s', 'u') if pred in ('eq', 'ne') else (pred[0],)):
            cur = st.facts.get(('rel', sg) + k, ALLREL)
            n = cur & rs
            if not n:
                return False
            st.facts[('rel', sg) + k] = n
        if pred not in ('eq', 'ne'):
            sg = pred[0] == 's'
            for x, y, p in ((a, b, pred), (b, a, SWAP[pred])):
                lo, hi = self.interval(st, x, w, sg)
                lo2, hi2 = self.interval(st, y, w, sg)
                if p[1:] == 'lt':
                    hi = min(hi, hi2 - 1)
                elif p[1:] == 'le':
                    hi = min(hi, hi2)
                elif p[1:] == 'gt':
                    lo = max(lo, lo2 + 1)
                elif p[1:] == 'ge':
                    lo = max(lo, lo2)
                if lo > hi:
                    return False
                if x[0] in ('s', 'x'):
                    st.facts[('ivs' if sg else 'ivu', x, w)] = (lo, hi)
        return True

    def split(self, st, cond):
        """[(truth, state)] for a branch on cond"""
        d = self.decide(st, cond)
        if d is not None:
            return [(d, st)]
        out = []
        for t in (True, False):
            s = st.copy()
            if self.assume(s, cond, t):
                out.append((t, s))
        return out

    # ------------------------------------------------------------------ memory
    def mload(self, st, ptr, size, ins):
        p = self.as_ptr(ptr)
        if p is None:
            return self.fresh(ins)
        obj, off = p
        if not isinstance(off, int):
            return self.fresh(ins, 'r')
        if obj[0] == 'g':
            m = self.gmod(obj[1])
            if m is not None:
                gm, gi = self.p.ginit(m, obj[1][1])
                if gi and gi['const'] and gi.get('init') is not None and not gi.get('alias'):
                    try:
                        c = self.p.read_const(gm, gi['ty'], gi['init'], off)
                    except (ParseError, IndexError):
                        c = None
                    if c is not None and c[0] in ('i', 'g', 'ce', 'zero', 'fl'):
                        return self.val(st, c, gm)
        d = st.mem.get(obj)
        if d is not None:
            e = d.get(off)
            if e is not None:
                if e[1] == size:
                    return e[0]
                if e[0][0] == 'i' and size < e[1]:
                    return I(e[0][1] & width_mask(size * 8))
                return self.fresh(ins, 'r')
            for k in d:
                if isinstance(k, tuple) and k[0] == 'z' and k[1] <= off and off + size <= k[1] + k[2]:
                    return I(0)
            for o, e in d.items():
                if isinstance(o, int) and o < off + size and off < o + e[1]:
                    return self.fresh(ins, 'r')
        v = ('s', ('ld', obj, off, st.ver.get(obj, 0)))
        d = dict(d) if d is not None else {}
        d[off] = (v, size)
        st.mem[obj] = d
        return v

    def mstore(self, st, ptr, val, size, ins=None):
        p = self.as_ptr(ptr)
        if p is None:
            return
        obj, off = p
        if not isinstance(off, int):
            self.havoc_obj(st, obj, ins)
            return
        d = dict(st.mem.get(obj, ()))
        for o in list(d):
            if isinstance(o, int):
                if o < off + size and off < o + d[o][1]:
                    del d[o]
            elif o[1] < off + size and off < o[1] + o[2]:
                # split the zero range
                del d[o]
                if o[1] < off:
                    d[('z', o[1], off - o[1])] = 0
                if off + size < o[1] + o[2]:
                    d[('z', off + size, o[1] + o[2] - off - size)] = 0
        d[off] = (val, size)
        st.mem[obj] = d
        # a store through an unknown pointer may alias other unknown objects
        if obj[0] == 'o' and getattr(self.rule, 'alias_sym', False):
            for o2 in list(st.mem):
                if o2[0] == 'o' and o2 != obj:
                    self.havoc_obj(st, o2, ins)

    def havoc_range(self, st, obj, lo, hi, ins):
        d = st.mem.get(obj)
        ver = (self.cur_path, ins.idx) if ins is not None else ('?',)
        st.ver[obj] = ver
        if not d:
            return
        n = {}
        for o, e in d.items():
            if isinstance(o, int):
                if o < hi and lo < o + e[1]:
                    continue
            elif o[1] < hi and lo < o[1] + o[2]:
                continue
            n[o] = e
        st.mem[obj] = n

    def havoc_obj(self, st, obj, ins):
        st.mem[obj] = {}
        st.ver[obj] = (self.cur_path, ins.idx) if ins is not None else ('?',)

    def const_args(self, name, nargs):
        """Indices of the IR arguments which the C++ signature declares const."""
        r = self._const_cache.get((name, nargs))
        if r is None:
            r = frozenset()
            pl = self.p.param_list(name)
            if pl is not None:
                ps, cm = pl
                extra = nargs - len(ps)
                if 0 <= extra <= 2:
                    r = set()
                    for i, x in enumerate(ps):
                        if re.search(r'\bconst\s*[*&]$', x):
                            r.add(extra + i)
                    if cm and extra:
                        r.add(extra - 1)
                    r = frozenset(r)
            self._const_cache[(name, nargs)] = r
        return r

    def havoc_args(self, st, args, ins, sname, name=None):
        if READONLY.search(sname):
            return
        keep = getattr(self.rule, 'keep', None)
        cargs = self.const_args(name, len(args)) if name else ()
        for n, (t, v) in enumerate(args):
            p = self.as_ptr(v) if t == ('ptr',) else None
            if p is None or n in cargs:
                continue
            obj, off = p
            if obj[0] == 'g' or keep and keep(obj, off):
                continue
            if not isinstance(off, int):
                self.havoc_obj(st, obj, ins)
                continue
            ext = self.extent(st, obj, off)
            if name and n <= 1:
                ts = self.p.this_size(name, n, t)
                if ts and (ext is None or ts < ext[1] - ext[0]):
                    ext = (off, off + ts)
            if ext is None:
                self.havoc_obj(st, obj, ins)
            else:
                self.havoc_range(st, obj, ext[0], ext[1], ins)

    def extent(self, st, obj, off):
        """The member sub-object [lo, hi) of obj at offset off, if the class of obj is known."""
        f = getattr(self.rule, 'class_of', None)
        q = f(obj) if f else None
        if q is None and obj[0] == 'this':
            q = obj[1] if len(obj) > 1 else None
        if q is None:
            return None
        if isinstance(q, str):
            c = self.p.cls(q)
            if c is None:
                return None
            if not hasattr(c, '_flat'):
                c._flat = self.p.flat_members(c)
            best = None
            for m in c._flat:
                if m[1] <= off < m[1] + max(m[2], 1):
                    best = (m[1], m[1] + m[2])
            return best
        return None

    def havoc_all(self, st, ins):
        """Effect of an unknown repository function: everything but private stack objects."""
        keep = getattr(self.rule, 'keep', None)
        for o in list(st.mem):
            if o[0] == 'a':
                continue
            if keep and keep(o, None):
                continue
            self.havoc_obj(st, o, ins)
        st.ver['*'] = (self.cur_path, ins.idx)

    # ------------------------------------------------------------------ renaming of re-defined symbols
    def _stale(self, v, base, idx, memo):
        if not isinstance(v, tuple) or not v:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if v[0] == 's':
            k = v[1]
            r = v
            if isinstance(k, tuple) and k:
                if k[0] in ('r', 'e', 'phi', 'ret', 'new') and (k[1] == base and k[2] == idx or self.under(k[1], base, idx)):
                    r = ('s', ('old', k))
                elif k[0] == 'ld':
                    ver = k[3]
                    if isinstance(ver, tuple) and len(ver) == 2 and (ver == (base, idx) or ver[0] != '?' and self.under(ver[0], base, idx)):
                        r = ('s', ('old', k))
                    else:
                        o2 = self._stale(k[1], base, idx, memo)
                        if o2 != k[1]:
                            r = ('s', ('old', k))
                elif k[0] == 'm' and (k[1] == base and False):
                    r = v
        elif v[0] in ('h', 'a'):
            # objects: ('a', path, reg, idx) / ('h', path, idx)
            if self.under(v[1], base, idx) or (v[0] == 'h' and v[1] == base and v[2] == idx):
                r = ('oldobj',) + v
            else:
                r = v
        else:
            r = tuple(self._stale(x, base, idx, memo) if isinstance(x, tuple) else x for x in v)
        memo[v] = r
        return r

    def _mentions(self, v, syms):
        if v in syms:
            return True
        return any(isinstance(x, tuple) and self._mentions(x, syms) for x in v)

    def redefine(self, st, idx):
        """Instruction idx of the current activation is executed again: symbols named
        after it denote older values from now on."""
        base = self.cur_path
        memo = {}
        f = lambda v: self._stale(v, base, idx, memo)
        st.regs = {k: f(v) for k, v in st.regs.items()}
        mem = {}
        for o, d in st.mem.items():
            o2 = f(o)
            nd = {k: ((f(e[0]), e[1]) if isinstance(e, tuple) else e) for k, e in d.items()}
            if o2 in mem:
                mem[o2] = {}
            else:
                mem[o2] = nd if o2 == o or True else {}
        st.mem = mem
        st.ver = {f(o) if isinstance(o, tuple) else o: v for o, v in st.ver.items()}
        hook = getattr(self.rule, 'rename', None)
        if hook:
            st.mon = hook(self, st.mon, f)
        mv = getattr(self.rule, 'mon_values', None)
        live = set(mv(st.mon)) if mv else ()
        fresh = set(v for k, v in memo.items() if k != v and v[0] == 's')
        facts = {}
        kept = {}
        for k, v in st.facts.items():
            k2 = f(k)
            if k2 != k:
                if live and any(x in live for x in k2[1:] if isinstance(x, tuple)):
                    kept[k2] = v
                continue
            if fresh and self._mentions(k, fresh):
                continue
            facts[k] = v
        facts.update(kept)
        st.facts = facts

    # ------------------------------------------------------------------ running a function
    def explore(self, fn, args, mon, mem=None, facts=None):
        """Analyses fn from the given abstract input; returns the outcomes."""
        st = State()
        st.mon = mon
        if mem:
            st.mem = {o: dict(d) for o, d in mem.items()}
        if facts:
            st.facts = dict(facts)
        self.stack = []
        self.cur_path = 0
        self.total_steps = getattr(self, 'total_steps', 0)
        self.steps = 0
        self.memo = {}
        try:
            r = self.run(fn, args, st, 0)
        except AnalysisLimit as x:
            x.eng = self
            raise
        self.total_steps += self.steps
        return r

    def default_args(self, fn, this=None):
        out = []
        for n, (t, nm) in enumerate(fn.params):
            if n == (1 if getattr(fn, 'sret', False) else 0) and this is not None:
                out.append(('p', this, 0))
            elif t == ('ptr',):
                out.append(('p', ('arg', n), 0))
            else:
                out.append(('s', ('arg', n)))
        return out

    def run(self, fn, args, st, path):
        key = (fn.name, fn.mod.src if fn.linkage in ('internal', 'private') else None, tuple(args), path, st.key())
        r = self.memo.get(key)
        if r is not None:
            return [Outcome(o.kind, o.ret, o.st.copy(), o.exc) for o in r]
        outs = self._run(fn, args, st, path)
        self.memo[key] = [Outcome(o.kind, o.ret, o.st.copy(), o.exc) for o in outs]
        return outs

    def _run(self, fn, args, st0, path):
        saved_path = getattr(self, 'cur_path', 0)
        self.cur_path = path
        self.stack.append((fn, path))
        self.visited_fns.add(fn.name)
        try:
            live, succ, preds, rpo = self.liveness(fn)
            params = fn.params
            st = st0.copy()
            st.regs = {nm: a for (t, nm), a in zip(params, args)}
            st.defd = frozenset()
            outcomes = []
            seen = {}       # block -> set of keys
            counts = {}     # (block, mon) -> [count, joined state]
            work = {fn.entry: [(None, st)]}
            while work:
                b = min(work, key=lambda x: rpo.get(x, 0))
                lst = work[b]
                prev, s = lst.pop()
                if not lst:
                    del work[b]
                # phis
                ins = fn.blocks[b]
                if ins and ins[0].op == 'phi':
                    new = {}
                    for i in ins:
                        if i.op != 'phi':
                            break
                        for v, lab in i.x:
                            if lab == prev:
                                new[i.res] = self.val(s, v, fn.mod)
                                break
                        else:
                            raise Unsupported('phi without incoming edge')
                    s.regs.update(new)
                for s in self.split_bools(s, ins):
                    # prune to live registers
                    lv = live[b]
                    phis = set(i.res for i in ins if i.op == 'phi')
                    s.regs = {k: v for k, v in s.regs.items() if k in lv or k in phis}
                    if len(preds.get(b, ())) > 1 or prev is None:
                        self.gc(s, st0)
                        k = s.key()
                        ss = seen.setdefault(b, set())
                        if k in ss:
                            continue
                        # (the truth of a && b, a || b is kept apart)
                        bools = tuple(s.regs.get(i.res) if s.regs.get(i.res, ('?',))[0] == 'i' else None
                                      for i in ins if i.op == 'phi' and i.ty == ('int', 1))
                        ck = (b, s.mon, self.rule.part(self, s), bools)
                        c = counts.setdefault(ck, [0, None, 0])
                        c[0] += 1
                        if c[0] > self.rule.join_limit:
                            if c[1] is None:
                                c[1] = s.copy()
                            else:
                                j = self.join(c[1], s, path, b, c[2])
                                self.gc(j, st0)
                                if j.key() == c[1].key():
                                    continue
                                c[2] += 1
                                c[1] = j
                                s = j.copy()
                                if c[2] > 150:
                                    raise AnalysisLimit('no convergence in %s' % self.p.fullname(fn.name))
                            k = s.key()
                            if k in ss:
                                continue
                        ss.add(k)
                    self.exec_block(fn, b, ins, s, path, work, outcomes)
            # leave: drop callee private stack objects
            res = []
            okeys = set()
            for o in outcomes:
                s = o.st
                s.regs = {}
                for ob in list(s.mem):
                    if ob[0] == 'a' and (ob[1] == path or self._below(ob[1], path)):
                        del s.mem[ob]
                for ob in list(s.ver):
                    if isinstance(ob, tuple) and ob[0] == 'a' and (ob[1] == path or self._below(ob[1], path)):
                        del s.ver[ob]
                k = (o.kind, o.ret, o.exc, s.key())
                if k in okeys:
                    continue
                okeys.add(k)
                s.defd = st0.defd
                res.append(o)
            if len(res) > self.rule.join_limit:
                res = self.join_outcomes(res, path)
            return res
        finally:
            self.stack.pop()
            self.cur_path = saved_path

    def split_bools(self, s, ins):
        """the state, apart for each truth of an undecided condition (a && b, a || b) if the rule wants that"""
        out = [s]
        if not self.rule.split_bools:
            return out
        for i in ins:
            if i.op != 'phi':
                break
            if i.ty != ('int', 1):
                continue
            new = []
            for x in out:
                v = x.regs.get(i.res)
                if v is None or v[0] == 'i' or self.decide(x, v) is not None:
                    new.append(x)
                    continue
                for t in (True, False):
                    y = x.copy()
                    if self.assume(y, v, t) is not False:
                        y.regs[i.res] = I(1 if t else 0)
                        new.append(y)
            out = new
        return out

    def _below(self, p, base):
        while p > 0:
            p = self.path_parent[p][0]
            if p == base:
                return True
        return False

    def join_outcomes(self, outs, path):
        groups = {}
        for o in outs:
            rk = o.ret if o.ret is not None and o.ret[0] in ('i', 'p') else None
            groups.setdefault((o.kind, o.exc, o.st.mon, rk, self.rule.part(self, o.st)), []).append(o)
        res = []
        for (k, exc, mon, rk, _), os in groups.items():
            a = os[0]
            st = a.st
            st.regs = {'%ret': a.ret} if a.ret is not None else {}
            for o in os[1:]:
                o.st.regs = {'%ret': o.ret} if o.ret is not None else {}
                st = self.join(st, o.st, path, '%exit', 0)
            ret = st.regs.get('%ret')
            st.regs = {}
            res.append(Outcome(k, ret, st, exc))
        return res

    def gc(self, s, st0):
        """Drops the facts about symbols which are not reachable any more."""
        if len(s.facts) < 24:
            return
        alive = set()

        def add(v):
            if not isinstance(v, tuple) or v in alive:
                return
            alive.add(v)
            for x in v:
                if isinstance(x, tuple):
                    add(x)
        for v in s.regs.values():
            add(v)
        for o, d in s.mem.items():
            add(o)
            for e in d.values():
                if isinstance(e, tuple):
                    add(e[0])
        hook = getattr(self.rule, 'mon_values', None)
        if hook:
            for v in hook(s.mon):
                add(v)
        n = {}
        for k, f in s.facts.items():
            if k in st0.facts:
                n[k] = f
                continue
            if k[0] == 'rel':
                if k[2] in alive and k[3] in alive:
                    n[k] = f
            elif k[1] in alive or k[1][0] == 'x':
                n[k] = f
        s.facts = n

    def join(self, a, b, path, block, n):
        """Join with widening of two states with the same automaton state."""
        j = State()
        j.mon = a.mon
        j.defd = a.defd | b.defd
        ren = []
        self.stale_phis(b, path, block)

        def jv(x, y, name):
            if x == y:
                return x
            s = ('s', ('phi', path, name))
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1] and x[2] is not None and y[2] is not None and self.ptr_join:
                # two pointers into one object: the offset is joined
                ren.append((s, self.offv(x), self.offv(y)))
                return ('p', x[1], ('so', s, 0))
            ren.append((s, x, y))
            return s
        for k in a.regs:
            if k in b.regs:
                j.regs[k] = jv(a.regs[k], b.regs[k], (block, k))
        for o in a.mem:
            if o in b.mem:
                d = {}
                for off, e in a.mem[o].items():
                    f = b.mem[o].get(off)
                    if f is None:
                        continue
                    if isinstance(off, tuple):
                        d[off] = e
                    elif f[1] == e[1]:
                        d[off] = (jv(e[0], f[0], (block, o, off)), e[1])
                j.mem[o] = d
        for o in set(a.ver) | set(b.ver):
            va, vb = a.ver.get(o), b.ver.get(o)
            j.ver[o] = va if va == vb else ('?', path, block)
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g is None:
                continue
            if f == g:
                j.facts[k] = f
            elif k[0] == 'rel':
                u = f | g
                if u != ALLREL:
                    j.facts[k] = u
            elif k[0] in ('ivs', 'ivu'):
                j.facts[k] = self.widen(f, g, n, k[2], k[0] == 'ivs')
            elif k[0] == 'ne':
                if f & g:
                    j.facts[k] = f & g
        for s, x, y in ren:
            # facts about the old phi symbol do not survive, except as a hull
            for w in (8, 16, 32, 64):
                for sg, nm in ((True, 'ivs'), (False, 'ivu')):
                    fx = self.interval(a, x, w, sg)
                    fy = self.interval(b, y, w, sg)
                    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                    r = self.widen(fx, fy, n, w, sg)
                    j.facts.pop((nm, s, w), None)
                    if r != full:
                        j.facts[(nm, s, w)] = r
            j.facts.pop(('eq', s), None)
            nx = self.ne_of(a, x)
            ny = self.ne_of(b, y)
            j.facts.pop(('ne', s), None)
            if nx and ny:
                j.facts[('ne', s)] = nx & ny
            for k in list(j.facts):
                if k[0] == 'rel' and (k[2] == s or k[3] == s):
                    del j.facts[k]
                elif k[0] == 'eq' and k[1][0] == 'x' and self._mentions(k[1], (s,)):
                    del j.facts[k]
        # truth values of a joined variable (boolean members are loaded as bytes and truncated)
        for s, x, y in ren:
            t = ('x', 'trunc', s, 8, 1)
            fx, fy = self.truth_of(a, x), self.truth_of(b, y)
            if fx is not None and fx == fy:
                j.facts[('eq', t)] = fx
        self.rule.join_facts(self, a, b, j, ren)
        return j

    def truth_of(self, st, v):
        if v[0] == 'i':
            return v[1] & 1
        r = st.facts.get(('eq', ('x', 'trunc', v, 8, 1)))
        if r is None:
            e = st.facts.get(('eq', v))
            if e is not None:
                return e & 1
            if v[0] == 'x' and v[1] == 'zext' and v[3] == 1:
                d = self.decide(st, v[2])
                return None if d is None else int(d)
        return r

    def stale_phis(self, b, path, block):
        """In the newly arriving state the phi symbols of this block denote the values of
        the previous visit: a slot which still holds exactly its own symbol is unchanged;
        facts about compound expressions over re-bound symbols are dropped."""
        bound = set()
        for k, v in b.regs.items():
            s = ('s', ('phi', path, (block, k)))
            if v != s and not (v[0] == 'p' and v[2] == ('so', s, 0)):
                bound.add(s)
        for o, d in b.mem.items():
            for off, e in d.items():
                if isinstance(off, int):
                    s = ('s', ('phi', path, (block, o, off)))
                    if e[0] != s and not (e[0][0] == 'p' and e[0][2] == ('so', s, 0)):
                        bound.add(s)
        used = set()

        def scan(v):
            if v in bound:
                used.add(v)
                return True
            r = False
            for x in v:
                if isinstance(x, tuple):
                    r = scan(x) or r
            return r
        drop = [k for k in b.facts if scan(k)]
        # keep what the hulls of the join need: intervals are computed from these facts,
        # therefore rename instead of dropping
        if not drop and not used:
            for v in list(b.regs.values()):
                scan(v)
            for d in b.mem.values():
                for e in d.values():
                    if isinstance(e, tuple):
                        scan(e[0])
        if not drop and not used:
            return
        memo = {}

        def f(v):
            r = memo.get(v)
            if r is None:
                if v in bound:
                    r = ('s', ('old', v[1]))
                else:
                    r = tuple(f(x) if isinstance(x, tuple) else x for x in v)
                memo[v] = r
            return r
        b.regs = {k: f(v) for k, v in b.regs.items()}
        mem = {}
        for o, d in b.mem.items():
            mem[f(o)] = {k: ((f(e[0]), e[1]) if isinstance(e, tuple) else e) for k, e in d.items()}
        b.mem = mem
        b.ver = {f(o) if isinstance(o, tuple) else o: v for o, v in b.ver.items()}
        b.facts = {f(k): v for k, v in b.facts.items()}
        hook = getattr(self.rule, 'rename', None)
        if hook:
            b.mon = hook(self, b.mon, f)

    def ne_of(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'i':
            return frozenset([0]) if v[1] != 0 else frozenset()
        if self.nonnull(v):
            return frozenset([0])
        return st.facts.get(('ne', v), frozenset())

    THRESH = sorted(set([0, 1, -1, 2, 8, 16, 64, 100, 128, 255, 256, 1024, 2047, 2048, 2049, 999999999, 1000000000, -999999999, -1000000000]
                        + [2 ** 31 - 1, -2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1]))

    def widen(self, f, g, n, w, sg):
        lo, hi = min(f[0], g[0]), max(f[1], g[1])
        if n >= 3:
            full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            th = getattr(self.rule, 'thresholds', ())
            ths = sorted(set(self.THRESH) | set(th)) if n < 30 else []
            if lo < f[0]:
                lo = max([full[0]] + [t for t in ths if t <= lo and t >= full[0]])
            if hi > f[1]:
                hi = min([full[1]] + [t for t in ths if t >= hi and t <= full[1]])
        return (lo, hi)

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fn, b, ins, s, path, work, outcomes):
        states = [s]
        i = 0
        n = len(ins)
        while i < n:
            x = ins[i]
            i += 1
            op = x.op
            if op == 'phi':
                continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                for s in states:
                    self.steps += 1
                    self.terminator(fn, b, x, s, work, outcomes)
                return
            if op == 'invoke' or op == 'call':
                nxt = []
                for s in states:
                    self.steps += 1
                    for o in self.do_call(fn, x, s, path):
                        if o.kind == 'ret':
                            if x.res:
                                o.st.regs[x.res] = o.ret if o.ret is not None else UNK
                            if op == 'invoke':
                                work.setdefault(x.x['normal'], []).append((b, o.st))
                            else:
                                nxt.append(o.st)
                        elif o.kind == 'throw':
                            if op == 'invoke':
                                o.st.regs['%exc'] = ('exc', o.exc)
                                self.enter_unwind(fn, b, x, o, work, outcomes, path)
                            else:
                                outcomes.append(o)
                        else:
                            pass        # does not return
                if op == 'invoke':
                    return
                states = nxt
                if not states:
                    return
                if len(states) > 1:
                    d = {}
                    for s in states:
                        d.setdefault(s.key(), s)
                    states = list(d.values())
                continue
            if op == 'select':
                nxt = []
                for s in states:
                    c = self.val(s, x.ops[0], fn.mod)
                    a = self.val(s, x.ops[1], fn.mod)
                    bb = self.val(s, x.ops[2], fn.mod)
                    if c[0] in ('u', 'undef'):
                        c = self.fresh(x)
                    if a == bb:
                        s.regs[x.res] = a
                        nxt.append(s)
                        continue
                    for t, s2 in self.split(s, c):
                        s2.regs[x.res] = a if t else bb
                        nxt.append(s2)
                states = nxt
                continue
            for s in states:
                self.steps += 1
                self.simple(fn, x, s, path)
            if self.steps > self.rule.max_steps:
                raise AnalysisLimit('step limit in %s' % self.p.fullname(fn.name))

    def enter_unwind(self, fn, b, x, o, work, outcomes, path):
        """Decides which clause of the landing pad catches the exception."""
        lab = x.x['unwind']
        o.st.regs.pop('%exc', None)
        lp = next((i for i in fn.blocks[lab] if i.op != 'phi'), fn.blocks[lab][0])
        if lp.op != 'landingpad':
            raise Unsupported('landingpad expected')
        cleanup, clauses = lp.x
        st = o.st
        st.regs[lp.res + '.exc'] = ('exc', o.exc)
        self.pending_lp = None
        # run the block with a special landingpad value
        st.regs[lp.res] = ('agg', (('excptr', o.exc), ('sel', o.exc)))
        caught = cleanup or any(k == 'catch' for k, v in clauses)
        if not caught:
            outcomes.append(Outcome('throw', None, st, o.exc))
            return
        work.setdefault(lab, []).append((b, st))

    def exc_matches(self, exc, ti):
        """Does the thrown type derive from the caught one? True/False/None"""
        if exc is None:
            return None
        if exc == ti:
            return True
        seen = set()
        todo = [exc]
        std = {'_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
               '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
               '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
               '_ZTIN5boost16bad_lexical_castE': ['_ZTISt8bad_cast'], '_ZTISt9bad_alloc': ['_ZTISt9exception']}
        while todo:
            t = todo.pop()
            if t == ti:
                return True
            if t in seen:
                continue
            seen.add(t)
            if t in std:
                todo += std[t]
                continue
            m, gi = self.p.ginit(None, t)
            if gi is None or gi.get('init') is None or gi['init'][0] != 'agg':
                continue
            for ty, v in gi['init'][1][2:]:
                if v[0] == 'g':
                    todo.append(v[1])
        return False

    def terminator(self, fn, b, x, s, work, outcomes):
        op = x.op
        if op == 'br':
            if not x.ops:
                work.setdefault(x.x[0], []).append((b, s))
                return
            c = self.val(s, x.ops[0], fn.mod)
            if c[0] in ('u', 'undef'):
                if c[0] == 'undef':
                    self.hook_undef(s, x)
                for t in x.x:
                    work.setdefault(t, []).append((b, s.copy()))
                return
            for t, s2 in self.split(s, c):
                work.setdefault(x.x[0] if t else x.x[1], []).append((b, s2))
            return
        if op == 'switch':
            c = self.norm(s, self.val(s, x.ops[0], fn.mod))
            d, cases = x.x
            w = x.ty[1]
            if c[0] == 'i':
                for v, l in cases:
                    if to_unsigned(v, w) == to_unsigned(c[1], w):
                        work.setdefault(l, []).append((b, s))
                        return
                work.setdefault(d, []).append((b, s))
                return
            dflt = s.copy()
            dok = True
            for v, l in cases:
                s2 = s.copy()
                if c[0] in ('u', 'undef') or self.assume(s2, ('x', 'icmp', 'eq', c, I(v), w), True):
                    work.setdefault(l, []).append((b, s2))
                if c[0] not in ('u', 'undef'):
                    dok = dok and self.assume(dflt, ('x', 'icmp', 'ne', c, I(v), w), True)
            if dok:
                work.setdefault(d, []).append((b, dflt))
            return
        if op == 'ret':
            v = self.val(s, x.ops[0], fn.mod) if x.ops else None
            self.rule.ret(self, s, x, fn, v)
            outcomes.append(Outcome('ret', v, s))
            return
        if op == 'resume':
            v = self.val(s, x.ops[0], fn.mod)
            exc = None
            if v[0] == 'agg' and v[1][0][0] == 'excptr':
                exc = v[1][0][1]
            outcomes.append(Outcome('throw', None, s, exc))
            return
        # unreachable: path ends
        return

    def hook_undef(self, s, x):
        h = getattr(self.rule, 'undef_branch', None)
        if h:
            h(self, s, x)

    def define(self, s, x, v):
        s.regs[x.res] = v

    def simple(self, fn, x, s, path):
        op = x.op
        mod = fn.mod
        if op == 'load':
            ptr = self.norm(s, self.val(s, x.ops[0], mod))
            size = mod.size(x.ty)
            r = self.rule.load(self, s, x, ptr, size)
            if r is None:
                if x.idx in s.defd and not self._known(s, ptr):
                    self.redefine(s, x.idx)
                    ptr = self.norm(s, self.val(s, x.ops[0], mod))
                if self.rule.volatile(self, s, ptr):
                    if x.idx in s.defd:
                        self.redefine(s, x.idx)
                    r = ('s', ('r', path, x.idx))
                else:
                    r = self.mload(s, ptr, size, x)
                s.defd = s.defd | {x.idx}
            s.regs[x.res] = r
        elif op == 'store':
            v = self.val(s, x.ops[0], mod)
            ptr = self.norm(s, self.val(s, x.ops[1], mod))
            size = mod.size(x.ty)
            if x.ty[0] in ('struct', 'arr') and v == ('i', 0):
                pass
            r = self.rule.store(self, s, x, ptr, v, size)
            if r is None:
                self.mstore(s, ptr, v, size, x)
        elif op == 'alloca':
            obj = ('a', path, x.res)
            if x.idx in s.defd:
                s.mem[obj] = {}
            s.defd = s.defd | {x.idx}
            s.mem[obj] = {}
            s.ver[obj] = 'init'
            s.regs[x.res] = ('p', obj, 0)
            self.alloca_types = getattr(self, 'alloca_types', {})
            self.alloca_types[obj] = (mod, x.ty, self.val(s, x.ops[0], mod))
        elif op == 'gep':
            base = self.val(s, x.ops[0][1], mod)
            r = self.gep(s, base, x.ty, [(t, self.val(s, v, mod)) for t, v in x.ops[1:]], mod)
            if r == UNK:
                r = self.fresh(x)
            s.regs[x.res] = r
        elif op == 'bin':
            a = self.val(s, x.ops[0], mod)
            b = self.val(s, x.ops[1], mod)
            w = x.ty[1] if x.ty[0] == 'int' else 64
            if x.ty[0] == 'fp':
                if a[0] in ('u', 'undef') or b[0] in ('u', 'undef'):
                    r = self.fresh(x)
                else:
                    r = ('x', x.x, a, b, 'f')
                    if self.depth(r) > self.expr_depth:
                        r = self.fresh(x)
            else:
                r = self.binop(s, x.x, a, b, w, x)
            s.regs[x.res] = r
        elif op == 'icmp':
            a = self.val(s, x.ops[0], mod)
            b = self.val(s, x.ops[1], mod)
            w = x.ty[1] if x.ty[0] == 'int' else 64
            # exception selector tests
            for p, q in ((a, b), (b, a)):
                if p[0] == 'sel' and q[0] == 'tid':
                    m = self.exc_matches(p[1], q[1])
                    s.regs[x.res] = self.fresh(x) if m is None else I(int(m == (x.x == 'eq')))
                    return
            if a[0] in ('u', 'undef', 'excptr', 'sel', 'agg', 'fl') or b[0] in ('u', 'undef', 'excptr', 'sel', 'agg', 'fl'):
                s.regs[x.res] = self.fresh(x)
                return
            d = self.decide_icmp(s, x.x, a, b, w)
            if d is not None:
                s.regs[x.res] = I(int(d))
            else:
                r = ('x', 'icmp', x.x, a, b, w)
                if self.depth(r) > self.expr_depth + 1:
                    r = self.fresh(x)
                s.regs[x.res] = r
        elif op == 'fcmp':
            a = self.val(s, x.ops[0], mod)
            b = self.val(s, x.ops[1], mod)
            if x.idx in s.defd:
                self.redefine(s, x.idx)
            s.defd = s.defd | {x.idx}
            if a[0] in ('u', 'undef') or b[0] in ('u', 'undef'):
                s.regs[x.res] = self.fresh(x)
            else:
                s.regs[x.res] = ('x', 'fcmp', x.x, a, b)
        elif op == 'cast':
            k, t0 = x.x
            a = self.norm(s, self.val(s, x.ops[0], mod))
            s.regs[x.res] = self.cast(s, k, a, t0, x.ty, x)
        elif op == 'extractvalue':
            a = self.val(s, x.ops[0], mod)
            for ix in x.x:
                if a[0] == 'agg' and ix < len(a[1]):
                    a = a[1][ix]
                elif a[0] in ('s', 'x'):
                    a = ('x', 'ev', a, ix)
                else:
                    a = self.fresh(x)
            s.regs[x.res] = a
        elif op == 'insertvalue':
            a = self.val(s, x.ops[0], mod)
            v = self.val(s, x.ops[1], mod)
            if len(x.x) == 1:
                t = mod.resolve(x.ty)
                nf = len(t[2]) if t[0] == 'struct' else t[1]
                l = list(a[1]) if a[0] == 'agg' else [UNK] * nf
                l[x.x[0]] = v
                s.regs[x.res] = ('agg', tuple(l))
            else:
                s.regs[x.res] = self.fresh(x)
        elif op == 'landingpad':
            if x.res not in s.regs:
                s.regs[x.res] = UNK
        elif op == 'atomicrmw':
            ptr = self.norm(s, self.val(s, x.ops[0], mod))
            v = self.val(s, x.ops[1], mod)
            size = mod.size(x.ty)
            h = getattr(self.rule, 'atomicrmw', None)
            r = h(self, s, x, ptr, v) if h else None
            if r is None:
                if x.idx in s.defd:
                    self.redefine(s, x.idx)
                s.defd = s.defd | {x.idx}
                r = ('s', ('r', path, x.idx))
                self.mstore(s, ptr, v if x.x == 'xchg' else self.fresh(x, 'e'), size, x)
            s.regs[x.res] = r
        elif op == 'cmpxchg':
            if x.idx in s.defd:
                self.redefine(s, x.idx)
            s.defd = s.defd | {x.idx}
            ptr = self.norm(s, self.val(s, x.ops[0], mod))
            self.mstore(s, ptr, self.fresh(x, 'e'), mod.size(x.ty), x)
            s.regs[x.res] = ('agg', (('s', ('r', path, x.idx)), ('s', ('e', path, x.idx))))
        elif op in ('fence',):
            pass
        elif op == 'freeze':
            s.regs[x.res] = self.val(s, x.ops[0], mod)
        elif op == 'fneg':
            a = self.val(s, x.ops[0], mod)
            s.regs[x.res] = ('x', 'fneg', a) if a[0] not in ('u', 'undef') else self.fresh(x)
        elif op in ('va_arg', 'extractelement', 'insertelement', 'shufflevector'):
            s.regs[x.res] = self.fresh(x, 'r')
        else:
            raise Unsupported(op)

    def _known(self, st, ptr):
        p = self.as_ptr(ptr)
        if p is None:
            return False
        d = st.mem.get(p[0])
        return isinstance(p[1], int) and (d is not None and p[1] in d)

    def cast(self, s, k, a, t0, t1, ins):
        if k in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
            return a
        if t0[0] == 'int' and t1[0] == 'int':
            w0, w1 = t0[1], t1[1]
            if a[0] == 'i':
                if k == 'sext':
                    return I(to_signed(a[1], w0))
                if k == 'zext':
                    return I(to_unsigned(a[1], w0))
                n = to_unsigned(a[1], w1)
                return I(n if w1 == 1 else to_signed(n, w1))
            if a[0] in ('u', 'undef'):
                return a if a[0] == 'undef' else self.fresh(ins)
            if k == 'trunc':
                if a[0] == 'x' and a[1] in ('zext', 'sext') and a[3] == w1:
                    return a[2]
                if a[0] == 'x' and a[1] in ('zext', 'sext') and a[3] < w1:
                    return ('x', a[1], a[2], a[3], w1)
                return ('x', 'trunc', a, w0, w1)
            return ('x', k, a, w0, w1)
        if a[0] in ('u', 'undef'):
            return self.fresh(ins)
        r = ('x', k, a, t0, t1)
        if self.depth(r) > self.expr_depth + 1:
            return self.fresh(ins)
        return r

    # ------------------------------------------------------------------ calls
    def do_call(self, fn, x, s, path):
        mod = fn.mod
        callee = x.x['callee']
        args = []
        for t, v in x.x['args']:
            if t == ('md',):
                args.append((t, v))
            else:
                args.append((t, self.norm(s, self.val(s, v, mod))))
        targets = None
        vinfo = None
        if callee[0] == 'asm':
            return [Outcome('ret', self.fresh(x, 'r'), s)]
        if callee[0] == 'g':
            name = callee[1]
            r = self.intrinsic(fn, x, s, name, args)
            if r is not None:
                return r
            targets = [name]
        else:
            cv = self.norm(s, self.val(s, callee, mod))
            if cv[0] == 'p' and cv[1][0] == 'g' and cv[2] == 0:
                targets = [cv[1][1][1]]
            elif cv[0] == 's' and cv[1][0] == 'ld' and cv[1][1][0] == 'o':
                vptr = cv[1][1][1]
                tid = s.facts.get(('vt', vptr))
                if tid:
                    vinfo = (tid, cv[1][2])
                    targets = self.p.cha(tid, cv[1][2])
        if targets is not None and vinfo is None:
            return self.call_named(fn, x, s, path, targets[0], args)
        if vinfo is not None:
            vn = self.p.vname(vinfo[0], vinfo[1] // 8) or ('virtual %s#%d' % (self.p.typeid_class(vinfo[0]), vinfo[1] // 8))
            vh = getattr(self.rule, 'vcall', None)
            if vh:
                r = vh(self, s, x, vn, args, targets)
                if r is not None:
                    return r
            maxv = getattr(self.rule, 'max_virtual', 4)
            if targets and len(targets) <= maxv:
                out = []
                for t in targets:
                    out += self.call_named(fn, x, s.copy(), path, t, args)
                return out
            return self.opaque_call(fn, x, s, path, vn, None, args, repo=True)
        r = self.rule.call(self, s, x, '<indirect>', None, args)
        if r is not None:
            return r
        return self.opaque_call(fn, x, s, path, '<indirect>', None, args, repo=True)

    def call_named(self, fn, x, s, path, name, args):
        sname = self.p.sname(name)
        self.cur_name = name
        self.visited_calls.add((fn.name, x.idx))
        target = self.p.lookup(fn.mod, name)
        r = self.rule.call(self, s, x, sname, target, args)
        if r is not None:
            return r
        if name == '__cxa_throw':
            ti = args[1][1]
            exc = ti[1][1][1] if ti[0] == 'p' and ti[1][0] == 'g' else None
            h = getattr(self.rule, 'throw', None)
            if h:
                h(self, s, x, exc)
            return [Outcome('throw', None, s, exc)]
        if name in ('exit', '_exit', 'abort', 'quick_exit', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_rethrow',
                    '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc', '_ZSt20__throw_out_of_rangePKc',
                    '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt17__throw_bad_allocv', '__assert_fail',
                    '_ZSt16__throw_bad_castv', '_ZSt25__throw_bad_function_callv', '__stack_chk_fail'):
            h = getattr(self.rule, 'noreturn', None)
            if h:
                h(self, s, x, name)
            return []
        throws = getattr(self.rule, 'may_throw', None)
        if target is not None and target.lines is not None and self.want_inline(target, sname):
            depth = len(self.stack)
            if depth < self.rule.max_depth and sum(f[0] is target for f in self.stack) <= self.rule.recursion:
                return self.inline_call(fn, x, s, path, target, args)
            return self.opaque_call(fn, x, s, path, sname, target, args, repo=True, name=name)
        outs = []
        if throws:
            exc = throws(sname)
            if exc:
                s2 = s.copy()
                outs.append(Outcome('throw', None, s2, exc))
        return outs + self.opaque_call(fn, x, s, path, sname, target, args, repo=self.is_repo(target, sname), name=name)

    def is_repo(self, target, sname):
        if target is None:
            return sname.startswith('icl_core::')
        if not hasattr(target, '_repo'):
            target._repo = self.p.in_repo(target) or self.p.file_of(target).startswith('inst/')
        return target._repo

    def want_inline(self, target, sname):
        if not self.is_repo(target, sname):
            h = getattr(self.rule, 'inline_external', None)
            return bool(h and h(self, target, sname))
        if sname in self.rule.opaque:
            return False
        return self.rule.inline(self, target, sname)

    def inline_call(self, fn, x, s, path, target, args):
        if x.idx in s.defd:
            self.redefine(s, x.idx)
            args = self.reeval(fn, x, s)
        s.defd = s.defd | {x.idx}
        sub = self.subpath(path, x.idx, target)
        a = [v for t, v in args]
        np = len(target.params)
        if len(a) < np:
            raise Unsupported('call with too few arguments: ' + target.name)
        self.rule.enter(self, s, x, target, args)
        saved = s.regs
        s.regs = {}
        outs = self.run(target, a[:np], s, sub)
        res = []
        for o in outs:
            o.st.regs = dict(saved)
            o.st.defd = s.defd
            if o.kind == 'ret':
                self.rule.after_call(self, o.st, x, self.p.sname(target.name), target, args, o.ret)
            res.append(o)
        return res

    def reeval(self, fn, x, s):
        args = []
        for t, v in x.x['args']:
            if t == ('md',):
                args.append((t, v))
            else:
                args.append((t, self.norm(s, self.val(s, v, fn.mod))))
        return args

    def opaque_call(self, fn, x, s, path, sname, target, args, repo, name=None):
        if x.idx in s.defd:
            self.redefine(s, x.idx)
            args = self.reeval(fn, x, s)
        s.defd = s.defd | {x.idx}
        if repo:
            h = getattr(self.rule, 'pure_repo', None)
            if not (h and h(sname)):
                self.havoc_all(s, x)
                self.havoc_args(s, args, x, 'call')
            else:
                self.havoc_args(s, args, x, 'call', name)
        else:
            self.havoc_args(s, args, x, sname, name)
        ret = None
        if x.ty != ('void',):
            ret = ('s', ('r', path, x.idx))
        if sname in ('operator new', 'operator new[]', 'malloc', 'calloc', 'strdup'):
            obj = ('h', path, x.idx)
            s.mem[obj] = {}
            s.ver[obj] = (path, x.idx)
            if sname.startswith('operator new'):
                ret = ('p', obj, 0)
        self.rule.after_call(self, s, x, sname, target, args, ret)
        return [Outcome('ret', ret, s)]

    def intrinsic(self, fn, x, s, name, args):
        if not name.startswith('llvm.'):
            if name == '__cxa_begin_catch':
                return [Outcome('ret', ('s', ('r', self.cur_path, x.idx)), s)]
            if name in ('__cxa_end_catch', '__cxa_free_exception'):
                return [Outcome('ret', None, s)]
            if name == '__cxa_allocate_exception':
                return [Outcome('ret', ('p', ('h', self.cur_path, x.idx), 0), s)]
            return None
        if name.startswith('llvm.public.type.test') or name.startswith('llvm.type.test'):
            v = args[0][1]
            tid = args[1][1][1]
            if tid and tid.startswith('!"'):
                tid = tid[2:-1]
            if v[0] in ('s', 'x') and tid:
                s.facts[('vt', v)] = tid
            return [Outcome('ret', I(1), s)]
        if name.startswith('llvm.eh.typeid.for'):
            v = args[0][1]
            t = v[1][1][1] if v[0] == 'p' and v[1][0] == 'g' else None
            return [Outcome('ret', ('tid', t), s)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            h = getattr(self.rule, 'memcpy', None)
            if h:
                if h(self, s, x, args[0][1], args[1][1], self.norm(s, args[2][1])) is True:
                    return [Outcome('ret', None, s)]
            self.memcpy(s, args[0][1], args[1][1], self.norm(s, args[2][1]), x)
            return [Outcome('ret', None, s)]
        if name.startswith('llvm.memset'):
            h = getattr(self.rule, 'memset', None)
            n = self.norm(s, args[2][1])
            if h:
                if h(self, s, x, args[0][1], args[1][1], n) is True:
                    return [Outcome('ret', None, s)]
            self.memset(s, args[0][1], args[1][1], n, x)
            return [Outcome('ret', None, s)]
        if name.startswith(('llvm.assume', 'llvm.va_', 'llvm.stack', 'llvm.donothing', 'llvm.invariant', 'llvm.experimental.noalias',
                            'llvm.prefetch', 'llvm.trap', 'llvm.launder', 'llvm.strip')):
            if name.startswith(('llvm.launder', 'llvm.strip')):
                return [Outcome('ret', args[0][1], s)]
            if name.startswith('llvm.va_') and args:
                p = self.as_ptr(args[0][1])
                if p:
                    self.havoc_obj(s, p[0], x)
            if name.startswith('llvm.trap'):
                return []
            ret = UNK if x.ty != ('void',) else None
            if name.startswith('llvm.stacksave'):
                ret = ('s', ('r', self.cur_path, x.idx))
            return [Outcome('ret', ret, s)]
        if x.ty != ('void',):
            vals = [a for t, a in args]
            if any(v[0] in ('u', 'undef') for v in vals) or name.startswith('llvm.returnaddress'):
                return [Outcome('ret', self.fresh(x, 'r'), s)]
            if name.startswith('llvm.expect'):
                return [Outcome('ret', vals[0], s)]
            return [Outcome('ret', ('x', name) + tuple(vals), s)]
        return [Outcome('ret', None, s)]

    def memcpy(self, s, dst, src, n, ins):
        pd, ps = self.as_ptr(dst), self.as_ptr(src)
        if pd is None:
            return
        if n[0] != 'i' or not isinstance(pd[1], int):
            if isinstance(pd[1], int) and self.extent(s, pd[0], pd[1]):
                lo, hi = self.extent(s, pd[0], pd[1])
                self.havoc_range(s, pd[0], lo, hi, ins)
            else:
                self.havoc_obj(s, pd[0], ins)
            return
        size = n[1]
        items = []
        if ps is not None and isinstance(ps[1], int):
            sd = s.mem.get(ps[0], {})
            for o, e in sd.items():
                if isinstance(o, int):
                    if ps[1] <= o and o + e[1] <= ps[1] + size:
                        items.append((o - ps[1] + pd[1], e))
            # not yet loaded slots: name them lazily only for small copies
            if size <= 64 and not items or size <= 32:
                have = set(o for o, e in items)
                o = 0
                while o + 8 <= size:
                    do = pd[1] + o
                    if not any(do < h + 8 and h < do + 8 for h in have) and not any(
                            isinstance(k, tuple) and k[1] <= ps[1] + o < k[1] + k[2] for k in sd):
                        v = self.mload(s, ('p', ps[0], ps[1] + o), 8, ins)
                        items.append((do, (v, 8)))
                    o += 8
                if size - o == 4 and not any(pd[1] + o < h + 8 and h < pd[1] + o + 4 for h in have) and not any(
                        isinstance(k, tuple) and k[1] <= ps[1] + o < k[1] + k[2] for k in sd):
                    items.append((pd[1] + o, (self.mload(s, ('p', ps[0], ps[1] + o), 4, ins), 4)))
        self.havoc_range(s, pd[0], pd[1], pd[1] + size, ins)
        d = dict(s.mem.get(pd[0], {}))
        for o, e in items:
            d[o] = e
        s.mem[pd[0]] = d

    def memset(self, s, dst, val, n, ins):
        pd = self.as_ptr(dst)
        if pd is None:
            return
        if n[0] != 'i' or not isinstance(pd[1], int):
            self.havoc_obj(s, pd[0], ins)
            return
        self.havoc_range(s, pd[0], pd[1], pd[1] + n[1], ins)
        if val == ('i', 0):
            d = dict(s.mem.get(pd[0], {}))
            d[('z', pd[1], n[1])] = 0
            s.mem[pd[0]] = d
