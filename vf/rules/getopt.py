"""G03: the command line."""
import itertools
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .containers import IterRule
from .config import quiet, truth_of, norm_cls, EnumRule
from .manager import MapRule, mentions, one_of, offsets, THIS
from ..core import Broken

C = 'icl_core::config::'
G = C + 'Getopt'
MON = ('o', ('s', 'monitor'))
ARGC, ARGV = ('o', ('s', 'argc')), ('o', ('s', 'argv'))


def battery():
    out = []
    for n in range(0, 7):
        for t in itertools.product('-a=', repeat=n):
            out.append(''.join(t))
    return out + ['--configfile=/a b/c', '-o/Key', '--Abc=x=y', '-x=1', '--a-b=-c', '--a\nb=c']


def reference(kind, t):
    """None or what the parts of an option are"""
    if kind == 'long':
        if not t.startswith('--') or len(t) < 3 or t[2] in '-':
            return None
        n, eq, v = t[3:].partition('=')
        return {'name': t[2] + n, 'value': v, 'eqvalue': eq + v}
    if kind == 'short':
        return None if len(t) < 2 or t[0] != '-' or t[1] == '-' else {'name': t[1:]}
    return {'rest': t}


class Pattern:
    """What does a regular expression recognise? Decided for the literal in the source by a comparison with the grammar of the options."""
    def __init__(self, text):
        self.kind, self.roles, self.difference = None, {}, None
        try:
            x = re.compile(text, re.S)
        except re.error:
            self.difference = 'not a regular expression'
            return
        self.groups = x.groups
        bat = battery()
        best = None
        for kind in ('long', 'short', 'rest'):
            diff = None
            roles = {i: {'name', 'value', 'eqvalue', 'rest'} for i in range(1, x.groups + 1)}
            present = {i: True for i in roles}
            has = {i: True for i in roles}
            n = 0
            for t in bat:
                m, ref = x.fullmatch(t), reference(kind, t)
                if (m is None) != (ref is None):
                    diff = t
                    break
                if m is None:
                    continue
                n += 1
                for i in roles:
                    roles[i] = {r for r in roles[i] if ref.get(r, 0) == (m.group(i) or '')}
                    g = m.group(i) is not None
                    present[i] = present[i] and g
                    has[i] = has[i] and g == bool(ref.get('eqvalue'))
            if diff is None:
                self.kind = kind
                self.roles = {i: (sorted(r)[0] if r else None, 'always' if present[i] else 'eq' if has[i] else None) for i, r in roles.items()}
                return
            if best is None or n > best[0]:
                best = (n, kind, diff)
        self.difference = best[2]


class ArgRule(MapRule):
    """Getopt::initialize(): rest = (events of the current argument, generation, extra arguments reached, value expected by the previous argument,
    a prefix option matched, help is wanted ...)"""
    join_limit = 3
    max_steps = 2000000

    def __init__(self, p, off):
        self.off = off
        c = lambda n: repr((THIS, off[n][0]))
        self.OPTS, self.PREF, self.SHORT, self.SPREF = c('m_parameters'), c('m_prefix_parameters'), c('m_short_parameters'), c('m_short_prefix_parameters')
        self.REQ, self.OPTIONAL = c('m_required_positional_parameters'), c('m_optional_positional_parameters')
        self.NON, self.OPT, self.PRE, self.EXTRA = c('m_param_non_opt'), c('m_param_opt'), c('m_prefix_param_opt'), c('m_extra_cmd_param')
        self.patterns = {}

    # -- engine
    def keep(self, obj, off):
        return obj in (MON, ARGC, ARGV, THIS) or MapRule.keep(self, obj, off)

    def inline(self, eng, fn, sname):
        return bool(re.match(C + r'(Getopt::KeyValue|GetoptPositionalParameter|Getopt::isInitialized)', sname)) or \
            sname.startswith(G + '::') and sname not in (G + '::printHelp', G + '::instance')

    def rename_rest(self, eng, rest, f):
        return rest

    def rest_values(self, rest):
        A = ('s', ('arg', ('gen', rest[1])))
        out = [('s', ('cleanup',)), ('s', ('check',)), ('s', ('size', self.REQ)), ('s', ('size', self.OPTIONAL)), self.ACT, self.DELIM, streq(A, self.DELIM), self.matched(A), self.has(self.OPT, lit('help'))]
        for k, m, pc in (('long', self.OPTS, self.PREF), ('short', self.SHORT, self.SPREF)):
            name = self.grp(k, 'name', A)
            out += [self.match(k, A), self.has(m, name), self.hasval((self.entry(m, name), 32)), self.match('prefix', (self.pfx(pc), name)),
                    self.hasval((self.elem(pc), 32))]
        return out

    def fits(self, c):
        return not (repr(THIS) in c or 'entry' in c or "'el'" in c or "'arg" in c)

    def is_args(self, cont):
        return self.fits(cont)

    def join_facts(self, eng, a, b, j, ren):
        for s, x, y in ren:
            if s[1][2][1:2] != (MON,):
                continue
            for obj in (False, True):
                done = False
                for s2, x2, y2 in ren:
                    o = s2[1][2][1:2]
                    if o in ((MON,), (THIS,)) or isinstance(o[0] if o else None, tuple) != obj:
                        continue
                    for d in (0, 1, -1):
                        if self.same(eng, a, x, self.plus(x2, d)) and self.same(eng, b, y, self.plus(y2, d)):
                            j.mem[MON][s[1][2][2]] = (self.plus(s2, d), 8)
                            done = True
                            break
                    if done:
                        break
                if done:
                    break

    width = 64
    plus, same, index = EnumRule.plus, EnumRule.same, EnumRule.index

    def cell(self, eng, st, n):
        return eng.mload(st, ('p', MON, 8 * n), 8, None)

    def setcell(self, eng, st, n, v):
        eng.mstore(st, ('p', MON, 8 * n), v, 8)

    # -- symbols
    def gen(self, st):
        return ('gen', st.mon[1][1])

    def A(self, st):
        return ('s', ('arg', self.gen(st)))

    def match(self, kind, t):
        return ('s', ('match', kind, t))

    def grp(self, kind, role, t):
        return ('s', ('grp', kind, role, t))

    def matched(self, t):
        return ('s', ('valuegiven', t))

    def hasval(self, obj):
        return ('s', ('hasval', obj))

    def option(self, obj):
        return ('s', ('option', obj))

    def setc(self, eng, st, ptr, v):
        MapRule.setc(self, eng, st, ptr, v)
        d = self.rest(st)
        q = eng.as_ptr(ptr)
        if d['ev'] and d['ev'][-1][0] == 'opt' and q == (self.entry(self.OPT, d['ev'][-1][1]), 32) and v == d['ev'][-1][2]:
            self.setrest(st, ev=d['ev'][:-1] + (('done',),))

    def part(self, eng, st):
        if any(self.is_args(c) and s == 'end' for c, s, h in st.mon[0]):
            if self.enough(eng, st):
                self.setcell(eng, st, 2, I(1))
                self.setcell(eng, st, 0, I(0))
            return (self.cell(eng, st, 2), eng.decide(st, self.has(self.OPT, lit('help'))))
        if st.mon[1][0]:
            return (eng.decide(st, self.has(self.OPT, lit('help'))),)
        A = self.A(st)
        L, S = (eng.decide(st, self.match(k, A)) for k in ('long', 'short'))
        out = [L, S, eng.decide(st, streq(A, self.DELIM)), truth_of(eng, st, self.ACT)]
        if L or S:
            name = self.grp('long' if L else 'short', 'name', A)
            m = self.OPTS if L else self.SHORT
            out += [eng.decide(st, self.has(m, name)), eng.decide(st, self.hasval((self.entry(m, name), 32))), truth_of(eng, st, self.matched(A))]
            pc = self.PREF if L else self.SPREF
            out += [eng.decide(st, self.match('prefix', (self.pfx(pc), name))), eng.decide(st, self.hasval((self.elem(pc), 32)))]
        out.append(eng.decide(st, self.has(self.OPT, lit('help'))))
        return tuple(out)

    ACT, DELIM = ('s', ('activated',)), ('s', ('delimiter',))

    def pfx(self, cont):
        return ('s', ('pfx', cont))

    def load(self, eng, st, ins, ptr, size):
        q = eng.as_ptr(ptr)
        if q is None:
            return None
        c = self.is_elem(('p', q[0], 0)) if q[0][0] == 'o' else None
        if c is not None and q[1] == 0 and q[0] == self.elem(c):
            if self.is_args(c):
                return self.A(st)
            if c in (self.PREF, self.SPREF):
                return self.pfx(c)
        if q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'sm' and q[1] == 16:
            kind, t, n = q[0][1][1][1:]
            r = self.role(kind, n)
            return I(1) if r and r[1] == 'always' else self.matched(t) if r and r[1] == 'eq' else None
        if q[0] == ARGV and size == 8:
            i = self.index(q[1])
            if i is not None:
                return ('s', ('argvp', i))
        return MapRule.load(self, eng, st, ins, ptr, size)

    def role(self, kind, n):
        for x in self.patterns.values():
            if x.kind == kind and n in x.roles:
                return x.roles[n]
        return None

    def store(self, eng, st, ins, ptr, val, size):
        q = eng.as_ptr(ptr)
        if q and q[0] in (ARGC, ARGV) and not eng.decide_icmp(st, 'eq', ('s', ('cleanup',)), I(self.cleanup), 32):
            eng.report(ins, 'the command line of the caller is changed although no cleanup was requested')
        return None

    # -- loops
    def iter_call(self, eng, st, ins, name, args):
        q = self.pos(eng, st, args[0][1], ins)
        if q and q[0] == 'cur' and self.is_args(q[1]) and name in ('operator--', 'operator-=', 'operator-', 'operator+='):
            eng.report(ins, 'the loop goes back, or over several arguments')
        return MapRule.iter_call(self, eng, st, ins, name, args)

    def forget(self, eng, st, ins, cont):
        IterRule.forget(self, eng, st, ins, cont)
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, cont)}

    def on_restart(self, eng, st, ins, cont, handled):
        if self.is_args(cont) and handled != 'fill':
            eng.report(ins, 'the arguments are looked at twice')
        if cont in (self.PREF, self.SPREF):
            self.setrest(st, pfx=None)

    def rest(self, st):
        return dict(zip(('ev', 'gen', 'extra', 'pend', 'pfx'), st.mon[1]))

    def setrest(self, st, **kw):
        d = self.rest(st)
        d.update(kw)
        st.mon = (st.mon[0], tuple(d[k] for k in ('ev', 'gen', 'extra', 'pend', 'pfx')))

    def on_end(self, eng, st, ins, cont):
        pass

    def on_next(self, eng, st, ins, cont, handled):
        d = self.rest(st)
        if cont in (self.PREF, self.SPREF):
            if d['ev'] or d['pend']:
                return
            name = self.name(eng, st)
            m = eng.decide(st, self.match('prefix', (self.pfx(cont), name))) if name else None
            if m is None:
                eng.report(ins, 'a prefix option is skipped')
            elif m:
                eng.report(ins, 'a matching prefix option is ignored')
            return
        if not self.is_args(cont):
            return
        ev, pend, extra = d['ev'], None, d['extra']
        A = self.A(st)
        if len(ev) > 1:
            eng.report(ins, 'an argument is used more than once')
        for x in ev:
            if x[0] == 'opt':
                eng.report(ins, 'an option does not get the value which was given')
        if not ev:
            L, S = (eng.decide(st, self.match(k, A)) for k in ('long', 'short'))
            pend = self.expects(eng, st) if S else None
            if pend is None:
                if L is False and S is False and not extra and truth_of(eng, st, self.ACT) and eng.decide(st, streq(A, self.DELIM)):
                    extra = 1
                else:
                    eng.report(ins, 'an argument is ignored')
        g = 1 - d['gen']
        self.setrest(st, ev=(), gen=g, pend=pend, pfx=None, extra=extra)
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, ('gen', g))}
        for o in [o for o in st.mem if mentions(o, ('gen', g))]:
            del st.mem[o]

    def name(self, eng, st):
        A = self.A(st)
        for k in ('long', 'short'):
            if eng.decide(st, self.match(k, A)):
                return self.grp(k, 'name', A)
        return None

    def expects(self, eng, st):
        """target of the next argument, when the current one is a short option which has a value"""
        name = self.name(eng, st)
        h = eng.decide(st, self.has(self.SHORT, name))
        if h:
            o = (self.entry(self.SHORT, name), 32)
            return ('opt', self.option(o)) if eng.decide(st, self.hasval(o)) else None
        if h is False and eng.decide(st, self.match('prefix', (self.pfx(self.SPREF), name))):
            o = (self.elem(self.SPREF), 32)
            return ('pre', self.option(o), self.grp('prefix', 'rest', (self.pfx(self.SPREF), name))) if eng.decide(st, self.hasval(o)) else None
        return None

    # -- what should happen to the current argument
    def expect(self, eng, st):
        """(events which are right, message otherwise)"""
        d = self.rest(st)
        A = self.A(st)
        if d['extra']:
            return [('extra', A)], 'an argument behind the delimiter is not kept as an extra parameter'
        p = d['pend']
        if p:
            return [p + (A,)], 'the value of a short option is not stored under its name'
        L, S = (eng.decide(st, self.match(k, A)) for k in ('long', 'short'))
        if L or S:
            kind, m, pc = ('long', self.OPTS, self.PREF) if L else ('short', self.SHORT, self.SPREF)
            name = self.grp(kind, 'name', A)
            h = eng.decide(st, self.has(m, name))
            given = truth_of(eng, st, self.matched(A))
            if h:
                o = (self.entry(m, name), 32)
                hv = eng.decide(st, self.hasval(o))
                target = [self.option(o)] + ([name] if L else [])
                if hv is False:
                    return [('opt', t, lit('yes')) for t in target], 'an option without value is not stored as given'
                if hv and L and given:
                    return [('opt', t, self.grp(kind, 'value', A)) for t in target], 'a long option does not get its value'
                return [], 'an option is stored although its value is missing, or may be'
            if h is False:
                x = eng.decide(st, self.match('prefix', (self.pfx(pc), name)))
                s, hd = self.get(st, pc)
                if x and s in ('at', 'post'):
                    o = (self.elem(pc), 32)
                    hv = eng.decide(st, self.hasval(o))
                    target = [self.option(o)] + ([self.pfx(pc)] if L else [])
                    rest = self.grp('prefix', 'rest', (self.pfx(pc), name))
                    if hv is False:
                        return [('pre', t, rest, lit('yes')) for t in target], 'a prefix option without value is not stored as given'
                    if hv and L and given:
                        return [('pre', t, rest, self.grp(kind, 'value', A)) for t in target], 'a prefix option does not get its value'
                    return [], 'a prefix option is stored although its value is missing, or may be'
                if s == 'end' and eng.decide_icmp(st, 'eq', ('s', ('check',)), I(self.strict), 32) is False:
                    return [('non', A)], 'an unknown option is not kept as such'
            return [], 'an argument is used before the options have been looked up, or although it is an unknown option'
        if L is None or S is None:
            return [], 'an argument is used although it may be an option'
        if truth_of(eng, st, self.ACT) is not False and eng.decide(st, streq(A, self.DELIM)) is not False:
            return [], 'an argument is used although it may be the delimiter of the extra parameters'
        k, r, o = self.cell(eng, st, 0), ('s', ('size', self.REQ)), ('s', ('size', self.OPTIONAL))
        if self.below(eng, st, k, r):
            return [('opt', self.pname(self.REQ, k), A)], 'a required positional parameter does not get its argument'
        second = self.below(eng, st, k, ('x', 'add', r, o, 64))
        if second is None:
            second = self.below(eng, st, ('x', 'sub', k, r, 64), o)
        if self.below(eng, st, k, r) is False and second:
            return [('opt', self.pname(self.OPTIONAL, ('x', 'sub', k, r, 64)), A)], 'an optional positional parameter does not get its argument'
        if self.below(eng, st, k, r) is False and second is False:
            return [('non', A)], 'a further argument is not kept'
        return [], 'an argument is used although there may be a positional parameter for it'

    def enough(self, eng, st):
        """all required positional parameters are given"""
        return self.cell(eng, st, 2) == I(1) or self.below(eng, st, self.cell(eng, st, 0), ('s', ('size', self.REQ))) is False

    def below(self, eng, st, a, b):
        d = eng.decide_icmp(st, 'ult', a, b, 64)
        if d is None and b[0] == 'x':
            d = eng.decide_icmp(st, 'ult', a, ('x', 'add', b[3], b[2], 64), 64)
        return d

    def pname(self, cont, i):
        return ('vel', cont, i)

    def same_pname(self, eng, st, a, b):
        return a[1] == b[1] and self.same(eng, st, a[2], b[2])

    def event(self, eng, st, ins, ev):
        want, msg = self.expect(eng, st)
        ok = None
        for w in want:
            if w[0] != ev[0] or len(w) != len(ev) and ev[0] != 'opt':
                continue
            if ev[0] == 'opt':
                c, t = ev[1], w[1]
                if t[0] == 'vel':
                    v = c[1][1:] if c[0] == 's' and c[1][0] == 'velname' else None
                    if v and self.same_pname(eng, st, t, ('vel',) + v):
                        ok = ('opt', c, w[2], 'positional')
                elif c == t:
                    ok = ('opt', c, w[2])
            elif w[1:] == ev[1:]:
                ok = ev
        if ok is None:
            eng.report(ins, msg)
            ok = ('bad',)
        if ok[-1] == 'positional':
            self.setcell(eng, st, 0, self.plus(self.cell(eng, st, 0), 1))
            ok = ok[:-1]
        d = self.rest(st)
        if ok[0] != 'opt':
            ok = ('done',)
        self.setrest(st, ev=(d['ev'] + (ok,))[:3])

    # -- calls
    def cont_call(self, eng, st, ins, name, cont, args):
        if self.is_args(cont):
            if name in ('List', 'list', '~List', '~list', 'Vector', 'vector', 'deque', 'reserve'):
                return [Outcome('ret', None, st)]
            if name in ('push_back', 'emplace_back'):
                c = self.content(eng, st, args[1][1], ins)
                nx = self.cell(eng, st, 1)
                ok = c[0] == 's' and c[1][0] == 'txt' and c[1][1][0] == 's' and c[1][1][1][0] == 'argvp' and self.same(eng, st, c[1][1][1][1], nx)
                if not ok:
                    eng.report(ins, 'the arguments are not taken one after the other')
                self.setcell(eng, st, 1, self.plus(nx, 1))
                return [Outcome('ret', None, st)]
            if name in ('begin', 'cbegin') and self.get(st, cont)[0] is None:
                n = eng.mload(st, ('p', ARGC, 0), 4, ins)
                nx = self.cell(eng, st, 1)
                if not any(eng.decide_icmp(st, 'sge', a, b, w) for a, b, w in (
                        (nx, n, 32), (('x', 'trunc', nx, 64, 32), n, 32), (nx, ('x', 'sext', n, 32, 64), 64))):
                    eng.report(ins, 'not all arguments are looked at')
        if name in ('push_back', 'emplace_back') and cont == self.NON:
            self.event(eng, st, ins, ('non', self.content(eng, st, args[1][1], ins)))
            return [Outcome('ret', None, st)]
        if name in ('push_back', 'emplace_back') and cont == self.EXTRA:
            self.event(eng, st, ins, ('extra', self.content(eng, st, args[1][1], ins)))
            return [Outcome('ret', None, st)]
        if name in ('push_back', 'emplace_back'):
            q = eng.as_ptr(args[0][1])
            if q and q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'entry' and q[0][1][1][1] == self.PRE and q[1] == 32:
                o = args[1][1]
                a = eng.as_ptr(o)
                k, v = (self.content(eng, st, ('p', a[0], a[1] + x), ins) for x in (0, 32))
                self.event(eng, st, ins, ('pre', q[0][1][1][2], k, v))
                return [Outcome('ret', None, st)]
        if name == 'size' and cont in (self.REQ, self.OPTIONAL):
            return [Outcome('ret', ('s', ('size', cont)), st)]
        if name in ('operator', 'at') and cont in (self.REQ, self.OPTIONAL) and len(args) == 2:
            return [Outcome('ret', ('p', ('o', ('s', ('vel', cont, strip(args[1][1])))), 0), st)]
        if cont == self.NON and name in ('begin', 'end', 'size'):
            return quiet(eng, st, ins)
        return MapRule.cont_call(self, eng, st, ins, name, cont, args)

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        if base in ('std::map::operator[]', 'icl_core::Map::operator[]') and len(args) == 2 and self.cont_of(eng, args[0][1]) == self.OPT:
            self.event(eng, st, ins, ('opt', self.content(eng, st, args[1][1], ins)))
        m = re.match(r'(?:std|icl_core)::(?:vector|Vector)::operator\[\]$', base)
        if m:
            cont = self.cont_of(eng, args[0][1])
            r = self.cont_call(eng, st, ins, 'operator', cont, args) if cont else None
            if r is not None:
                return r
        return MapRule.call(self, eng, st, ins, sname, fn, args)

    def other(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname == 'boost::basic_regex::basic_regex' and len(a) >= 2:
            ty = self.types(eng)
            c = self.arg(eng, st, ins, ty[0], a[1]) if ty else None
            if c is None and ty and 'regex' in ty[0]:
                c = self.content(eng, st, a[1], ins)
            self.setc(eng, st, a[0], c if c is not None else ('s', ('some', eng.cur_path, ins.idx)))
            return [Outcome('ret', None, st)]
        if sname == 'boost::regex_match' and len(a) >= 3:
            return self.regex(eng, st, ins, a)
        if sname == 'boost::match_results::operator[]':
            q = self.content(eng, st, a[0], ins)
            n = strip(a[1])
            if q[0] == 's' and q[1][0] == 'res' and n[0] == 'i':
                return [Outcome('ret', ('p', ('o', ('s', ('sm', q[1][1], q[1][2], n[1]))), 0), st)]
            eng.report(ins, 'a group of an expression which did not match is used')
            return quiet(eng, st, ins)
        if sname == 'boost::match_results::size':
            q = self.content(eng, st, a[0], ins)
            if q[0] == 's' and q[1][0] == 'res':
                n = [x.groups for x in self.patterns.values() if x.kind == q[1][1]]
                return [Outcome('ret', I((n[0] if n else 1) + 1), st)]
            return quiet(eng, st, ins)
        if sname in ('boost::sub_match::operator std::basic_string', 'boost::sub_match::str') and len(a) == 2:
            q = eng.as_ptr(a[1])
            v = ('s', ('some', eng.cur_path, ins.idx))
            if q and q[1] == 0 and q[0][1][0] == 's' and q[0][1][1][0] == 'sm':
                kind, t, n = q[0][1][1][1:]
                r = self.role(kind, n)
                if n == 0 and kind != 'prefix':
                    v = t
                elif r and r[0]:
                    v = self.grp('prefix' if kind == 'rest' else kind, r[0], t)
            self.setc(eng, st, a[0], v)
            return [Outcome('ret', None, st)]
        if sname.startswith('boost::'):
            return quiet(eng, st, ins)
        if sname == C + 'GetoptParameter::hasValue':
            o = eng.as_ptr(a[0])
            return self.two(eng, st, self.hasval(o), lambda s: None, lambda s: None)
        if re.match(C + r'Getopt(Positional)?Parameter::(option|name)$', sname) and len(a) == 2:
            o = eng.as_ptr(a[1])
            v = self.option(o)
            if o and o[0][0] == 'o' and o[0][1][0] == 's' and o[0][1][1][0] == 'vel' and o[1] == 0:
                v = ('s', ('velname',) + o[0][1][1][1:])
            self.setc(eng, st, a[0], v)
            return [Outcome('ret', None, st)]
        if sname == G + '::printHelp':
            return [Outcome('ret', None, st)]
        if sname in ('exit', 'std::exit', '_exit', 'abort', 'quick_exit'):
            short = not self.enough(eng, st) and self.below(eng, st, self.cell(eng, st, 0), ('s', ('size', self.REQ)))
            if not self.complete(st) or not (short or eng.decide(st, self.has(self.OPT, lit('help')))):
                eng.report(ins, 'the program is ended although help is not wanted and all required parameters are given')
            return []
        if sname == 'std::find':
            return quiet(eng, st, ins)
        r = self.str_call(eng, st, ins, sname, args)
        if r is None and sname.startswith('std::'):
            r = quiet(eng, st, ins)
            if ins.ty == ('ptr',) and 'operator<<' in sname:
                r = [Outcome('ret', a[0], r[0].st)]
        return r

    def regex(self, eng, st, ins, a):
        t, r = self.content(eng, st, a[0], ins), self.content(eng, st, a[2], ins)
        A = self.A(st)
        l = is_lit(r)
        if l is not None:
            x = self.pattern(eng, ins, l)
            if t != A:
                eng.report(ins, 'something else than the current argument is looked at')
            kind = x.kind
            if kind is None:
                return self.unknown(eng, st, ins, a[1])
            if eng.decide(st, self.match({'long': 'short', 'short': 'long'}.get(kind, 'none'), t)):
                self.setc(eng, st, a[1], ('s', ('nores',)))
                return [Outcome('ret', I(0), st)]
        else:
            x = parts(r)
            if len(x) != 2 or x[0] not in (self.pfx(self.PREF), self.pfx(self.SPREF)) or is_lit(x[1]) is None:
                eng.report(ins, 'an argument is compared with an unknown expression')
                return self.unknown(eng, st, ins, a[1])
            y = self.pattern(eng, ins, is_lit(x[1]))
            if y.kind != 'rest':
                eng.report(ins, 'a prefix option is not its prefix followed by any text')
                return self.unknown(eng, st, ins, a[1])
            name = self.name(eng, st)
            right = self.PREF if name and name[1][1] == 'long' else self.SPREF
            if name is None or t != name or x[0] != self.pfx(right):
                eng.report(ins, 'something else than the name of the option is compared with the prefix options of its kind')
            if self.get(st, right)[0] not in ('at', 'post'):
                eng.report(ins, 'a prefix option behind the last one is used')
            kind, t = 'prefix', (x[0], t)
        sym = self.match(kind, t)
        return self.two(eng, st, sym, lambda s: self.setc(eng, s, a[1], ('s', ('res', 'rest' if kind == 'prefix' else kind, t))),
                        lambda s: self.setc(eng, s, a[1], ('s', ('nores',))))

    def unknown(self, eng, st, ins, res):
        self.setc(eng, st, res, ('s', ('nores',)))
        return quiet(eng, st, ins)

    def pattern(self, eng, ins, text):
        if text not in self.patterns:
            self.patterns[text] = Pattern(text)
        x = self.patterns[text]
        if x.kind is None:
            eng.report(ins, 'the expression %r does not recognise the options: it is wrong for %r' % (text, x.difference))
        return x

    def complete(self, st):
        return any(self.is_args(c) and s == 'end' for c, s, h in st.mon[0]) and not self.rest(st)['pend']

    def may_fail(self, eng, st):
        d = self.rest(st)
        if any(self.is_args(c) and s == 'end' for c, s, h in st.mon[0]):
            return bool(d['pend'])
        if d['ev'] or d['extra'] or d['pend']:
            return False
        A = self.A(st)
        for k, m, pc in (('long', self.OPTS, self.PREF), ('short', self.SHORT, self.SPREF)):
            if not eng.decide(st, self.match(k, A)):
                continue
            name = self.grp(k, 'name', A)
            h = eng.decide(st, self.has(m, name))
            miss = k == 'long' and truth_of(eng, st, self.matched(A)) is False
            if h:
                return miss and bool(eng.decide(st, self.hasval((self.entry(m, name), 32))))
            if h is None:
                return False
            s, _ = self.get(st, pc)
            if s == 'end':
                return bool(eng.decide_icmp(st, 'eq', ('s', ('check',)), I(self.strict), 32))
            return bool(eng.decide(st, self.match('prefix', (self.pfx(pc), name))) and miss and eng.decide(st, self.hasval((self.elem(pc), 32))))
        return False


def g03_scan(ctx, p):
    rule = 'arguments'
    off = offsets(p, G, ('m_parameters', 'm_prefix_parameters', 'm_short_parameters', 'm_short_prefix_parameters', 'm_required_positional_parameters',
                         'm_optional_positional_parameters', 'm_extra_cmd_param_activated', 'm_extra_cmd_param_delimiter', 'm_initialized', 'm_argc',
                         'm_argv', 'm_program_name', 'm_param_non_opt', 'm_param_opt', 'm_prefix_param_opt', 'm_extra_cmd_param'))
    fs = [f for f in one_of(p, G + '::initialize') if len(p.param_list(f.name)[0]) == 4]
    if len(fs) != 1:
        raise Broken('Getopt::initialize was not found')
    f = fs[0]
    bad = lambda msg: ctx.violation(rule, p.fwhere(f), G + '::initialize', msg)
    o = lambda n: off[n][0]
    for init in (0, 1):
        r = ArgRule(p, off)
        r.strict, r.cleanup = 0, 1
        e = Engine(p, r)
        mem = {THIS: {o('m_initialized'): (I(init), 1), o('m_extra_cmd_param_activated'): (r.ACT, 1), o('m_extra_cmd_param_delimiter'): (r.DELIM, 8)},
               ARGC: {0: (('s', ('argc',)), 4)}, MON: {0: (I(0), 8), 8: (I(1), 8), 16: (I(0), 8)}}
        seen = set()
        for x in e.explore(f, [('p', THIS, 0), ('p', ARGC, 0), ('p', ARGV, 0), ('s', ('cleanup',)), ('s', ('check',))], ((), ((), 0, 0, None, None)), mem=mem):
            if x.kind != 'ret':
                bad('an exception leaves the function')
                continue
            st = x.st
            t = truth_of(e, st, x.ret)
            empty = e.decide_icmp(st, 'eq', ('s', ('argc',)), I(0), 32)
            now = strip(e.mload(st, ('p', THIS, o('m_initialized')), 1, None))
            began = bool([c for c, s, h in st.mon[0] if r.is_args(c)])
            if empty:
                if t is not False or now != I(init) or began:
                    bad('an empty command line is not refused')
                continue
            seen.add(t)
            if init:
                if t is not True or began or now != I(1):
                    bad('a second initialisation does something')
                continue
            if t is None or now != I(int(t)):
                bad('is marked as initialised although that failed, or is not marked')
            if t is False and not r.may_fail(e, st):
                bad('fails although every option is known and has its value')
            if t:
                if not r.complete(st):
                    bad('succeeds before all arguments have been looked at, or although the value of the last one is missing')
                if not r.enough(e, st):
                    bad('succeeds although a required positional parameter is missing')
                if r.content(e, st, ('p', THIS, o('m_program_name')), None) != ('s', ('txt', ('s', ('argvp', I(0))))):
                    bad('the name of the program is not kept')
                if strip(e.mload(st, ('p', THIS, o('m_argc')), 4, None)) != ('s', ('argc',)) or e.mload(st, ('p', THIS, o('m_argv')), 8, None) != ('p', ARGV, 0):
                    bad('the original command line is not kept')
        if not init and seen != {True, False}:
            bad('never %s' % ('succeeds' if True not in seen else 'fails'))
        ctx.ok(rule, 'initialize (%s)' % ('again' if init else 'first'))
        ctx.take(e, rule)


OBJ, RES = ('o', ('s', 'object')), ('o', ('s', 'result'))


class PlainRule(MapRule):
    """Small functions on strings and containers; rest = what was stored: ((container, what, ...), ...)"""
    join_limit = 8

    def keep(self, obj, off):
        return obj in (OBJ, RES, MON) or MapRule.keep(self, obj, off)

    def rename_rest(self, eng, rest, f):
        return rest

    def inline(self, eng, fn, sname):
        return bool(re.match(C + r'(Getopt|Config)', sname)) and not sname.endswith('::instance')

    def load(self, eng, st, ins, ptr, size):
        q = eng.as_ptr(ptr)
        if q and q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'chars' and q[1] == 0 and size == 1:
            c, i = q[0][1][1][1:]
            d = lin(i)
            if i == ('s', ('last', c)) or d == {('s', ('len', c)): 1, 1: -1}:
                return ('s', ('lastchar', c))
        return MapRule.load(self, eng, st, ins, ptr, size)

    def rit(self, eng, st, v, ins):
        w = eng.mload(st, v, 8, ins)
        return w[1][1] if w[0] == 's' and w[1][0] == 'rit' else None

    def cont_call(self, eng, st, ins, name, cont, args):
        if name == 'insert' and len(args) == 2:
            q = eng.as_ptr(args[1][1])
            c = self.content(eng, st, args[1][1], ins)
            w = eng.mload(st, ('p', q[0], q[1] + 8), 8, ins) if q and isinstance(q[1], int) else None
            st.mon = (st.mon[0], st.mon[1] + ((cont, c, w),))
            return quiet(eng, st, ins) if ins.ty == ('void',) else [Outcome('ret', UNKNOWN(eng, ins), st)]
        if name == 'push_back':
            st.mon = (st.mon[0], st.mon[1] + ((cont, args[1][1]),))
            return [Outcome('ret', None, st)]
        if name == 'size':
            return [Outcome('ret', ('s', ('size', cont)), st)]
        if name in ('at', 'operator') and len(args) == 2 and not (eng.p.param_list(eng.cur_name)[0] or [''])[0].count('string'):
            i = strip(args[1][1])
            if name == 'at' and eng.decide_icmp(st, 'ult', i, ('s', ('size', cont)), 64) is not True:
                eng.report(ins, 'an element behind the last one is used')
            return [Outcome('ret', ('p', ('o', ('s', ('vel', cont, i))), 0), st)]
        if name in ('List', 'Vector', 'list', 'vector'):
            q = eng.as_ptr(args[0][1])
            st.mem.setdefault(q[0], {})
            eng.mstore(st, args[0][1], ('s', ('copyof', self.cont_of(eng, args[1][1]) if len(args) > 1 else None)), 8)
            return [Outcome('ret', None, st)]
        return MapRule.cont_call(self, eng, st, ins, name, cont, args)

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        if re.match(r'(?:std|icl_core)::(?:vector|Vector)::operator\[\]$', base):
            cont = self.cont_of(eng, args[0][1])
            if cont:
                return self.cont_call(eng, st, ins, 'operator', cont, args)
        return MapRule.call(self, eng, st, ins, sname, fn, args)

    def other(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname == 'std::basic_string::rbegin':
            eng.mstore(st, a[0], ('s', ('rit', self.content(eng, st, a[1], ins))), 8)
            return [Outcome('ret', None, st)]
        if sname == 'std::reverse_iterator::operator*':
            c = self.rit(eng, st, a[0], ins)
            if c is not None:
                return [Outcome('ret', ('p', ('o', ('s', ('chars', c, ('s', ('last', c))))), 0), st)]
        if sname == 'std::make_pair' and len(a) == 3:
            q = eng.as_ptr(a[0])
            self.setc(eng, st, a[0], self.content(eng, st, a[1], ins))
            eng.mstore(st, ('p', q[0], q[1] + 8), a[2], 8)
            return [Outcome('ret', None, st)]
        if re.match(r'std::pair::(pair|~pair)$', sname):
            return [Outcome('ret', None, st)]
        return self.str_call(eng, st, ins, sname, args)


def UNKNOWN(eng, ins):
    return ('s', ('r', eng.cur_path, ins.idx))


def fun(p, name, sub=None, n=None):
    """functions of that name which have sub in their parameter types"""
    out = []
    for f in one_of(p, name):
        ty = p.param_list(f.name)[0]
        if (n is None or len(ty) == n) and (sub is None or sub in ' '.join(ty)):
            out.append(f)
    if not out:
        raise Broken('%s(%s) was not found' % (name, sub))
    return out


def g03_parameters(ctx, p):
    rule = 'parameters'
    sym = lambda n: ('s', (n,))
    strs = {n: ('o', ('s', n + ' text')) for n in ('option', 'short', 'help', 'key', 'default', 'name')}
    smem = {o: {0: (sym(n), 8)} for n, o in strs.items()}

    class R(PlainRule):
        def keep(self, obj, off):
            return True
    kinds = {
        'GetoptParameter': (['option', 'short', 'help', '?m_is_prefix'], {'m_short_option': 'short', 'm_help': 'help'}),
        'ConfigParameter': (['option', 'short', 'key', 'help', 'default'], {'m_short_option': 'short', 'm_config_key': 'key', 'm_default_value': 'default'}),
        'GetoptPositionalParameter': (['name', 'help', '?m_is_optional'], {'m_name': 'name', 'm_help': 'help'}),
        'ConfigPositionalParameter': (['name', 'key', 'help', '?m_is_optional', 'default'], {'m_name': 'name', 'm_config_key': 'key', 'm_default_value': 'default'}),
    }
    getters = {'option': 'm_option', 'shortOption': 'm_short_option', 'hasValue': 'm_has_value', 'isPrefixOption': 'm_is_prefix', 'name': 'm_name',
               'isOptional': 'm_is_optional', 'configKey': 'm_config_key', 'defaultValue': 'm_default_value'}
    for cls, (params, want) in sorted(kinds.items()):
        names = [x for x in want] + [x[1:] for x in params if x[0] == '?'] + (['m_option', 'm_has_value'] if 'option' in params else [])
        off = offsets(p, C + cls, names)
        ctor = [f for f in fun(p, C + cls + '::' + cls) if len(p.param_list(f.name)[0]) == len(params)]
        if not ctor:
            raise Broken('the constructor of %s was not found' % cls)
        f = ctor[0]
        bad = lambda msg: ctx.violation(rule, p.fwhere(f), '%s%s::%s' % (C, cls, cls), msg)
        e = Engine(p, R())
        args = [('p', OBJ, 0)] + [('p', strs[x], 0) if x[0] != '?' else sym(x[1:]) for x in params]
        facts = {}
        seen = set()
        for o in e.explore(f, args, ((), ()), mem=smem):
            if o.kind != 'ret':
                bad('an exception leaves the function')
                continue
            st = o.st
            rd = lambda m: e.mload(st, ('p', OBJ, off[m][0]), off[m][1] if off[m][1] == 1 else 8, None)
            for m, n in want.items():
                if m == 'm_help' and rd(m) != sym(n) or m != 'm_help' and rd(m) != sym(n):
                    bad('%s does not become the one given' % m)
            for x in params:
                if x[0] == '?':
                    v, w = rd(x[1:]), sym(x[1:])
                    if strip(v) != strip(w) and strip(v) != strip(('x', 'zext', w, 1, 8)):
                        bad('%s does not become the one given' % x[1:])
            if 'option' in params:
                c = sym('option')
                empty = e.decide(st, streq(c, EMPTY))
                ch = ('s', ('lastchar', c))
                colon = None
                for v, w in ((ch, 8), (('x', 'sext', ch, 8, 32), 32), (('x', 'zext', ch, 8, 32), 32)):
                    d = e.decide_icmp(st, 'eq', v, I(58), w)
                    colon = d if d is not None else colon
                has = truth_of(e, st, rd('m_has_value'))
                seen.add(has)
                if has:
                    t = rd('m_option')
                    ok = t[0] == 's' and t[1][0] == 'sub' and t[1][1] == c and lin(t[1][2]) == {} and lin(t[1][3]) == {('s', ('len', c)): 1, 1: -1}
                    if empty is not False or not colon or not ok:
                        bad('an option has a value, although its description does not end with a colon, or the colon remains in its name')
                elif has is None or not (empty or colon is False) or rd('m_option') != c:
                    bad('an option which ends with a colon has no value, or its name is not the one given')
        if 'option' in params and seen != {True, False}:
            bad('an option never has %s value' % ('a' if True not in seen else 'no'))
        ctx.ok(rule, cls)
        ctx.take(e, rule)
        for g, m in sorted(getters.items()):
            if m not in off:
                continue
            for f in [f for f in p.find(C + cls + '::' + g) if p.in_repo(f)]:
                e = Engine(p, R())
                text = ('ret' in ()) or m not in ('m_has_value', 'm_is_prefix', 'm_is_optional')
                for o in e.explore(f, ([('p', RES, 0)] if text else []) + [('p', OBJ, 0)], ((), ()), mem={OBJ: {off[m][0]: (sym(m), 8 if text else 1)}}):
                    v = e.mload(o.st, ('p', RES, 0), 8, None) if text else o.ret
                    if strip(v) != sym(m) and not (v[0] == 'x' and strip(v[2] if v[1] != 'icmp' else v[3]) == sym(m)):
                        bad('%s() is not the %s given' % (g, m))
                ctx.ok(rule, '%s::%s' % (cls, g))
                ctx.take(e, rule)
        for f in [f for f in p.find(C + cls + '::hasDefaultValue') if p.in_repo(f)]:
            e = Engine(p, R())
            for o in e.explore(f, [('p', OBJ, 0)], ((), ()), mem={OBJ: {off['m_default_value'][0]: (sym('default'), 8)}}):
                q = streq(sym('default'), EMPTY)
                for t in (True, False):
                    s = o.st.copy()
                    if e.assume(s, q, t) and truth_of(e, s, o.ret) is not (not t):
                        bad('hasDefaultValue() does not tell whether there is a default value')
            ctx.ok(rule, cls + '::hasDefaultValue')
            ctx.take(e, rule)


def g03_registration(ctx, p):
    rule = 'registration'
    off = offsets(p, G, ('m_parameters', 'm_prefix_parameters', 'm_short_parameters', 'm_short_prefix_parameters', 'm_required_positional_parameters',
                         'm_optional_positional_parameters'))
    po = offsets(p, C + 'GetoptParameter', ('m_option', 'm_short_option', 'm_is_prefix'))
    qo = offsets(p, C + 'GetoptPositionalParameter', ('m_is_optional',))
    c = lambda n: repr((THIS, off[n][0]))
    OPT, SH, PRE = ('s', ('option',)), ('s', ('short',)), ('s', ('prefix',))
    for f in one_of(p, G + '::addParameter'):
        ty = p.param_list(f.name)[0][0]
        bad = lambda msg: ctx.violation(rule, p.fwhere(f), G + '::addParameter', msg)
        r = PlainRule()
        if 'Vector' in ty or 'List' in ty or 'vector' in ty:
            r = EachRule()
            e = Engine(p, r)
            for o in e.explore(f, [('p', THIS, 0), ('p', OBJ, 0)], ((), ())):
                if not any(cont == repr((OBJ, 0)) and s == 'end' for cont, s, h in o.st.mon[0]):
                    bad('not all parameters of the list are added')
            ctx.ok(rule, 'addParameter(list of %s)' % ty.rsplit('::', 1)[-1])
            ctx.take(e, rule)
            continue
        e = Engine(p, r)
        if 'Positional' in ty:
            for o in e.explore(f, [('p', THIS, 0), ('p', OBJ, 0)], ((), ()), mem={OBJ: {qo['m_is_optional'][0]: (PRE, 1)}}):
                t = truth_of(e, o.st, PRE)
                if t is None or o.st.mon[1] != ((c('m_optional_positional_parameters' if t else 'm_required_positional_parameters'), ('p', OBJ, 0)),):
                    bad('a positional parameter is not added once to the list of its kind')
            ctx.ok(rule, 'addParameter (positional)')
        else:
            seen = set()
            mem = {OBJ: {po['m_option'][0]: (OPT, 8), po['m_short_option'][0]: (SH, 8), po['m_is_prefix'][0]: (PRE, 1)}}
            for o in e.explore(f, [('p', THIS, 0), ('p', OBJ, 0)], ((), ()), mem=mem):
                t, s = truth_of(e, o.st, PRE), e.decide(o.st, streq(SH, EMPTY))
                seen.add((t, s))
                w = [(c('m_prefix_parameters' if t else 'm_parameters'), OPT, ('p', OBJ, 0))]
                if s is False:
                    w.append((c('m_short_prefix_parameters' if t else 'm_short_parameters'), SH, ('p', OBJ, 0)))
                if t is None or s is None or sorted(map(repr, o.st.mon[1])) != sorted(map(repr, w)):
                    bad('a %s is not registered once under its option, and under its short option if it has one' % ('prefix parameter' if t else 'parameter'))
            ctx.ok(rule, 'addParameter (option)')
        ctx.take(e, rule)


class EachRule(PlainRule):
    def on_next(self, eng, st, ins, cont, handled):
        if handled != 1:
            eng.report(ins, 'a parameter of the list is not added once')

    def inline(self, eng, fn, sname):
        return False

    def other(self, eng, st, ins, sname, fn, args):
        if sname == G + '::addParameter':
            c = self.is_elem(args[1][1])
            if c is None or args[0][1] != ('p', THIS, 0):
                eng.report(ins, 'something else than the current parameter of the list is added')
            else:
                self.handle(st, c)
            return [Outcome('ret', None, st)]
        return PlainRule.other(self, eng, st, ins, sname, fn, args)


def g03_accessors(ctx, p):
    rule = 'accessors'
    off = offsets(p, G, ('m_param_non_opt', 'm_param_opt', 'm_prefix_param_opt', 'm_extra_cmd_param', 'm_program_name', 'm_initialized', 'm_argc', 'm_argv',
                         'm_extra_cmd_param_activated', 'm_extra_cmd_param_delimiter'))
    cont = lambda n: repr((THIS, off[n][0]))
    KEY = ('o', ('s', 'key'))
    k = ('s', ('key',))
    i = ('s', ('index',))
    where = {}

    def run(name, args, mem=None):
        f = fun(p, G + '::' + name)[0]
        r = PlainRule()
        e = Engine(p, r)
        outs = e.explore(f, args, ((), ()), mem=dict({KEY: {0: (k, 8)}}, **{}) if mem is None else mem)
        ctx.ok(rule, name)
        ctx.take(e, rule)
        return r, e, outs, lambda msg: ctx.violation(rule, p.fwhere(f), G + '::' + name, msg)
    T = ('p', THIS, 0)
    for name, m, text in (('paramOpt', 'm_param_opt', 1), ('paramPrefixOpt', 'm_prefix_param_opt', 0)):
        r, e, outs, bad = run(name, [('p', RES, 0), T, ('p', KEY, 0)])
        seen = set()
        for o in outs:
            h = e.decide(o.st, r.has(cont(m), k))
            seen.add(h)
            v = e.mload(o.st, ('p', RES, 0), 8, None)
            if h:
                en = r.entry(cont(m), k)
                ok = v == ('s', ('value', cont(m), k)) if text else v == ('s', ('copyof', repr((en, 32))))
            else:
                ok = h is False and (v == EMPTY if text else v == ('s', ('copyof', None)))
            if not ok:
                bad('does not return what was given for that name%s' % ('' if h else ', or nothing'))
        if seen != {True, False}:
            bad('does not depend on whether the option was given')
        r, e, outs, bad = run(name + 'Present', [T, ('p', KEY, 0)])
        for o in outs:
            h = e.decide(o.st, r.has(cont(m), k))
            if h is None or truth_of(e, o.st, o.ret) is not h:
                bad('does not tell whether the option was given')
    for name, m, check in (('paramNonOpt', 'm_param_non_opt', True), ('extraCmdParam', 'm_extra_cmd_param', False)):
        r, e, outs, bad = run(name, [('p', RES, 0), T, i])
        n = ('s', ('size', cont(m)))
        for o in outs:
            b = e.decide_icmp(o.st, 'ult', i, n, 64)
            v = e.mload(o.st, ('p', RES, 0), 8, None)
            el = e.mload(o.st, ('p', ('o', ('s', ('vel', cont(m), i))), 0), 8, None)
            if b is False and v != EMPTY and check or b is not False and v != el or b is None and check:
                bad('does not return the parameter at that index%s' % (', or an empty text behind the last one' if check else ''))
        r, e, outs, bad = run(name + 'Count', [T])
        for o in outs:
            if strip(o.ret) != n:
                bad('does not return the number of parameters')
    for name, m, size in (('isInitialized', 'm_initialized', 1), ('argv', 'm_argv', 8)):
        v = ('s', ('member', m))
        r, e, outs, bad = run(name, [T], mem={THIS: {off[m][0]: (v, size)}})
        for o in outs:
            if strip(o.ret) != v and not (o.ret[0] == 'x' and strip(o.ret[3] if o.ret[1] == 'icmp' else o.ret[2]) == v):
                bad('does not return %s' % m)
    r, e, outs, bad = run('programName', [('p', RES, 0), T], mem={THIS: {off['m_program_name'][0]: (k, 8)}})
    for o in outs:
        if e.mload(o.st, ('p', RES, 0), 8, None) != k:
            bad('does not return the name of the program')
    r, e, outs, bad = run('activateExtraCmdParams', [T, ('p', KEY, 0)])
    for o in outs:
        if e.mload(o.st, ('p', THIS, off['m_extra_cmd_param_delimiter'][0]), 8, None) != k or \
                strip(e.mload(o.st, ('p', THIS, off['m_extra_cmd_param_activated'][0]), 1, None)) != I(1):
            bad('does not activate the extra parameters with the delimiter given')


class StartRule(Rule):
    """config::initialize(): mon = events"""
    def call(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        m = re.match(C + r'(Getopt|ConfigManager)::(instance|initialize)$', sname)
        if not m:
            return None
        c, n = m.groups()
        if n == 'instance':
            if (c, 'made') not in st.mon:
                st.mon = st.mon + ((c, 'made'),)
            return [Outcome('ret', ('p', ('o', ('s', c)), 0), st)]
        if a[0] != ('p', ('o', ('s', c)), 0):
            eng.report(ins, 'another object than the instance is initialised')
        if c == 'Getopt':
            want = [('p', ARGC, 0), ('p', ARGV, 0)]
            if a[1:3] != want:
                eng.report(ins, 'other arguments than the ones given are used')
            if len(a) == 5 and [strip(x) for x in a[3:]] != [('s', ('cleanup',)), ('s', ('check',))]:
                eng.report(ins, 'the options of the initialisation are not passed on')
        out = []
        for t in (1, 0):
            s = st.copy()
            s.mon = s.mon + ((c, t),)
            out.append(Outcome('ret', I(t), s))
        return out


def g03_start(ctx, p):
    rule = 'start'
    f = [f for f in one_of(p, C + 'initialize') if len(p.param_list(f.name)[0]) == 4][0]
    e = Engine(p, StartRule())
    bad = lambda msg: ctx.violation(rule, p.fwhere(f), C + 'initialize', msg)
    for o in e.explore(f, [('p', ARGC, 0), ('p', ARGV, 0), ('s', ('cleanup',)), ('s', ('check',))], ()):
        m = [x for x in o.st.mon]
        t = truth_of(e, o.st, o.ret)
        runs = [x for x in m if x[1] in (0, 1)]
        if not runs or runs[0][0] != 'Getopt' or m.index(runs[0]) < (m.index(('ConfigManager', 'made')) if ('ConfigManager', 'made') in m else 99):
            bad('the command line is not read first, with the parameters of the configuration registered')
        elif runs[0][1] == 0:
            if len(runs) > 1 or t is not False:
                bad('goes on although the command line is wrong')
        elif len(runs) != 2 or runs[1][0] != 'ConfigManager' or t is not bool(runs[1][1]):
            bad('the configuration is not initialised once, or its result is not returned')
    ctx.ok(rule, 'initialize')
    ctx.take(e, rule)


def g03(ctx):
    ctx.rule('arguments', 'every argument of the command line becomes exactly one option, prefix option, positional, extra or other parameter, with its value')
    ctx.rule('parameters', 'the description of a parameter keeps what it was given; a colon behind the option means that it has a value')
    ctx.rule('registration', 'a parameter is registered once under its option and its short option, among the ones of its kind')
    ctx.rule('accessors', 'the accessors return what was given for a name or at an index')
    ctx.rule('start', 'the command line is read before the configuration, whose parameters are registered before')
    p = ctx.load(['icl_core_config'])
    g03_parameters(ctx, p)
    g03_registration(ctx, p)
    g03_accessors(ctx, p)
    g03_start(ctx, p)
    g03_scan(ctx, p)
