"""Configuration: typed access (G01), where the values come from (G02)."""
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .containers import IterRule

C = 'icl_core::config::'
KEYSTR, PREFIX, NAME, INDEX = ('s', ('key',)), ('s', ('prefix',)), ('s', ('name',)), ('s', ('index',))
YES, NO = ('1', 'yes', 'true'), ('0', 'no', 'false')


def quiet(eng, st, ins, path_tag='quiet'):
    if ins.idx in st.defd:
        eng.redefine(st, ins.idx)
    st.defd = st.defd | {ins.idx}
    return [Outcome('ret', None if ins.ty == ('void',) else ('s', ('r', eng.cur_path, ins.idx)), st)]


class ReadRule(StrModel):
    """Reading one value: where it comes from, whether it was found and converted."""
    MANAGER, GETOPT = ('o', ('s', 'configuration')), ('o', ('s', 'commandline'))

    def keep(self, obj, off):
        return obj in (self.MANAGER, self.GETOPT) or obj[0] == 'o' and obj[1][0] == 's' and obj[1][1] in ('target', 'object', 'default')

    def inline(self, eng, fn, sname):
        return not sname.startswith('icl_core::logging::')

    def pure_repo(self, sname):
        return sname.startswith('icl_core::logging::')

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        if base == C + 'ConfigManager::instance':
            return [Outcome('ret', ('p', self.MANAGER, 0), st)]
        if base == C + 'Getopt::instance':
            return [Outcome('ret', ('p', self.GETOPT, 0), st)]
        q = eng.as_ptr(a[0]) if a else None
        if base in ('icl_core::KeyValueDirectory::get', 'icl_core::KeyValueDirectory::hasKey'):
            if not q or q[0] != self.MANAGER:
                eng.report(ins, 'the value is not read from the configuration')
            k = self.content(eng, st, a[1], ins)
            put = (lambda s: self.setc(eng, s, a[2], ('s', ('value', 'configuration', k)))) if len(a) > 2 else (lambda s: None)
            return self.two(eng, st, ('s', ('has', 'configuration', k)), put, lambda s: None)
        if base == C + 'Getopt::paramOptPresent':
            return [Outcome('ret', ('s', ('has', 'option', self.content(eng, st, a[1], ins))), st)]
        if base == C + 'Getopt::paramOpt':
            k = self.content(eng, st, a[2], ins)
            self.setc(eng, st, a[0], ('s', ('value', 'option', k)))
            return [Outcome('ret', None, st)]
        if base == C + 'Getopt::paramNonOptCount':
            return [Outcome('ret', ('s', ('arguments',)), st)]
        if base == C + 'Getopt::paramNonOpt':
            self.setc(eng, st, a[0], ('s', ('value', 'argument', a[2])))
            return [Outcome('ret', None, st)]
        if base in ('icl_core::string2Enum', 'icl_core::String2Enum'):
            c = self.content(eng, st, a[0], ins)
            sym = ('s', ('enum?', c) + tuple(a[2:]))
            return self.two(eng, st, sym, lambda s: eng.mstore(s, a[1], ('s', ('enum', c) + tuple(a[2:])), 4 if 'int&' in repr(self.types(eng)) else 8),
                            lambda s: None)
        if re.match(r'boost::function\d*::operator\(\)$', base):
            return [Outcome('ret', ('p', ('o', ('s', ('member', a[1]))), 0), st)]
        r = self.str_call(eng, st, ins, base, args)
        if r is not None:
            return r
        if base.startswith('icl_core::logging::'):
            return quiet(eng, st, ins)
        return None


TARGET = ('o', ('s', 'target'))
KINDS = {'int': 'number', 'unsigned int': 'number', 'long': 'number', 'double': 'number', 'bool': 'bool', 'std::string': 'text', 'vf::Color': 'enum'}
SIZES = {'int': 4, 'unsigned int': 4, 'long': 8, 'double': 8, 'bool': 1, 'std::string': 8, 'vf::Color': 4}


def unwrap(v):
    v = strip(v)
    while v[0] == 'x' and v[1] in ('bitcast', 'trunc', 'zext', 'sext'):
        v = v[2]
    return v


def verdict(eng, st, has, text, ty, extra=None):
    """(succeeds, wanted value) as far as the path decides it; None: the path does not decide it"""
    kind = KINDS[ty]
    h = eng.decide(st, has)
    if h is False:
        return False, None
    if h is None:
        return None, None
    if kind == 'text':
        return True, text
    if kind == 'number':
        c = ('s', ('conv?', text, ty))
        d = eng.decide(st, c)
        return d, ('s', ('conv', text, ty))
    if kind == 'enum':
        d = eng.decide(st, ('s', ('enum?', text) + tuple(extra)))
        return d, ('s', ('enum', text) + tuple(extra))
    # boolean
    forms = [('s', ('lower', text)), ('s', ('lower', ('s', ('conv', text, 'string'))))]
    for f in forms:
        t = [eng.decide(st, streq(f, lit(x))) for x in YES]
        n = [eng.decide(st, streq(f, lit(x))) for x in NO]
        if True in t:
            return True, I(1)
        if True in n:
            return True, I(0)
        if all(x is False for x in t + n):
            return False, None
    if eng.decide(st, ('s', ('conv?', text, 'string'))) is False:
        return False, None
    return None, None


def judge(bad, eng, st, ret, got, has, text, ty, old, default=None, extra=None, always=False):
    """ret: result (None: the value itself is returned); got: value of the target afterwards; old: before"""
    ok, want = verdict(eng, st, has, text, ty, extra)
    r = None if ret is None else truth_of(eng, st, ret)
    if ret is not None and r is None:
        return bad('returns a result which does not tell success from failure')
    same = lambda x, y: unwrap(x) == unwrap(y)
    if ok is None:
        return bad('decides about success without having looked up the key and converted the text')
    if ok:
        if r is False:
            return bad('reports failure although the key exists and its text was converted')
        if got is None or not same(got, want):
            return bad('does not deliver the converted value')
    else:
        if r is True and not always:
            return bad('reports success although the key is missing or its text can not be converted')
        if r is False and always:
            return bad('reports failure although there is a default value')
        w = default if default is not None else old
        if got is None or not same(got, w):
            return bad('does not deliver the default value' if default is not None else 'changes the target although nothing was read')
    return None


def truth_of(eng, st, v):
    for w in (1, 8):
        for x in (v, ('x', 'trunc', v, 8, 1)):
            d = eng.decide_icmp(st, 'ne', x, I(0), w)
            if d is not None:
                return d
    return eng.decide(st, v)


FN = re.compile(r'^(?:(bool|int|unsigned int|long|double|std::string|vf::Color) )?icl_core::config::(get|getDefault|paramOpt|paramOptDefault|paramNonOpt)<(.*?)>\((.*)\)$')


def text_of(r, e, mem, st, obj, c):
    mem.setdefault(obj, {})[0] = (c, 8)


def g01_functions(ctx, p):
    rule = 'functions'
    n = 0
    for f in p.iter_funcs():
        m = FN.match(p.fullname(f.name))
        if not m or m.group(3) not in KINDS:
            continue
        name, ty, pl = m.group(2), m.group(3), p.param_list(f.name)[0]
        n += 1
        r = ReadRule()
        e = Engine(p, r)
        default = name.endswith('Default')
        sret = default and ty == 'std::string'
        K = ('o', ('s', 'keystring'))
        mem = {K: {0: (KEYSTR, 8)}, TARGET: {0: (('s', 'old'), SIZES[ty])}}
        a = []
        if sret:
            a.append(('p', ('o', ('s', 'result')), 0))
        by_text = pl[0] in ('char const*', 'const char*')
        if name == 'paramNonOpt':
            a.append(INDEX)
            src, key = 'argument', INDEX
            has = ('x', 'icmp', 'ult', INDEX, ('s', ('arguments',)), 64)
        else:
            a.append(('s', 'keytext') if by_text else ('p', K, 0))
            src = 'configuration' if name.startswith('get') else 'option'
            key = ('s', ('txt', ('s', 'keytext'))) if by_text else KEYSTR
            has = ('s', ('has', src, key))
        a.append(('p', TARGET, 0))
        extra = None
        if len(pl) > 2:
            extra = [('s', 'descriptions'), ('s', 'endmarker')]
            a += extra
        where = p.fwhere(f)
        what = '%s<%s>(%s)' % (name, ty, ', '.join(pl))
        bad = lambda msg: ctx.violation(rule, where, C + name + '<' + ty + '>', msg)
        seen = set()
        for o in e.explore(f, a, (), mem=mem):
            if o.kind != 'ret':
                bad('an exception leaves the function')
                continue
            st = o.st
            text = ('s', ('value', src, key))
            got = e.mload(st, ('p', TARGET, 0), SIZES[ty], None)
            ret = o.ret
            dv = None
            if default:
                if unwrap(got) != ('s', 'old'):
                    bad('changes the default value')
                got = r.content(e, st, a[0], None) if sret else o.ret
                ret, dv = None, ('s', 'old')
            judge(bad, e, st, ret, got, has, text, ty, ('s', 'old'), dv, extra)
            seen.add(verdict(e, st, has, text, ty, extra)[0])
        if True not in seen:
            bad('never succeeds')
        if False not in seen:
            bad('never fails')
        ctx.ok(rule, what)
        ctx.take(e, rule)
    return n


CLS = re.compile(r'^icl_core::config::(ConfigValue|ConfigValueDefault|ConfigEnum|ConfigEnumDefault|MemberValue|MemberEnum)<(\w+(?:::\w+)?|unsigned int)(?:, vf::Plain)?(?:, int)? ?>$')


def g01_classes(ctx, p):
    rule = 'objects'
    obj, deff = ('o', ('s', 'object')), ('o', ('s', 'default'))
    for c in sorted(p.classes()):
        m = CLS.match(norm_cls(c))
        if not m or m.group(2) not in KINDS:
            continue
        kind, ty = m.group(1), m.group(2)
        default, member = kind.endswith('Default'), kind.startswith('Member')
        getters, ks = {}, []
        for f in p.iter_funcs():
            m2 = re.match(r'(?:[\w:]+ )?%s::(\w+)(?:\[abi:cxx11\])?\(' % re.escape(norm_cls(c).replace(' >', '>')), norm_cls(p.fullname(f.name)))
            if m2 and m2.group(1) != kind:
                getters[m2.group(1)] = f
            elif m2 and not re.search(r'\b%s<' % kind, ' '.join(p.param_list(f.name)[0])):
                if kind != 'MemberEnum' or 'vector' in ' '.join(p.param_list(f.name)[0]):
                    ks.append(f)
        if not ks or 'get' not in getters:
            raise Broken('constructor or get() of %s was not found' % c)
        where = p.fwhere(getters['get'])
        bad = lambda msg: ctx.violation(rule, where, norm_cls(c), msg)
        r = ReadRule()
        e = Engine(p, r)
        K, P = ('o', ('s', 'keystring')), ('o', ('s', 'prefixstring'))
        desc = [('s', 'descriptions'), ('s', 'endmarker')]
        mem = {K: {0: (KEYSTR, 8)}, P: {0: (PREFIX, 8)}, TARGET: {0: (('s', 'old'), SIZES[ty])}, deff: {0: (('s', 'dv'), SIZES[ty])}}
        a = [('p', obj, 0), ('p', K, 0)]
        if member:
            a.append(('p', ('o', ('s', 'accessor')), 0))
            if 'Enum' in kind:
                a.append(('p', ('o', ('s', 'descriptionlist')), 0))
        else:
            a.append(('p', TARGET, 0))
            if default:
                a.append(('p', deff, 0))
            if 'Enum' in kind:
                a += desc
        seen = set()
        for o in e.explore(ks[0], a, (), mem=mem):
            if o.kind != 'ret':
                continue
            st = o.st
            # the arguments of the constructor are temporary objects
            e.mstore(st, ('p', deff, 0), ('s', 'gone'), SIZES[ty])
            e.mstore(st, ('p', K, 0), ('s', ('gone',)), 8)
            e2 = Engine(p, r)
            if member:
                args = [('p', obj, 0), ('p', P, 0), ('p', ('o', ('s', 'element')), 0)]
                key, tgt = PREFIX, ('o', ('s', ('member', ('p', ('o', ('s', 'element')), 0))))
            else:
                args = [('p', obj, 0), ('p', P, 0), ('p', ('o', ('s', 'log')), 0)]
                key, tgt = cat(PREFIX, KEYSTR), TARGET
            st.mem.setdefault(tgt, {})[0] = (('s', 'old'), SIZES[ty])
            has, text = ('s', ('has', 'configuration', key)), ('s', ('value', 'configuration', key))
            extra = desc
            for o2 in e2.explore(getters['get'], args, (), mem=st.mem, facts=st.facts):
                if o2.kind != 'ret':
                    bad('an exception leaves get()')
                    continue
                s2 = o2.st
                if member and 'Enum' in kind:
                    ex = [v for k, v in s2.facts.items() if k[0] == 'eq' and k[1][0] == 's' and k[1][1][0] == 'enum?']
                    ks2 = [k[1] for k in s2.facts if k[0] == 'eq' and k[1][0] == 's' and k[1][1][0] == 'enum?']
                    extra = ks2[0][1][2:] if ks2 else desc
                got = e2.mload(s2, ('p', tgt, 0), SIZES[ty], None)
                judge(bad, e2, s2, o2.ret, got, has, text, ty, ('s', 'old'), ('s', 'dv') if default else None, extra, default)
                ok = verdict(e2, s2, has, text, ty, extra)[0]
                seen.add(ok)
                if ok:
                    sv = getters.get('stringValue') or getters.get('getStringValue')
                    if sv is not None:
                        for o3 in Engine(p, r).explore(sv, [('p', ('o', ('s', 'result')), 0), ('p', obj, 0)], (), mem=s2.mem, facts=s2.facts):
                            if r.content(e2, o3.st, ('p', ('o', ('s', 'result')), 0), None) != text:
                                bad('the text of the value which is returned is not the one that was read')
            kn = getters.get('key') or getters.get('getSuffix')
            if kn is not None:
                for o3 in Engine(p, r).explore(kn, [('p', ('o', ('s', 'result')), 0), ('p', obj, 0)], (), mem=st.mem, facts=st.facts):
                    if r.content(e, o3.st, ('p', ('o', ('s', 'result')), 0), None) != KEYSTR:
                        bad('the key which is returned is not the one it was created with')
            ctx.take(e2, rule)
        if True not in seen or False not in seen:
            bad('get() never %s' % ('succeeds' if True not in seen else 'fails'))
        ctx.ok(rule, norm_cls(c))
        ctx.take(e, rule)


def norm_cls(c):
    return c.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string') \
            .replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string') \
            .replace('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string') \
            .replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')


def g01(ctx):
    ctx.rule('functions', 'get(), paramOpt() and paramNonOpt() succeed exactly when the key exists and its text is converted, deliver that value and leave the '
                          'target alone otherwise; the variants with a default value return the default instead')
    ctx.rule('objects', 'the same for the objects of a batch: they read the key they were created with below the prefix, and a default value is a copy')
    ctx.rule('enumerations', 'string2Enum() compares the text with every description in turn, delivers the index of a match and reports whether there was one')
    p = ctx.load(('icl_core', 'icl_core_config'), ('config_api',))
    g01_functions(ctx, p)
    g01_classes(ctx, p)
    g01_enum(ctx, p)
    g01_batch(ctx, p)
    ctx.need('enumerations', 3)
    ctx.need('functions', 40)
    ctx.need('objects', 14)
    ctx.need('batches', 2)


class EnumRule(StrModel):
    """mon = (a match is not yet delivered, delivered); the cells of MON hold the next index and the index of the match"""
    join_limit = 4
    MON = ('o', ('s', 'monitor'))
    width = 32
    VAL, STR, DESC = ('o', ('s', 'value')), ('o', ('s', 'text')), ('o', ('s', 'descriptions'))

    def keep(self, obj, off):
        return obj in (self.VAL, self.STR, self.DESC, self.MON)

    def join_facts(self, eng, a, b, j, ren):
        # the cells of the monitor are expressed by the variables of the program
        for s, x, y in ren:
            if s[1][2][1:2] != (self.MON,):
                continue
            t = self.variable(eng, a, b, x, y, ren)
            if t is not None:
                j.mem[self.MON][s[1][2][2]] = (t, 8)

    def part(self, eng, st):
        v = self.over(eng, st)
        if v:
            self.put(eng, st, 2, I(1))
        return v

    def over(self, eng, st):
        """all descriptions have been compared"""
        if self.cell(eng, st, 2) == I(1):
            return True
        nxt, m = self.cell(eng, st, 0), self.marker
        if m:
            for i in [k[1] for k in fact_syms(st, 'desc') if self.same(eng, st, k[1], nxt)] + [nxt]:
                d = ('s', ('desc', i))
                if eng.decide_icmp(st, 'eq', m, NULL, 64):
                    if eng.decide_icmp(st, 'eq', d, NULL, 64):
                        return True
                elif eng.decide(st, streq(('s', ('txt', d)), ('s', ('txt', m)))):
                    return True
            return False
        cnt = ('s', ('count',))
        return any(eng.decide_icmp(st, pr, y, x, w) is False for pr in ('slt', 'ult') for y, x, w in (
            (nxt, ('x', 'trunc', cnt, 64, 32), 32), (nxt, cnt, 64), (('x', 'sext', nxt, 32, 64), cnt, 64), (('x', 'zext', nxt, 32, 64), cnt, 64)))

    def variable(self, eng, a, b, x, y, ren):
        """the variable of the program (registers first) whose values the two values are"""
        for obj in (False, True):
            for s2, x2, y2 in ren:
                o = s2[1][2][1:2]
                if o in ((self.MON,), (self.VAL,)) or isinstance(o[0] if o else None, tuple) != obj:
                    continue
                for d in (0, 1, -1):
                    if self.same(eng, a, x, self.plus(x2, d)) and self.same(eng, b, y, self.plus(y2, d)):
                        return self.plus(s2, d)
        return None

    def plus(self, v, d):
        v = strip(v)
        return v if not d else I(v[1] + d) if v[0] == 'i' else ('x', 'add', v, I(d), self.width)

    def cell(self, eng, st, n):
        return eng.mload(st, ('p', self.MON, 8 * n), 8, None)

    def put(self, eng, st, n, v):
        eng.mstore(st, ('p', self.MON, 8 * n), v, 8)

    def index(self, off):
        if isinstance(off, int):
            return I(off // 8) if off % 8 == 0 else None
        d = {}
        lin(off[1], 1, d)
        d[1] = d.get(1, 0) + off[2]
        if any(c % 8 for c in d.values()):
            return None
        v = I(d.pop(1, 0) // 8)
        for a, c in d.items():
            t = a if c == 8 else ('x', 'mul', a, I(c // 8), 64)
            v = t if v == I(0) else ('x', 'add', t, v, 64)
        return v

    def load(self, eng, st, ins, ptr, size):
        q = eng.as_ptr(ptr)
        if q and q[0] == self.DESC and size == 8:
            i = self.index(q[1])
            if i is not None:
                return ('s', ('desc', i))
        return None

    def compared(self, eng, st, ins, x, y):
        """index of the description the text is compared with"""
        t = ('s', ('str',))
        if x != t and y != t:
            return None
        o = y if x == t else x
        if o[0] == 's' and o[1][0] in ('txt', 'desc'):
            d = o[1][1]
            if o[1][0] == 'desc':
                return d
            if d[0] == 's' and d[1][0] == 'desc':
                return d[1][1]
        return None

    def same(self, eng, st, a, b):
        a, b = strip(eng.norm(st, strip(a))), strip(eng.norm(st, strip(b)))
        d = lin(a)
        lin(b, -1, d)
        return not d or bool(eng.decide_icmp(st, 'eq', a, b, self.width))

    def compare(self, eng, st, ins, x, y, equal, different):
        i = self.compared(eng, st, ins, x, y)
        if i is None:
            return None
        pend, got = st.mon
        if pend:
            eng.report(ins, 'the index of a matching description is not delivered')
        if not self.same(eng, st, i, self.cell(eng, st, 0)):
            eng.report(ins, 'the text is not compared with all descriptions, one after the other from the first')
        i = strip(i)
        n = I(i[1] + 1) if i[0] == 'i' else ('x', 'add', i, I(1), self.width)
        self.put(eng, st, 0, n)
        self.put(eng, st, 1, i)
        self.put(eng, st, 2, I(0))
        a, b = st.copy(), st.copy()
        a.mon, b.mon = (1, got), (0, got)
        return [Outcome('ret', equal, a), Outcome('ret', different, b)]

    def store(self, eng, st, ins, ptr, val, size):
        q = eng.as_ptr(ptr)
        if q and q[0] == self.VAL:
            if not st.mon[0] or not self.same(eng, st, self.cell(eng, st, 1), val):
                eng.report(ins, 'a value is delivered which is not the index of the matching description')
            st.mon = (0, 1)
        return None

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        if base == 'std::vector::size':
            return [Outcome('ret', ('s', ('count',)), st)]
        if base in ('std::vector::operator[]', 'std::vector::at'):
            o = ('o', ('s', ('element', a[1])))
            st.mem.setdefault(o, {})[0] = (('s', ('desc', a[1])), 8)
            return [Outcome('ret', ('p', o, 0), st)]
        if base in ('strcmp', 'std::strcmp'):
            x, y = self.chars(eng, st, a[0]), self.chars(eng, st, a[1])
            d = ('s', ('scmp', x, y))
            r = self.compare(eng, st, ins, x, y, I(0), d)
            if r is not None:
                eng.assume(r[1].st, ('x', 'icmp', 'ne', d, I(0), 32), True)
                return r
        if base in ('std::operator==', 'std::operator!='):
            ty = self.types(eng)
            if len(ty) == 2:
                x, y = self.arg(eng, st, ins, ty[0], a[0]), self.arg(eng, st, ins, ty[1], a[1])
                if x and y:
                    e = base.endswith('==')
                    r = self.compare(eng, st, ins, x, y, I(int(e)), I(int(not e)))
                    if r is not None:
                        return r
        r = self.str_call(eng, st, ins, base, args)
        if r is not None:
            return r
        return None


def g01_enum(ctx, p):
    rule = 'enumerations'
    for f in p.iter_funcs():
        if not re.match(r'(?:bool )?icl_core::string2Enum\(', p.fullname(f.name)):
            continue
        pl = p.param_list(f.name)[0]
        r = EnumRule()
        e = Engine(p, r)
        array = len(pl) == 4
        w = 32 if pl[1] == 'int&' else 64
        marker = ('s', 'endmarker')
        a = [('p', r.STR, 0), ('p', r.VAL, 0), ('p', r.DESC, 0)] + ([marker] if array else [])
        where = p.fwhere(f)
        bad = lambda m: ctx.violation(rule, where, 'icl_core::string2Enum(%s)' % ', '.join(pl), m)
        seen = set()
        r.width, r.marker = w, marker if array else None
        for o in e.explore(f, a, (0, 0), mem={r.MON: {0: (I(0), 8), 8: (I(0), 8), 16: (I(0), 8)}, r.STR: {0: (('s', ('str',)), 8)}, r.VAL: {0: (('s', 'old'), w // 8)}}):
            if o.kind != 'ret':
                continue
            pend, got = o.st.mon
            nxt = r.cell(e, o.st, 0)
            t = truth_of(e, o.st, o.ret)
            if pend:
                bad('the index of a matching description is not delivered')
            elif t is None or t != bool(got):
                bad('the result does not tell whether a description matched')
            seen.add(bool(got))
            if got:
                continue
            # the search may only end at the end
            if not r.over(e, o.st):
                bad('the search ends before all descriptions have been compared')
        if seen != {True, False}:
            bad('never %s' % ('succeeds' if True not in seen else 'fails'))
        ctx.ok(rule, 'string2Enum(%s)' % ', '.join(pl))
        ctx.take(e, rule)


def fact_syms(st, tag):
    """all symbols with this tag which occur in the facts of a state"""
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if v and v[0] == tag:
                out.append(v)
            for x in v:
                walk(x)
    for k in st.facts:
        walk(k)
    return out


class BatchRule(IterRule, StrModel):
    """rest = (an object failed, an object was read, objects are deleted)"""
    join_limit = 8
    fixed = None
    LIST, MON = ('o', ('s', 'list')), ('o', ('s', 'monitor'))
    CLEAN = ('s', ('rng', 'cleanup', 0, 1))

    def slashed(self, eng, st):
        """Does the prefix end with a slash?"""
        c = ('s', ('lastchar', ('s', ('prefix',))))
        for x, w in ((c, 8), (('x', 'sext', c, 8, 32), 32), (('x', 'zext', c, 8, 32), 32)):
            v = eng.decide_icmp(st, 'eq', x, I(47), w)
            if v is not None:
                return v
        return None

    def part(self, eng, st):
        P = ('s', ('prefix',))
        return (st.mem.get(PREF, {}).get(0), eng.decide(st, streq(P, EMPTY)), self.slashed(eng, st),
                eng.decide(st, self.CLEAN))

    def container(self, eng, st, cont):
        return True

    def inline_external(self, eng, fn, sname):
        return sname.startswith('boost::')

    def keep(self, obj, off):
        return obj in (PREF, self.LIST, self.MON) or IterRule.keep(self, obj, off)

    def mon_values(self, mon):
        return []

    def rename(self, eng, mon, f):
        return mon

    def load(self, eng, st, ins, ptr, size):
        q = eng.as_ptr(ptr)
        if size == 8 and q and q[1] == 0 and self.is_elem(('p', q[0], 0)):
            return ('p', q[0], 16)     # (an object of a list is never null)
        if size == 1 and q and q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'chars' and q[1] == 0:
            c, i = q[0][1][1][1:3]
            d = lin(i)
            lin(('s', ('len', c)), -1, d)
            if i == ('s', ('last', c)) or d == {1: -1}:
                return ('s', ('lastchar', c))
        return None

    def on_next(self, eng, st, ins, cont, handled):
        rest = st.mon[1]
        if handled == 0:
            eng.report(ins, 'a configuration object is not deleted' if rest[3] >= 2 else 'a configuration object is not read')
        elif handled > 1:
            eng.report(ins, 'a configuration object is handled more than once')

    def on_restart(self, eng, st, ins, cont, handled):
        if handled:
            eng.report(ins, 'the objects are visited again although some were skipped')
        st.mon = (st.mon[0], st.mon[1][:3] + (2,))

    def on_end(self, eng, st, ins, cont):
        f, n, d, again = st.mon[1]
        st.mon = (st.mon[0], (f, n, d, 3 if again >= 2 else 1))

    def vcall(self, eng, st, ins, vn, args, targets):
        cont = self.is_elem(args[0][1])
        if cont is None:
            return None
        name = {eng.p.sname(t).rsplit('::', 1)[-1] for t in targets}
        f, n, d, again = st.mon[1]
        if d:
            s, h = self.get(st, cont)
            if h:
                eng.report(ins, 'a configuration object is used after it was deleted')
        if name == {'get'}:
            if again:
                eng.report(ins, 'the objects are read a second time')
            self.handle(st, cont)
            self.prefix(eng, st, ins, args[1][1])
            a, b = st.copy(), st.copy()
            a.mon, b.mon = (st.mon[0], (f, 1, d, again)), (st.mon[0], (1, 1, d, again))
            return [Outcome('ret', I(1), a), Outcome('ret', I(0), b)]
        if name and all(x.startswith('~') for x in name):
            if not again:
                eng.report(ins, 'a configuration object is deleted before all have been read')
            if st.mon[1][2] == 0:
                st.mon = (st.mon[0], (f, n, 1, again))
            self.handle(st, cont)
            return [Outcome('ret', None, st)]
        if name <= {'key', 'stringValue'}:
            self.setc(eng, st, args[0][1], ('s', ('some', eng.cur_path, ins.idx)))
            return [Outcome('ret', None, st)]
        return None

    def prefix(self, eng, st, ins, v):
        P = self.fixed or ('s', ('prefix',))
        c = self.content(eng, st, v, ins)
        empty, slash = eng.decide(st, streq(P, EMPTY)), self.slashed(eng, st)
        if c == P:
            if P != EMPTY and not empty and not slash:
                eng.report(ins, 'the keys are read without a slash after the prefix')
        elif c == cat(P, lit('/')):
            if empty is not False or slash is not False:
                eng.report(ins, 'a slash is added to the prefix although none is missing')
        else:
            eng.report(ins, 'the objects are read below something which is not the prefix')

    def call(self, eng, st, ins, sname, fn, args):
        if sname.startswith('icl_core::logging::'):
            if ins.ty == ('void',):
                return [Outcome('ret', None, st)]
            n = ('s', ('r', eng.cur_path, ins.idx, 'log'))
            quiet(eng, st, ins)
            return [Outcome('ret', n, st)]
        return IterRule.call(self, eng, st, ins, sname, fn, args)

    def cont_call(self, eng, st, ins, name, cont, args):
        s, h = self.get(st, cont)
        if name == 'empty' and s in (None, 'none'):
            a, b = st.copy(), st.copy()
            self.put(a, cont, 'none')
            self.put(b, cont, 'front')
            return [Outcome('ret', I(1), a)] + ([Outcome('ret', I(0), b)] if s is None else [])
        if name in ('begin', 'cbegin') and s == 'none':
            return [Outcome('ret', self.cur(cont), st)]
        return IterRule.cont_call(self, eng, st, ins, name, cont, args)

    def split(self, st, cont, value_if_end, value_else, ins, eng, state='at'):
        if self.get(st, cont)[0] == 'none':
            return [Outcome('ret', I(value_if_end), st)]
        return IterRule.split(self, st, cont, value_if_end, value_else, ins, eng, state)

    def cont_other(self, eng, st, ins, name, cont, args):
        if name == 'list' and len(args) == 2 or name == '~list':
            return [Outcome('ret', None, st)]

    def other(self, eng, st, ins, sname, fn, args):
        if sname in ('std::_List_base::~_List_base',):
            return [Outcome('ret', None, st)]
        return self.str_call(eng, st, ins, sname, args)


PREF = ('o', ('s', 'prefixobject'))


def g01_batch(ctx, p):
    rule = 'batches'
    for f in p.iter_funcs():
        n = p.fullname(f.name)
        if not n.startswith('icl_core::config::get(') or 'list<' not in n and 'ConfigValueList' not in n:
            continue
        pl = p.param_list(f.name)[0]
        r = BatchRule()
        e = Engine(p, r)
        with_prefix = len(pl) == 5
        clean, rep = r.CLEAN, ('s', ('rng', 'report', 0, 1))
        a = ([('p', PREF, 0)] if with_prefix else []) + [('p', r.LIST, 0), ('p', ('o', ('s', 'log')), 0), clean, rep]
        where = p.fwhere(f)
        bad = lambda m: ctx.violation(rule, where, 'icl_core::config::get(%s)' % ', '.join(pl), m)
        seen = set()
        P = ('s', ('prefix',))
        mem = {r.MON: {0: (streq(P, EMPTY), 8), 8: (('s', ('lastchar', P)), 1), 9: (clean, 1)}}
        if with_prefix:
            mem[PREF] = {0: (P, 8)}
        else:
            r.fixed = EMPTY
        for o in e.explore(f, a, ((), (0, 0, 0, 0)), mem=mem):
            if o.kind != 'ret':
                bad('an exception leaves the function')
                continue
            its, (failed, read, deleted, again) = o.st.mon
            none = bool(its) and all(s == 'none' for c, s, h in its)
            if not its or not none and not all(s == 'end' for c, s, h in its):
                bad('the function returns before all objects have been visited')
            t, c = truth_of(e, o.st, o.ret), e.decide(o.st, clean)
            if t is None or t != bool(read and not failed):
                bad('the result does not tell whether objects were read and all succeeded')
            seen.add((t, failed))
            if c is None or c is False and deleted or c and again != 3 and not none:
                bad('the objects are not deleted exactly if cleanup is requested')
        if {t for t, x in seen} != {True, False}:
            bad('never %s' % ('succeeds' if True not in {t for t, x in seen} else 'fails'))
        ctx.ok(rule, 'get(%s)' % ', '.join(pl))
        ctx.take(e, rule)
