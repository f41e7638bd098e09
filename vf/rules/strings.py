"""Abstract std::string and std::stringstream: the content of a string is one value, kept in the first eight bytes of the object."""
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from .timing import cstring

EMPTY = ('s', ('lit', ''))
CONTENT, FAILED = 1 << 20, (1 << 20) + 8


def lit(t):
    return ('s', ('lit', t))


def is_lit(v):
    return v[1][1] if v[0] == 's' and v[1][0] == 'lit' else None


def cat(a, b):
    if is_lit(a) == '':
        return b
    if is_lit(b) == '':
        return a
    if is_lit(a) is not None and is_lit(b) is not None:
        return lit(is_lit(a) + is_lit(b))
    if b[0] == 's' and b[1][0] == 'cat':
        return cat(cat(a, b[1][1]), b[1][2])
    return ('s', ('cat', a, b))


def parts(v):
    """the operands of a concatenation"""
    if v[0] == 's' and v[1][0] == 'cat':
        return parts(v[1][1]) + parts(v[1][2])
    return [v]


def streq(a, b):
    la, lb = is_lit(a), is_lit(b)
    if a == b:
        return I(1)
    if la is not None and lb is not None:
        return I(0)
    return ('s', ('streq',) + tuple(sorted((a, b), key=repr)))


def lower(v):
    return lit(is_lit(v).lower()) if is_lit(v) is not None else ('s', ('lower', v))


def number(v):
    """content of the text a number or character is printed as"""
    return ('s', ('num', v))


class StrModel(Rule):
    """str_call() interprets calls on strings; None when the call is something else."""

    def content(self, eng, st, ptr, ins):
        return eng.mload(st, ptr, 8, ins)

    def setc(self, eng, st, ptr, v):
        eng.mstore(st, ptr, v, 8)

    def chars(self, eng, st, v):
        """content of the characters v points to"""
        if v[0] == 's' and v[1][0] == 'cstr':
            return v[1][1]
        t = cstring(eng.p, v)
        if t is not None:
            return lit(t)
        return ('s', ('txt', v))

    def arg(self, eng, st, ins, ty, v):
        t = ty.replace('const', '').strip()
        if 'basic_string' in ty or 'std::string' in ty or t in ('icl_core::String&', 'std::__cxx11::string&'):
            return self.content(eng, st, v, ins)
        if t in ('char*', 'char *'):
            return self.chars(eng, st, v)
        if t == 'char':
            return lit(chr(v[1])) if v[0] == 'i' and 0 < v[1] < 128 else ('s', ('ch', v))
        return None

    def types(self, eng):
        r = eng.p.param_list(eng.cur_name)
        return r[0] if r else []

    def two(self, eng, st, sym, t, f):
        """outcomes of a two-valued result which is named by a symbol: t(state) and f(state) are executed in the respective case"""
        out = []
        for truth, g in ((True, t), (False, f)):
            s = st.copy()
            if eng.assume(s, sym, truth):
                g(s)
                out.append(Outcome('ret', I(int(truth)), s))
        return out

    def str_call(self, eng, st, ins, sname, args):
        m = re.match(r'std::basic_string::(~?\w+|operator\W+)$', sname)
        if m:
            return self.str_member(eng, st, ins, m.group(1), args)
        if sname in ('std::operator==', 'std::operator!=', 'std::operator+', 'std::operator<') and 'char_traits' in eng.p.full.get(eng.cur_name, ''):
            ty = self.types(eng)
            a = [v for t, v in args]
            if sname == 'std::operator+':
                if len(ty) == 2 and len(a) == 3:
                    x, y = self.arg(eng, st, ins, ty[0], a[1]), self.arg(eng, st, ins, ty[1], a[2])
                    if x and y:
                        self.setc(eng, st, a[0], cat(x, y))
                        return [Outcome('ret', None, st)]
                return None
            if len(ty) == 2 and len(a) == 2:
                x, y = self.arg(eng, st, ins, ty[0], a[0]), self.arg(eng, st, ins, ty[1], a[1])
                if x and y:
                    if sname == 'std::operator<':
                        return [Outcome('ret', ('s', ('strlt', x, y)), st)]
                    v = streq(x, y)
                    return [Outcome('ret', v if sname.endswith('==') else eng.bnot(v), st)]
            return None
        if sname in ('strcmp', 'std::strcmp'):
            x, y = self.chars(eng, st, args[0][1]), self.chars(eng, st, args[1][1])
            v = streq(x, y)
            d = ('s', ('scmp', x, y))
            out = []
            for truth in (True, False):
                s = st.copy()
                if eng.assume(s, v, truth) and (truth or eng.assume(s, ('x', 'icmp', 'ne', d, I(0), 32), True)):
                    out.append(Outcome('ret', I(0) if truth else d, s))
            return out
        if sname in ('icl_core::toLower', 'icl_core::toUpper') and len(args) == 2:
            x = self.content(eng, st, args[1][1], ins)
            self.setc(eng, st, args[0][1], lower(x) if sname.endswith('Lower') else ('s', ('upper', x)))
            return [Outcome('ret', None, st)]
        if sname in ('boost::algorithm::to_lower', 'boost::to_lower'):
            self.setc(eng, st, args[0][1], lower(self.content(eng, st, args[0][1], ins)))
            return [Outcome('ret', None, st)]
        if sname in ('boost::algorithm::to_lower_copy', 'boost::to_lower_copy') and len(args) >= 2:
            self.setc(eng, st, args[0][1], lower(self.content(eng, st, args[1][1], ins)))
            return [Outcome('ret', None, st)]
        if re.match(r'std::(__new_allocator|allocator|locale)::', sname) and len(args) <= 2:
            return [Outcome('ret', None if ins.ty == ('void',) else ('s', ('r', eng.cur_path, ins.idx)), st)]
        if sname in ('icl_core::asString',):
            return None
        return self.stream_call(eng, st, ins, sname, args)

    def str_member(self, eng, st, ins, name, args):
        ty = self.types(eng)
        a = [v for t, v in args]
        this = a[0]
        if name == 'basic_string':
            if not ty:
                v = EMPTY
            elif len(ty) <= 2 and (len(ty) == 1 or 'llocator' in ty[1]):
                v = self.arg(eng, st, ins, ty[0], a[1])
                if v is None and 'llocator' in ty[0]:
                    v = EMPTY
            elif len(ty) >= 3 and ('basic_string' in ty[0]):
                v = ('s', ('sub', self.content(eng, st, a[1], ins), a[2], a[3]))
            elif len(ty) >= 2 and ty[0] in ('char const*', 'const char*') and re.match(r'unsigned long|std::size_t|size_t', ty[1]):
                v = ('s', ('sub', self.chars(eng, st, a[1]), I(0), a[2]))
            elif ty and 'unsigned long' in ty[0]:
                v = ('s', ('fill', a[1], a[2]))
            else:
                v = None
            if v is None:
                v = eng.fresh(ins, 'str') if False else ('s', ('some', eng.cur_path, ins.idx))
            self.setc(eng, st, this, v)
            return [Outcome('ret', None, st)]
        if name == '~basic_string':
            return [Outcome('ret', None, st)]
        if name in ('operator=', 'assign') and len(a) == 2:
            v = self.arg(eng, st, ins, ty[0], a[1]) if ty else None
            self.setc(eng, st, this, v if v is not None else ('s', ('some', eng.cur_path, ins.idx)))
            return [Outcome('ret', this, st)]
        if name in ('operator+=', 'append', 'push_back') and len(a) == 2:
            v = self.arg(eng, st, ins, ty[0], a[1]) if ty else None
            if v is not None:
                self.setc(eng, st, this, cat(self.content(eng, st, this, ins), v))
                return [Outcome('ret', this if name != 'push_back' else None, st)]
            return None
        if name == 'clear':
            self.setc(eng, st, this, EMPTY)
            return [Outcome('ret', None, st)]
        if name in ('c_str', 'data') and len(a) == 1:
            return [Outcome('ret', ('s', ('cstr', self.content(eng, st, this, ins))), st)]
        if name == 'empty':
            return [Outcome('ret', streq(self.content(eng, st, this, ins), EMPTY), st)]
        if name in ('length', 'size'):
            c = self.content(eng, st, this, ins)
            return [Outcome('ret', I(len(is_lit(c))) if is_lit(c) is not None else ('s', ('len', c)), st)]
        if name in ('operator[]', 'at', 'back', 'front'):
            c = self.content(eng, st, this, ins)
            i = a[1] if len(a) > 1 else I(0) if name == 'front' else ('s', ('last', c))
            return [Outcome('ret', ('p', ('o', ('s', ('chars', c, i))), 0), st)]
        if name == 'compare' and len(a) == 2:
            x = self.arg(eng, st, ins, ty[0], a[1]) if ty else None
            if x is None:
                return None
            c = self.content(eng, st, this, ins)
            d = ('s', ('scmp', c, x))
            out = []
            for truth in (True, False):
                s = st.copy()
                if eng.assume(s, streq(c, x), truth) and (truth or eng.assume(s, ('x', 'icmp', 'ne', d, I(0), 32), True)):
                    out.append(Outcome('ret', I(0) if truth else d, s))
            return out
        if name == 'substr' and len(a) == 4:
            self.setc(eng, st, a[0], ('s', ('sub', self.content(eng, st, a[1], ins), a[2], a[3])))
            return [Outcome('ret', None, st)]
        if name == 'swap' and len(a) == 2:
            x, y = self.content(eng, st, this, ins), self.content(eng, st, a[1], ins)
            self.setc(eng, st, this, y)
            self.setc(eng, st, a[1], x)
            return [Outcome('ret', None, st)]
        return None

    # -- string streams
    def stream(self, eng, v):
        q = eng.as_ptr(v)
        return q[0] if q else None

    def known(self, eng, st, o, ins):
        """(content, failed) of a stream of ours"""
        if o is None or CONTENT not in st.mem.get(o, {}):
            return None
        return eng.mload(st, ('p', o, CONTENT), 8, ins), eng.mload(st, ('p', o, FAILED), 1, ins)

    def stream_call(self, eng, st, ins, sname, args):
        a = [v for t, v in args]
        m = re.match(r'std::basic_(i|o|)stringstream::(\S+)$', sname)
        if m:
            n = m.group(2)
            o = self.stream(eng, a[0])
            ty = self.types(eng)
            if n.startswith('basic_') and o is not None:
                v = EMPTY
                if ty and 'basic_string' in ty[0]:
                    v = self.content(eng, st, a[1], ins)
                st.mem.setdefault(o, {})
                eng.mstore(st, ('p', o, CONTENT), v, 8)
                eng.mstore(st, ('p', o, FAILED), I(0), 1)
                return [Outcome('ret', None, st)]
            if n.startswith('~'):
                return [Outcome('ret', None, st)]
            if n == 'str':
                if len(a) == 2 and ty:
                    k = self.known(eng, st, o, ins)
                    if k is None:
                        return None
                    eng.mstore(st, ('p', o, CONTENT), self.content(eng, st, a[1], ins), 8)
                    return [Outcome('ret', None, st)]
                k = self.known(eng, st, self.stream(eng, a[1]), ins)
                if k is None:
                    return None
                self.setc(eng, st, a[0], k[0])
                return [Outcome('ret', None, st)]
            return None
        if re.match(r'std::ios_base::', sname):
            return [Outcome('ret', None if ins.ty == ('void',) else ('s', ('r', eng.cur_path, ins.idx)), st)]
        if sname in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::ostream::operator<<') and len(a) == 2:
            o = self.stream(eng, a[0])
            k = self.known(eng, st, o, ins)
            if k is None:
                return None
            ty = self.types(eng)
            t = ty[-1] if ty else ''
            v = self.arg(eng, st, ins, t, a[1]) if t else None
            if v is None:
                if '(*)' in t or '(' in t:
                    return [Outcome('ret', a[0], st)]       # a manipulator
                v = number(a[1])
            eng.mstore(st, ('p', o, CONTENT), cat(k[0], v), 8)
            return [Outcome('ret', a[0], st)]
        if sname in ('std::operator>>', 'std::basic_istream::operator>>', 'std::istream::operator>>') and len(a) == 2:
            o = self.stream(eng, a[0])
            k = self.known(eng, st, o, ins)
            if k is None:
                return None
            ty = self.types(eng)
            t = ty[-1] if ty else ''
            if '(*)' in t:
                return [Outcome('ret', a[0], st)]
            string = 'basic_string' in t or 'std::string' in t
            size = 8 if string else {'int&': 4, 'unsigned int&': 4, 'float&': 4, 'short&': 2, 'unsigned short&': 2, 'bool&': 1, 'char&': 1,
                                     'unsigned char&': 1, 'signed char&': 1}.get(t, 8)
            kind = 'string' if string else t.rstrip('&')
            sym = ('s', ('conv?', k[0], kind))
            out = []
            for truth in (True, False):
                s = st.copy()
                if k[1] != I(0):
                    if truth:
                        continue
                elif not eng.assume(s, sym, truth):
                    continue
                if truth:
                    eng.mstore(s, a[1], ('s', ('conv', k[0], kind)), size)
                    eng.mstore(s, ('p', o, CONTENT), ('s', ('rest', k[0])), 8)
                else:
                    eng.mstore(s, a[1], EMPTY if string else ('s', ('bad', k[0], kind)), size)
                    eng.mstore(s, ('p', o, FAILED), I(1), 1)
                out.append(Outcome('ret', a[0], s))
            return out
        m = re.match(r'std::(?:basic_)?ios::(fail|operator!|operator bool|good|bad|eof)$', sname)
        if m:
            k = self.known(eng, st, self.stream(eng, a[0]), ins)
            if k is None:
                return None
            n = m.group(1)
            if n in ('fail', 'operator!'):
                return [Outcome('ret', k[1], st)]
            if n == 'operator bool':
                return [Outcome('ret', I(1 - k[1][1]) if k[1][0] == 'i' else eng.bnot(k[1]), st)]
            if n == 'bad':
                return [Outcome('ret', I(0), st)]
            if n == 'good' and k[1] == I(1):
                return [Outcome('ret', I(0), st)]
            return [Outcome('ret', ('s', ('eof', k[0])), st)]
        return None
