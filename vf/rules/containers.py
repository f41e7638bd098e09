"""Loops over standard containers as a typestate: which elements has the loop handled?"""
import re
from ..absint import Engine, Rule, Outcome, I, NULL, UNK
from .common import *

ITER = re.compile(r'^(?:std|__gnu_cxx)::(?:__cxx11::)?(?:_Rb_tree_(?:const_)?iterator|_List_(?:const_)?iterator|__normal_iterator|'
                  r'_Deque_iterator|_Node_(?:const_)?iterator)::(.*)$')
CONT = re.compile(r'^(?:std|icl_core)::(?:__cxx11::)?(set|map|list|vector|deque|multimap|multiset|Set|Map|List|Vector|'
                  r'unordered_map|unordered_set)::(\w+)$')


class IterRule(Rule):
    """st.mon = (iterations, rest); iterations: ((container, state, handled), ...)
    state: 'unk' (at an element or the end), 'at' (at an element), 'post' (already advanced), 'front' (not empty), 'end'"""
    join_limit = 24

    # -- for subclasses
    def container(self, eng, st, cont):
        """Is this a container of interest?"""
        return True

    def on_next(self, eng, st, ins, cont, handled):
        pass

    def on_restart(self, eng, st, ins, cont, handled):
        pass

    def on_end(self, eng, st, ins, cont):
        pass

    def rename_rest(self, eng, rest, f):
        return rest

    def rest_values(self, rest):
        return []

    def other(self, eng, st, ins, sname, fn, args):
        return None

    # -- monitor
    def rename(self, eng, mon, f):
        return (mon[0], self.rename_rest(eng, mon[1], f))

    def mon_values(self, mon):
        return self.rest_values(mon[1])

    def keep(self, obj, off):
        return obj[0] == 'o' and isinstance(obj[1], tuple) and obj[1][0] == 's' and obj[1][1][0] == 'el'

    def get(self, st, cont):
        for c, s, h in st.mon[0]:
            if c == cont:
                return s, h
        return None, 0

    def put(self, st, cont, state, handled=0):
        d = tuple(sorted([x for x in st.mon[0] if x[0] != cont] + ([(cont, state, handled)] if state else [])))
        st.mon = (d, st.mon[1])

    def handle(self, st, cont):
        """The current element is handled once more."""
        s, h = self.get(st, cont)
        self.put(st, cont, s, min(h + 1, 2))

    def elem(self, cont):
        return ('o', ('s', ('el', cont)))

    def is_elem(self, v):
        """container when v is (loaded from) the current element"""
        if v[0] == 'p' and v[1][0] == 'o' and isinstance(v[1][1], tuple):
            return self.is_elem(v[1][1])
        if v[0] == 's' and v[1][0] == 'el':
            return v[1][1]
        if v[0] == 's' and v[1][0] == 'ld' and v[1][1][0] == 'o':
            return self.is_elem(v[1][1][1])
        return None

    def cont_of(self, eng, ptr):
        p = eng.as_ptr(ptr)
        return repr(p) if p is not None else None

    def advance(self, eng, st, ins, cont):
        s, h = self.get(st, cont)
        self.on_next(eng, st, ins, cont, h)
        self.put(st, cont, 'unk')
        self.forget(eng, st, ins, cont)

    def forget(self, eng, st, ins, cont):
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}
        eng.havoc_obj(st, self.elem(cont), ins)

    def cur(self, cont, kind='cur'):
        return ('s', ('cit', kind, cont))

    def pos(self, eng, st, v, ins):
        """(kind, container) of an iterator, given by value or by address"""
        if v[0] == 's' and v[1][0] == 'cit':
            return v[1][1:]
        if v[0] == 'p':
            w = eng.mload(st, v, 8, ins)
            if w[0] == 's' and w[1][0] == 'cit':
                return w[1][1:]
        return None

    def split(self, st, cont, value_if_end, value_else, ins, eng, state='at'):
        """outcomes of a test for the end"""
        s, h = self.get(st, cont)
        if s == 'end':
            return [Outcome('ret', I(value_if_end), st)]
        if s in ('at', 'front'):
            return [Outcome('ret', I(value_else), st)]
        a, b = st.copy(), st.copy()
        self.put(a, cont, 'end')
        self.on_end(eng, a, ins, cont)
        self.put(b, cont, state)
        return [Outcome('ret', I(value_if_end), a), Outcome('ret', I(value_else), b)]

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        m = CONT.match(base)
        if m and args:
            cont = self.cont_of(eng, args[0][1])
            if cont is not None and self.container(eng, st, cont):
                r = self.cont_call(eng, st, ins, m.group(2), cont, args)
                if r is not None:
                    return r
        m = ITER.match(base)
        if m and args:
            r = self.iter_call(eng, st, ins, m.group(1), args)
            if r is not None:
                return r
        if base in ('std::operator!=', 'std::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator==') and len(args) == 2:
            r = self.compare(eng, st, ins, base.endswith('=='), args[0][1], args[1][1])
            if r is not None:
                return r
        return self.other(eng, st, ins, base, fn, args)

    def cont_call(self, eng, st, ins, name, cont, args):
        s, h = self.get(st, cont)
        if name in ('begin', 'cbegin'):
            if s == 'front':
                self.put(st, cont, 'at')
            else:
                if s is not None:
                    self.on_restart(eng, st, ins, cont, h)
                    self.forget(eng, st, ins, cont)
                self.put(st, cont, 'unk')
            return [Outcome('ret', self.cur(cont), st)]
        if name in ('end', 'cend'):
            return [Outcome('ret', self.cur(cont, 'end'), st)]
        if name == 'empty':
            if s is None:
                self.put(st, cont, 'unk')
            elif s == 'post':
                self.advance(eng, st, ins, cont)
            return self.split(st, cont, 1, 0, ins, eng, 'front')
        if name == 'erase' and len(args) >= 2:
            q = self.pos(eng, st, args[1][1], ins)
            if q and q[0] == 'cur':
                self.advance(eng, st, ins, cont)
                return [Outcome('ret', self.cur(cont), st)]
        return self.cont_other(eng, st, ins, name, cont, args)

    def cont_other(self, eng, st, ins, name, cont, args):
        return None

    def iter_call(self, eng, st, ins, name, args):
        q = self.pos(eng, st, args[0][1], ins)
        if name in ('operator==', 'operator!=') and len(args) == 2:
            return self.compare(eng, st, ins, name.endswith('=='), args[0][1], args[1][1])
        if name.startswith('_Rb_tree_const_iterator') or name.startswith('_List_const_iterator') or name.startswith('__normal_iterator'):
            # conversion of an iterator to a const iterator
            if len(args) == 2:
                q = self.pos(eng, st, args[1][1], ins)
                if q:
                    eng.mstore(st, args[0][1], ('s', ('cit',) + tuple(q)), 8)
                    return [Outcome('ret', None, st)]
            return None
        if not q:
            return None
        kind, cont = q
        s, h = self.get(st, cont)
        if name in ('operator*', 'operator->'):
            if s not in ('at', 'post') or kind == 'end':
                eng.report(ins, 'an iterator which may be at the end is dereferenced')
            return [Outcome('ret', ('p', self.elem(cont), 0), st)]
        if name == 'operator++':
            if s == 'post':
                self.advance(eng, st, ins, cont)
            if len(args) == 2:
                self.put(st, cont, 'post', self.get(st, cont)[1])
                return [Outcome('ret', self.cur(cont), st)]
            self.advance(eng, st, ins, cont)
            return [Outcome('ret', args[0][1], st)]
        return None

    def compare(self, eng, st, ins, eq, a, b):
        qa, qb = self.pos(eng, st, a, ins), self.pos(eng, st, b, ins)
        if not qa or not qb or qa[1] != qb[1]:
            return None
        if qa[0] == qb[0]:
            return [Outcome('ret', I(1 if eq else 0), st)]
        if {qa[0], qb[0]} != {'cur', 'end'}:
            return None
        if self.get(st, qa[1])[0] == 'post':
            self.advance(eng, st, ins, qa[1])
        return self.split(st, qa[1], 1 if eq else 0, 0 if eq else 1, ins, eng)
