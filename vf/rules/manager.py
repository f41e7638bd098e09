"""G02: the configuration directory, its manager and its observers."""
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .containers import IterRule
from .config import quiet, truth_of, norm_cls
from ..core import Broken

C = 'icl_core::config::'
KVD = 'icl_core::KeyValueDirectory::'
THIS = ('o', ('s', 'this'))


class MapRule(IterRule, StrModel):
    """Maps with string keys, beside loops and strings. st.mon = (iterations, rest)"""
    join_limit = 8

    def keep(self, obj, off):
        return obj[0] == 'o' and isinstance(obj[1], tuple) and obj[1][0] == 's' and (
            obj[1][1] in ('this', 'key', 'value', 'result', 'observer') or obj[1][1][0] in ('entry', 'el', 'dir'))

    def rename(self, eng, mon, f):
        return (mon[0], self.rename_rest(eng, mon[1], f))

    def entry(self, cont, c):
        return ('o', ('s', ('entry', cont, c)))

    def has(self, cont, c):
        return ('s', ('has', cont, c))

    def load(self, eng, st, ins, ptr, size):
        q = eng.as_ptr(ptr)
        if q and q[0][0] == 'o' and q[0][1][0] == 's' and q[0][1][1][0] == 'entry' and q[1] in (0, 32) and q[1] not in st.mem.get(q[0], {}):
            cont, c = q[0][1][1][1:]
            return c if q[1] == 0 else ('s', ('value', cont, c))
        return None

    def content(self, eng, st, ptr, ins):
        v = self.load(eng, st, ins, ptr, 8)
        return v if v is not None else StrModel.content(self, eng, st, ptr, ins)

    def created(self, eng, st, ins, cont, c):
        """entry c was inserted when it did not exist"""

    def cont_call(self, eng, st, ins, name, cont, args):
        ty = eng.p.param_list(eng.cur_name)[0]
        is_map = re.match(r'(?:std|icl_core)::(?:__cxx11::)?(?:map|Map)\b', eng.p.sname(eng.cur_name))
        if is_map and name in ('find', 'count', 'operator', 'at', 'insert', 'erase') and len(args) >= 2 and ty and ('string' in ty[0] or 'String' in ty[0]):
            c = self.content(eng, st, args[1][1], ins)
            h = self.has(cont, c)
            if name == 'find':
                return [Outcome('ret', ('s', ('cit', ('key', c), cont)) if t else self.cur(cont, 'end'), s) for t, s in self.both(eng, st, h)]
            if name == 'count':
                return [Outcome('ret', I(int(t)), s) for t, s in self.both(eng, st, h)]
        return IterRule.cont_call(self, eng, st, ins, name, cont, args)

    def both(self, eng, st, sym):
        out = []
        for t in (True, False):
            s = st.copy()
            if eng.assume(s, sym, t):
                out.append((t, s))
        return out

    def iter_call(self, eng, st, ins, name, args):
        q = self.pos(eng, st, args[0][1], ins)
        if q and isinstance(q[0], tuple) and name in ('operator*', 'operator->'):
            return [Outcome('ret', ('p', self.entry(q[1], q[0][1]), 0), st)]
        return IterRule.iter_call(self, eng, st, ins, name, args)

    def compare(self, eng, st, ins, eq, a, b):
        qa, qb = self.pos(eng, st, a, ins), self.pos(eng, st, b, ins)
        if qa and qb and qa[1] == qb[1] and (isinstance(qa[0], tuple) or isinstance(qb[0], tuple)):
            if qa[0] == qb[0]:
                return [Outcome('ret', I(int(eq)), st)]
            if 'end' in (qa[0], qb[0]):
                return [Outcome('ret', I(int(not eq)), st)]
        return IterRule.compare(self, eng, st, ins, eq, a, b)

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        if base in ('std::map::operator[]', 'icl_core::Map::operator[]') and len(args) == 2:
            cont = self.cont_of(eng, args[0][1])
            c = self.content(eng, st, args[1][1], ins)
            e = self.entry(cont, c)
            out = []
            for t, s in self.both(eng, st, self.has(cont, c)):
                if not t:
                    s.facts = dict(s.facts)
                    s.facts.pop(('eq', self.has(cont, c)), None)
                    eng.mstore(s, ('p', e, 32), EMPTY, 8)
                    self.created(eng, s, ins, cont, c)
                out.append(Outcome('ret', ('p', e, 32), s))
            return out
        return IterRule.call(self, eng, st, ins, sname, fn, args)

    def other(self, eng, st, ins, sname, fn, args):
        return self.str_call(eng, st, ins, sname, args)


class DirRule(MapRule):
    """rest = keys which were created"""
    def created(self, eng, st, ins, cont, c):
        st.mon = (st.mon[0], st.mon[1] | {c})
        return None

    def has(self, cont, c):
        return ('s', ('has', cont, c))


def g02_directory(ctx, p):
    rule = 'directory'
    KEY, VALUE = ('o', ('s', 'key')), ('o', ('s', 'value'))
    k = ('s', ('key',))
    cont = repr((THIS, 0))
    for f in p.iter_funcs():
        m = re.match(r'(?:[\w:<> ,]+ )?icl_core::KeyValueDirectory<(.*)>::(get|hasKey|insert)\(', norm_cls(p.fullname(f.name)))
        if not m:
            continue
        ty, name = m.groups()
        size = 8 if 'string' in ty else {'int': 4}.get(ty, 8)
        r = DirRule()
        e = Engine(p, r)
        a = [('p', THIS, 0), ('p', KEY, 0)]
        v = ('s', 'v')
        if name != 'hasKey':
            a.append(('p', VALUE, 0) if 'string' in ty or name == 'get' else ('p', VALUE, 0))
        where = p.fwhere(f)
        bad = lambda msg: ctx.violation(rule, where, 'KeyValueDirectory<%s>::%s' % (ty, name), msg)
        has = r.has(cont, k)
        seen = set()
        for o in e.explore(f, a, ((), frozenset()), mem={KEY: {0: (k, 8)}, VALUE: {0: (v, size)}, ('o', ('s', 'mon')): {0: (has, 1)}}):
            if o.kind != 'ret':
                bad('an exception leaves the function')
                continue
            st = o.st
            made = st.mon[1]
            h = False if k in made else e.decide(st, has)
            t = truth_of(e, st, o.ret)
            if made - {k}:
                bad('creates an entry of another key')
            if h is None and name != 'insert':
                bad('does not look up the key')
                continue
            en = r.entry(cont, k)
            old = ('s', ('value', cont, k))
            now = st.mem.get(en, {}).get(32, (old, size))[0]
            val = e.mload(st, ('p', VALUE, 0), size, None)
            seen.add(t)
            if t is None or h is None and name == 'insert' or t != (h if name != 'insert' else not h):
                bad('the result does not tell whether %s' % ('the key existed' if name != 'insert' else 'the entry is new'))
            if name == 'insert':
                if now != v:
                    bad('the entry does not get the value')
            else:
                if made or now != old:
                    bad('changes the directory')
                want = v if name != 'get' or not h else old
                if val != want and not (want == old and val == e.mload(st, ('p', en, 32), size, None)):
                    bad('the value delivered is not the one of the key' if h else 'the target is changed although the key does not exist')
        if seen != {True, False}:
            bad('never returns %s' % (True not in seen))
        ctx.ok(rule, 'KeyValueDirectory<%s>::%s' % (ty, name))
        ctx.take(e, rule)


class QueryRule(MapRule):
    """KeyValueDirectoryIterator: rest = (the current entry matched, was tested)"""
    def rename_rest(self, eng, rest, f):
        return rest

    def inline_external(self, eng, fn, sname):
        return False

    def on_next(self, eng, st, ins, cont, handled):
        if not handled:
            eng.report(ins, 'an entry is skipped without a look at its key')
        if st.mon[1]:
            eng.report(ins, 'a matching entry is passed over')
        st.mon = (st.mon[0], 0)

    def on_restart(self, eng, st, ins, cont, handled):
        eng.report(ins, 'the search starts again')

    def other(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname == 'boost::regex_match' and len(a) >= 3:
            cont = self.is_elem(a[0])
            if cont is None or eng.as_ptr(a[0]) != (self.elem(cont), 0):
                eng.report(ins, 'something else than the key of the current entry is matched')
                return quiet(eng, st, ins)
            if a[1] != ('p', THIS, self.results) or a[2] != ('p', THIS, self.query):
                eng.report(ins, 'the key is not matched with the query of the iterator, or the groups are not kept')
            if self.get(st, cont)[0] not in ('at', 'post'):
                eng.report(ins, 'the key of an entry behind the last one is used')
            self.handle(st, cont)
            x, y = st.copy(), st.copy()
            x.mon, y.mon = (st.mon[0], 1), (st.mon[0], 0)
            return [Outcome('ret', I(1), x), Outcome('ret', I(0), y)]
        if sname == 'boost::basic_regex::basic_regex' and len(a) >= 2:
            ty = self.types(eng)
            c = self.arg(eng, st, ins, ty[0], a[1]) if ty else None
            if c is None and ty and 'regex' in ty[0]:
                c = self.content(eng, st, a[1], ins)
            self.setc(eng, st, a[0], c if c is not None else ('s', ('some', eng.cur_path, ins.idx)))
            return [Outcome('ret', None, st)]
        if sname.startswith('boost::'):
            return quiet(eng, st, ins)
        if re.match(r'std::_Rb_tree_(const_)?iterator::_Rb_tree', sname) and len(a) == 1:
            eng.mstore(st, a[0], NULL, 8)
            return [Outcome('ret', None, st)]
        return self.str_call(eng, st, ins, sname, args)


def members(p, cls):
    return {n.rsplit('::', 1)[-1]: (off, size) for n, off, size, *_ in p.flat_members(cls)}


def g02_query(ctx, p):
    rule = 'queries'
    for c in sorted(p.classes()):
        m = re.match(r'icl_core::KeyValueDirectoryIterator<(.*)>$', norm_cls(c).replace(' >', '>'))
        if not m:
            continue
        ty = m.group(1)
        size = 4 if ty == 'int' else 8
        off = {x[0].rsplit('::', 1)[-1]: x[1] for x in p.flat_members(p.cls(c))}
        need = ('m_directory', 'm_query', 'm_current_entry', 'm_current_results', 'm_reset')
        if any(n not in off for n in need):
            raise Broken('members of %s have changed' % c)
        fs, ctor, find = {}, None, None
        for f in p.iter_funcs():
            n = norm_cls(p.fullname(f.name))
            m2 = re.match(r'(?:[\w:<>&, ]+ )?icl_core::KeyValueDirectory(Iterator)?<%s>::(\w+)(?:\[abi:cxx11\])?\(' % re.escape(ty), n)
            if m2 and m2.group(1) and m2.group(2) == 'KeyValueDirectoryIterator':
                ctor = f
            elif m2 and m2.group(1):
                fs.setdefault(m2.group(2), f)
            elif m2 and m2.group(2) == 'find':
                find = f
        if ctor is None or find is None or not {'next', 'key', 'value', 'reset'} <= set(fs):
            raise Broken('functions of %s are missing' % c)
        DIR, Q, RES = ('o', ('s', 'dir')), ('o', ('s', 'key')), ('o', ('s', 'result'))
        cont = repr((DIR, 0))
        o_dir, o_q, o_cur, o_res, o_reset = (off[n] for n in need)

        def rule_():
            r = QueryRule()
            r.results, r.query = o_res, o_q
            return r
        name = 'KeyValueDirectoryIterator<%s>' % ty
        bad = lambda f, msg: ctx.violation(rule, p.fwhere(f), name, msg)
        q = ('s', ('query',))
        # a new iterator
        for f, obj, args in ((ctor, THIS, [('p', THIS, 0), ('p', Q, 0), ('p', DIR, 0)]), (find, RES, [('p', RES, 0), ('p', DIR, 0), ('p', Q, 0)])):
            r = rule_()
            e = Engine(p, r)
            for o in e.explore(f, args, ((), 0), mem={Q: {0: (q, 8)}}):
                if o.kind != 'ret':
                    continue
                rd = lambda x, n: e.mload(o.st, ('p', obj, x), n, None)
                if rd(o_dir, 8) != ('p', DIR, 0) or r.content(e, o.st, ('p', obj, o_q), None) != q:
                    bad(f, 'a new iterator does not keep its directory and its query')
                if strip(rd(o_reset, 1)) != I(1):
                    bad(f, 'a new iterator is not in front of the first entry')
            ctx.ok(rule, name + '::' + p.sname(f.name).rsplit('::', 1)[-1])
            ctx.take(e, rule)
        # next()
        for reset in (1, 0):
            r = rule_()
            e = Engine(p, r)
            mem = {THIS: {o_dir: (('p', DIR, 0), 8), o_cur: (('s', 'oldpos') if reset else r.cur(cont), 8), o_reset: (I(reset), 1)}}
            seen = set()
            for o in e.explore(fs['next'], [('p', THIS, 0)], (() if reset else ((cont, 'at', 1),), 0), mem=mem):
                if o.kind != 'ret':
                    bad(fs['next'], 'an exception leaves next()')
                    continue
                st = o.st
                s, h = r.get(st, cont)
                if s == 'post':
                    s = 'unk'
                t = truth_of(e, st, o.ret)
                seen.add(t)
                pos = e.mload(st, ('p', THIS, o_cur), 8, None)
                if strip(e.mload(st, ('p', THIS, o_reset), 1, None)) != I(0):
                    bad(fs['next'], 'the next call starts with the first entry again')
                if t is None or t and not (s == 'at' and st.mon[1]):
                    bad(fs['next'], 'succeeds at an entry which does not match')
                elif t is False and s != 'end':
                    bad(fs['next'], 'ends before all entries have been matched')
                if t and pos != r.cur(cont):
                    bad(fs['next'], 'does not keep the position of the match')
            if seen != {True, False}:
                bad(fs['next'], 'never %s' % ('succeeds' if True not in seen else 'ends'))
            ctx.ok(rule, '%s::next (%s)' % (name, 'first' if reset else 'further'))
            ctx.take(e, rule)
        for n, o_val in (('key', 0), ('value', 32)):
            r = rule_()
            e = Engine(p, r)
            f = fs[n]
            args = ([('p', RES, 0)] if n == 'key' else []) + [('p', THIS, 0)]
            for o in e.explore(f, args, (((cont, 'at', 1),), 1), mem={THIS: {o_cur: (r.cur(cont), 8)}}):
                if o.kind != 'ret':
                    continue
                el = ('p', r.elem(cont), o_val)
                if n == 'key':
                    same = r.content(e, o.st, ('p', RES, 0), None) == r.content(e, o.st, el, None)
                else:
                    same = o.ret == el or o.ret == e.mload(o.st, el, size, None)
                if not same:
                    bad(f, '%s() is not the one of the current entry' % n)
            ctx.ok(rule, '%s::%s' % (name, n))
            ctx.take(e, rule)
        r = rule_()
        e = Engine(p, r)
        for o in e.explore(fs['reset'], [('p', THIS, 0)], ((), 0), mem={THIS: {o_reset: (I(0), 1)}}):
            if strip(e.mload(o.st, ('p', THIS, o_reset), 1, None)) != I(1):
                bad(fs['reset'], 'does not reset the iterator')
        ctx.ok(rule, name + '::reset')
        ctx.take(e, rule)


CLS = C + 'ConfigManager'


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v)


class InitRule(MapRule):
    """ConfigManager::initialize(): rest = (events of the current entry, loaded: None/0/1, entries were written)"""
    join_limit = 12
    options = None

    def __init__(self, off):
        self.off = off
        self.plist, self.qlist = repr((THIS, off['m_parameter_list'][0])), repr((THIS, off['m_postional_parameter_list'][0]))

    def container(self, eng, st, cont):
        return True

    def rename_rest(self, eng, rest, f):
        return rest

    def inline(self, eng, fn, sname):
        return sname.startswith('icl_core::config::Config') or sname.startswith('icl_core::config::impl')

    def sym(self, name, x):
        return ('s', ('par', name, x))

    def part(self, eng, st):
        out = []
        for c, s, h in st.mon[0]:
            if c in (self.plist, self.qlist):
                key, opt = self.sym('key', c), self.sym('opt', c)
                out.append((eng.decide(st, streq(key, EMPTY)), eng.decide(st, self.sym('present', opt)), eng.decide(st, self.sym('haskey', key)),
                            eng.decide(st, self.sym('hasdef', c))))
        return tuple(out) + (eng.decide(st, self.sym('present', lit('configfile'))),)

    def forget(self, eng, st, ins, cont):
        IterRule.forget(self, eng, st, ins, cont)
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, cont)}

    def on_next(self, eng, st, ins, cont, handled):
        ev, loaded, wrote = st.mon[1]
        if cont in (self.plist, self.qlist):
            key, opt = self.sym('key', cont), self.sym('opt', cont)
            empty, present = eng.decide(st, streq(key, EMPTY)), eng.decide(st, self.sym('present', opt))
            hask, hasd = eng.decide(st, self.sym('haskey', key)), eng.decide(st, self.sym('hasdef', cont))
            if ev == ():
                if not (empty or present is False and (hask or hasd is False)):
                    eng.report(ins, 'a parameter which is given, or missing but has a default value, is not stored under its key')
            elif ev == ('opt', 'N'):
                if not present:
                    eng.report(ins, 'the value of an option which is not given is stored')
            elif ev == ('def', 'N'):
                if present is not False or hask is not False or not hasd:
                    eng.report(ins, 'a default value replaces a value which is given')
            else:
                eng.report(ins, 'a parameter is not stored once, with its value, and announced afterwards')
        elif cont == self.options:
            if ev != ('pre', 'N'):
                eng.report(ins, 'a configuration option of the command line is not stored once and announced afterwards')
        elif ev:
            eng.report(ins, 'an entry is stored in an unexpected place')
        st.mon = (st.mon[0], ((), loaded, wrote))

    def on_restart(self, eng, st, ins, cont, handled):
        pass

    def ended(self, st, cont):
        return any(c == cont and s == 'end' for c, s, h in st.mon[0])

    def event(self, eng, st, ins, x):
        ev, loaded, wrote = st.mon[1]
        st.mon = (st.mon[0], (ev + (x,) if len(ev) < 4 else ev, loaded, 1))

    def cont_other(self, eng, st, ins, name, cont, args):
        if name.startswith('~') or name in ('list', 'vector'):
            return [Outcome('ret', None, st)]
        return None

    def current(self, st):
        return [c for c, s, h in st.mon[0] if s in ('at', 'post')]

    def other(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        short = sname.rsplit('::', 1)[-1]
        if re.match(C + r'(Config|Getopt)(Positional)?Parameter::(configKey|option|name|defaultValue)$', sname) and len(a) == 2:
            cont = self.is_elem(a[1])
            tag = {'configKey': 'key', 'defaultValue': 'def'}.get(short, 'opt')
            self.setc(eng, st, a[0], self.sym(tag, cont) if cont else ('s', ('some', eng.cur_path, ins.idx)))
            return [Outcome('ret', None, st)]
        if re.match(C + r'(Config|Getopt)(Positional)?Parameter::hasDefaultValue$', sname):
            return self.two(eng, st, self.sym('hasdef', self.is_elem(a[0])), lambda s: None, lambda s: None)
        if sname == C + 'Getopt::instance':
            return [Outcome('ret', ('p', ('o', ('s', 'commandline')), 0), st)]
        if sname == C + 'Getopt::paramOptPresent':
            return self.two(eng, st, self.sym('present', self.content(eng, st, a[1], ins)), lambda s: None, lambda s: None)
        if sname == C + 'Getopt::paramOpt':
            self.setc(eng, st, a[0], self.sym('value', self.content(eng, st, a[2], ins)))
            return [Outcome('ret', None, st)]
        if sname == C + 'Getopt::paramPrefixOpt':
            # (the list which is returned)
            c = self.content(eng, st, a[2], ins)
            self.options = repr(eng.as_ptr(a[0]))
            if c != lit('config-option'):
                eng.report(ins, 'other options than the configuration options are used')
            return [Outcome('ret', None, st)]
        if sname == KVD + 'hasKey':
            return self.two(eng, st, self.sym('haskey', self.content(eng, st, a[1], ins)), lambda s: None, lambda s: None)
        if sname == CLS + '::load':
            ev, loaded, wrote = st.mon[1]
            if self.content(eng, st, a[1], ins) != self.sym('value', lit('configfile')) or loaded is not None or wrote or \
                    eng.decide(st, self.sym('present', lit('configfile'))) is not True:
                eng.report(ins, 'the file which is loaded is not the configuration file, or it is loaded after other entries were stored')
            x, y = st.copy(), st.copy()
            x.mon, y.mon = (st.mon[0], (ev, 1, wrote)), (st.mon[0], (ev, 0, wrote))
            return [Outcome('ret', I(1), x), Outcome('ret', I(0), y)]
        if sname in (KVD + 'insert', KVD + 'Insert'):
            k, v = self.content(eng, st, a[1], ins), self.content(eng, st, a[2], ins)
            here = self.current(st)
            x = 'other'
            if a[0] != ('p', THIS, 0):
                x = 'another configuration'
            for c in here:
                if c in (self.plist, self.qlist):
                    if k == self.sym('key', c):
                        x = 'opt' if v == self.sym('value', self.sym('opt', c)) else 'def' if v == self.sym('def', c) else 'other'
                elif c == getattr(self, 'options', None):
                    el = self.elem(c)
                    if k == self.content(eng, st, ('p', el, 0), ins) and v == self.content(eng, st, ('p', el, 32), ins):
                        x = 'pre'
                        if not (self.ended(st, self.plist) and self.ended(st, self.qlist)):
                            eng.report(ins, 'a configuration option of the command line is stored before the parameters')
            if not here and v == self.sym('value', lit('configfile')):
                x = 'file'
            if x == 'other':
                eng.report(ins, 'something else is stored than the value of the current parameter under its key')
            self.event(eng, st, ins, x)
            st.mem.setdefault(('o', ('s', 'key')), {})[0] = (k, 8)
            return quiet(eng, st, ins)
        if sname == CLS + '::notify':
            k = self.content(eng, st, a[1], ins)
            if st.mon[1][0][-1:] in ((), ('N',)) or st.mem.get(('o', ('s', 'key')), {}).get(0, (None,))[0] != k:
                eng.report(ins, 'a key is announced which was not stored just before')
            if st.mon[1][0] == ('file',):
                st.mon = (st.mon[0], ((), st.mon[1][1], 1))
            else:
                self.event(eng, st, ins, 'N')
            return [Outcome('ret', None, st)]
        if sname == CLS + '::dump':
            return [Outcome('ret', None, st)]
        r = self.str_call(eng, st, ins, sname, args)
        if r is None and sname.startswith('std::'):
            r = quiet(eng, st, ins)
            if ins.ty == ('ptr',) and 'operator<<' in sname:
                r = [Outcome('ret', a[0], r[0].st)]
        return r


def one_of(p, name, what=None):
    fs = [f for f in p.find(name) if p.in_repo(f)]
    if not fs:
        raise Broken('%s was not found' % (what or name))
    return fs


def offsets(p, cls, need):
    c = p.cls(cls)
    if c is None:
        raise Broken('class %s was not found' % cls)
    off = {x[0].rsplit('::', 1)[-1]: (x[1], x[2]) for x in p.flat_members(c)}
    for n in need:
        if n not in off:
            raise Broken('%s::%s was not found' % (cls, n))
    return off


def g02_initialize(ctx, p):
    rule = 'initialisation'
    off = offsets(p, CLS, ('m_initialized', 'm_parameter_list', 'm_postional_parameter_list'))
    f = one_of(p, CLS + '::initialize')[0]
    bad = lambda msg: ctx.violation(rule, p.fwhere(f), CLS + '::initialize()', msg)
    o_init = off['m_initialized'][0]
    for init in (0, 1):
        r = InitRule(off)
        e = Engine(p, r)
        seen = set()
        for o in e.explore(f, [('p', THIS, 0)], ((), ((), None, 0)), mem={THIS: {o_init: (I(init), 1)}}):
            if o.kind != 'ret':
                bad('an exception leaves the function')
                continue
            its, (ev, loaded, wrote) = o.st.mon
            t = truth_of(e, o.st, o.ret)
            seen.add(t)
            now = strip(e.mload(o.st, ('p', THIS, o_init), 1, None))
            if init:
                if t is not True or wrote or loaded is not None or now != I(1):
                    bad('a second initialisation does something')
                continue
            if t is None or now != I(int(t)):
                bad('the manager is marked as initialised although that failed, or is not marked')
            if ev:
                bad('an entry is stored but not announced')
            if t and loaded == 0:
                bad('succeeds although the configuration file could not be loaded')
            if t and (not (r.ended(o.st, r.plist) and r.ended(o.st, r.qlist)) or r.options is None or not r.ended(o.st, r.options)):
                bad('succeeds before all parameters and options have been stored')
            if t and loaded is None and e.decide(o.st, r.sym('present', lit('configfile'))) is not False:
                bad('the configuration file is not loaded although it is given')
            if t is False and loaded != 0:
                bad('fails although nothing failed')
        if not init and seen != {True, False}:
            bad('never %s' % ('succeeds' if True not in seen else 'fails'))
        ctx.ok(rule, 'initialize (%s)' % ('again' if init else 'first'))
        ctx.take(e, rule)


class NotifyRule(MapRule):
    """notify(): rest = (lists which were copied: (source, target), sources which were delivered)"""
    K = ('s', ('key',))

    def rename_rest(self, eng, rest, f):
        return rest

    def part(self, eng, st):
        return tuple(eng.decide(st, self.has(self.observers, c)) for c in (self.K, EMPTY))

    def inline(self, eng, fn, sname):
        return True

    def inline_external(self, eng, fn, sname):
        return False

    def source(self, c):
        return repr((self.entry(self.observers, c), 32))

    def delivered(self, eng, st, ins, cont):
        inc, done = st.mon[1]
        for x in [x for x, y in inc if y == cont] or ([cont] if 'entry' in cont else []):
            if x in done:
                eng.report(ins, 'observers are notified twice')
            done = done | {x}
        st.mon = (st.mon[0], (inc, done))

    def on_next(self, eng, st, ins, cont, handled):
        if handled != 1:
            eng.report(ins, 'an observer is not notified' if not handled else 'an observer is notified more than once')

    def on_restart(self, eng, st, ins, cont, handled):
        pass

    def on_end(self, eng, st, ins, cont):
        self.delivered(eng, st, ins, cont)

    def vcall(self, eng, st, ins, vn, args, targets):
        if len(args) == 2:
            cont = self.is_elem(args[0][1])
            if cont is None:
                eng.report(ins, 'something else than the current observer is notified')
            else:
                self.handle(st, cont)
            if self.content(eng, st, args[1][1], ins) != self.K:
                eng.report(ins, 'another key is announced than the one which changed')
            return [Outcome('ret', None, st)]
        return None

    def cont_other(self, eng, st, ins, name, cont, args):
        a = [v for t, v in args]
        if name == 'insert' and len(a) >= 4:
            x, y = self.pos(eng, st, a[-2], ins), self.pos(eng, st, a[-1], ins)
            if x and y and x[1] == y[1] and (x[0], y[0]) == ('cur', 'end'):
                inc, done = st.mon[1]
                self.put(st, x[1], None)
                st.mon = (st.mon[0], (inc | {(x[1], cont)}, done))
                return quiet(eng, st, ins)
        if name in ('list', 'operator') and len(a) == 2 or name == 'assign' and len(a) == 2:
            src = self.cont_of(eng, a[1])
            inc, done = st.mon[1]
            st.mon = (st.mon[0], (inc | {(src, cont)}, done))
            return [Outcome('ret', a[0] if ins.ty != ('void',) else None, st)]
        if name in ('list', '~list'):
            return [Outcome('ret', None, st)]
        return None

    def other(self, eng, st, ins, sname, fn, args):
        if re.match(r'(std|icl_core)::(__cxx11::)?[lL]ist::operator=$', sname) and len(args) == 2:
            return self.cont_other(eng, st, ins, 'operator', self.cont_of(eng, args[0][1]), args)
        if sname in ('std::_List_base::~_List_base',):
            return [Outcome('ret', None, st)]
        if sname.endswith('::__normal_iterator') or '_const_iterator' in sname:
            return None
        return self.str_call(eng, st, ins, sname, args)


class RegisterRule(MapRule):
    """(un)registerObserver(): rest = (added to, told, query: None/on an entry not told/told/end, keys removed)"""
    K, OBS = ('s', ('key',)), ('p', ('o', ('s', 'observer')), 0)

    def rename_rest(self, eng, rest, f):
        return rest

    def part(self, eng, st):
        return (eng.decide(st, streq(self.K, EMPTY)), eng.decide(st, ('s', ('haskey', self.K))))

    def on_next(self, eng, st, ins, cont, handled):
        if cont == self.observers and not handled:
            eng.report(ins, 'the observer is not removed from the list of some key')

    def set(self, st, **kw):
        d = dict(zip(('added', 'told', 'query'), st.mon[1]))
        d.update(kw)
        st.mon = (st.mon[0], (d['added'], d['told'], d['query']))

    def vcall(self, eng, st, ins, vn, args, targets):
        if len(args) == 2:
            added, told, query = st.mon[1]
            if args[0][1] != self.OBS:
                eng.report(ins, 'another observer is notified')
            c = self.content(eng, st, args[1][1], ins)
            if query in ('new', 'told') and c == ('s', ('par', 'current', 'key')):
                if query == 'told':
                    eng.report(ins, 'the observer is told a key twice')
                self.set(st, query='told')
            elif c == self.K:
                if eng.decide(st, ('s', ('haskey', self.K))) is not True:
                    eng.report(ins, 'the observer is told a key which does not exist')
                self.set(st, told=min(told + 1, 2))
            else:
                eng.report(ins, 'the observer is told something else than an existing key')
            return [Outcome('ret', None, st)]
        return None

    def cont_other(self, eng, st, ins, name, cont, args):
        a = [v for t, v in args]
        if name in ('push_back', 'push_front', 'emplace_back'):
            v = eng.mload(st, a[1], 8, ins)
            if cont != repr((self.entry(self.observers, self.K), 32)) or v != self.OBS:
                eng.report(ins, 'the observer is not added to the list of its key')
            self.set(st, added=min(st.mon[1][0] + 1, 2))
            return quiet(eng, st, ins)
        if name == 'remove':
            v = eng.mload(st, a[1], 8, ins)
            el = (self.elem(self.observers), 32)
            if cont != repr(el) or v != self.OBS:
                eng.report(ins, 'something else is removed than the observer from the current list')
            else:
                self.handle(st, self.observers)
            return quiet(eng, st, ins)
        return None

    def other(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname == CLS + '::instance':
            return [Outcome('ret', ('p', THIS, 0), st)]
        if sname == KVD + 'hasKey':
            return self.two(eng, st, ('s', ('haskey', self.content(eng, st, a[1], ins))), lambda s: None, lambda s: None)
        if sname == KVD + 'find':
            self.setc(eng, st, a[0], ('s', ('query', self.content(eng, st, a[2], ins))))
            return [Outcome('ret', None, st)]
        if sname == 'icl_core::KeyValueDirectoryIterator::next':
            q = self.content(eng, st, a[0], ins)
            if q != ('s', ('query', lit('.*'))):
                eng.report(ins, 'keys are searched with an expression which does not stand for the keys of interest (a key is no expression)')
                return quiet(eng, st, ins)
            if st.mon[1][2] == 'new':
                eng.report(ins, 'an existing key is not told to the observer')
            x, y = st.copy(), st.copy()
            self.set(x, query='new')
            self.set(y, query='end')
            return [Outcome('ret', I(1), x), Outcome('ret', I(0), y)]
        if sname == 'icl_core::KeyValueDirectoryIterator::key':
            self.setc(eng, st, a[0], ('s', ('par', 'current', 'key')))
            return [Outcome('ret', None, st)]
        if 'KeyValueDirectoryIterator' in sname or sname.startswith('boost::'):
            return quiet(eng, st, ins)
        return self.str_call(eng, st, ins, sname, args)

    def noreturn(self, *a):
        return None


def g02_observers(ctx, p):
    rule = 'observers'
    off = offsets(p, CLS, ('m_observers',))
    KEY = ('o', ('s', 'key'))
    cont = repr((THIS, off['m_observers'][0]))
    # notify
    f = one_of(p, CLS + '::notify')[0]
    bad = lambda f, msg: ctx.violation(rule, p.fwhere(f), p.sname(f.name), msg)
    r = NotifyRule()
    r.observers = cont
    e = Engine(p, r)
    k = ('s', ('key',))
    for o in e.explore(f, [('p', THIS, 0), ('p', KEY, 0)], ((), (frozenset(), frozenset())), mem={KEY: {0: (k, 8)}, ('o', ('s', 'result')): {0: (r.has(cont, k), 1), 1: (r.has(cont, EMPTY), 1)}}):
        if o.kind != 'ret':
            continue
        inc, done = o.st.mon[1]
        for c, what in ((k, 'of the key'), (EMPTY, 'of all keys')):
            h = e.decide(o.st, r.has(cont, c))
            if h is None or h and r.source(c) not in done:
                bad(f, 'the observers %s are not notified' % what)
        if done - {r.source(k), r.source(EMPTY)}:
            bad(f, 'observers of other keys are notified')
    ctx.ok(rule, 'notify')
    ctx.take(e, rule)
    # registerObserver
    f = one_of(p, CLS + '::registerObserver')[0]
    r = RegisterRule()
    r.observers = cont
    e = Engine(p, r)
    MON = ('o', ('s', 'result'))
    for o in e.explore(f, [('p', THIS, 0), r.OBS, ('p', KEY, 0)], ((), (0, 0, None)), mem={KEY: {0: (k, 8)}, MON: {0: (streq(k, EMPTY), 1), 8: (('s', ('haskey', k)), 1)}}):
        if o.kind != 'ret':
            continue
        added, told, query = o.st.mon[1]
        if added != 1:
            bad(f, 'the observer is not added exactly once')
        alle, hask = e.decide(o.st, streq(k, EMPTY)), e.decide(o.st, ('s', ('haskey', k)))
        if query in ('new', 'told') or alle is True and query != 'end' or alle is None:
            bad(f, 'an observer of all keys is not told every existing key')
        elif alle is False and (query is not None or hask is None and not told or hask is True and told != 1):
            bad(f, 'the observer is not told once that its key exists')
    ctx.ok(rule, 'registerObserver')
    ctx.take(e, rule)
    f = one_of(p, CLS + '::unregisterObserver')[0]
    r = RegisterRule()
    r.observers = cont
    e = Engine(p, r)
    for o in e.explore(f, [('p', THIS, 0), r.OBS], ((), (0, 0, None))):
        if o.kind == 'ret' and not any(c == cont and s == 'end' for c, s, h in o.st.mon[0]):
            bad(f, 'not all lists of observers are looked at')
    ctx.ok(rule, 'unregisterObserver')
    ctx.take(e, rule)
    # an observer which is destroyed
    fs = [f for f in p.find(C + 'ConfigObserver::~ConfigObserver') if not f.name.endswith('D0Ev')]
    if not fs:
        raise Broken('~ConfigObserver was not found')
    for f in fs:
        r = GoneRule()
        e = Engine(p, r)
        for o in e.explore(f, [('p', THIS, 0)], 0):
            if o.kind == 'ret' and o.st.mon != 1:
                bad(f, 'an observer which is destroyed is not unregistered')
        ctx.ok(rule, p.sname(f.name))
        ctx.take(e, rule)


class GoneRule(Rule):
    def call(self, eng, st, ins, sname, fn, args):
        if sname == CLS + '::unregisterObserver':
            if args[1][1] != ('p', THIS, 0):
                eng.report(ins, 'unregisters another observer')
            st.mon = min(st.mon + 1, 2)
            return [Outcome('ret', None, st)]
        if sname == CLS + '::instance':
            return [Outcome('ret', ('p', ('o', ('s', 'configuration')), 0), st)]
        return None


class AnnounceRule(StrModel):
    """every insert() is followed by notify() of the same key: mon = (key which is stored but not announced, entries, file loaded)"""
    join_limit = 12

    def rename(self, eng, mon, f):
        return (f(mon[0]) if mon[0] is not None else None,) + mon[1:]

    def mon_values(self, mon):
        return [mon[0]] if mon[0] is not None else []

    def keep(self, obj, off):
        return obj[0] == 'o' and obj[1][0] == 's' and obj[1][1] in ('key', 'value', 'this')

    def inline(self, eng, fn, sname):
        return False

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        pend, n, loaded = st.mon
        if base in (KVD + 'insert', KVD + 'Insert'):
            k = self.content(eng, st, a[1], ins)
            if pend is not None:
                eng.report(ins, 'an entry is stored before the one before is announced')
            st.mon = (k, min(n + 1, 2), loaded)
            self.stored = self.content(eng, st, a[2], ins)
            q = ('s', ('inserted', k))
            return [Outcome('ret', q, st)]
        if base == CLS + '::notify':
            k = self.content(eng, st, a[1], ins)
            if pend is None or k != pend:
                eng.report(ins, 'a key is announced which was not stored just before')
            st.mon = (None, n, loaded)
            return [Outcome('ret', None, st)]
        if base == CLS + '::load':
            st.mon = (pend, n, (self.content(eng, st, a[1], ins), n))
            return quiet(eng, st, ins)
        if base == 'boost::lexical_cast':
            self.setc(eng, st, a[0], ('s', ('text', a[1])))
            return [Outcome('ret', None, st)]
        r = self.str_call(eng, st, ins, base, args)
        if r is None and sname.startswith('icl_core::') or 'TiXml' in sname:
            r = quiet(eng, st, ins) if r is None else r
        return r


def g02_announce(ctx, p):
    rule = 'announcements'
    KEY, VAL = ('o', ('s', 'key')), ('o', ('s', 'value'))
    n = 0
    for f in p.iter_funcs():
        name = norm_cls(p.fullname(f.name))
        if name.startswith('icl_core::KeyValueDirectory') or 'KeyValueDirectory<' in name.split('(')[0]:
            continue
        if f.lines is None or not p.in_repo(f):
            continue
        calls = [i for b in f.blocks.values() for i in b if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g'
                 and re.sub(r'<.*>', '', p.sname(i.x['callee'][1])) in (KVD + 'insert', KVD + 'Insert')]
        if not calls or re.sub(r'<.*>', '', p.sname(f.name)) == CLS + '::initialize':
            continue
        pl = p.param_list(f.name)[0]
        r = AnnounceRule()
        e = Engine(p, r)
        set_value = re.sub(r'<.*>', '', p.sname(f.name)) == CLS + '::setValue'
        k = ('s', ('key',))
        a = [('p', THIS, 0)] + [('p', KEY, 0) if i == 0 else ('p', VAL, 0) if set_value else ('s', 'arg%d' % i) for i in range(len(pl))]
        bad = lambda msg: ctx.violation(rule, p.fwhere(f), name, msg)
        special = streq(k, lit('/configfile'))
        for o in e.explore(f, a, (None, 0, None), mem={KEY: {0: (k, 8)}, THIS: {1 << 16: (special, 1)}}):
            if o.kind != 'ret':
                continue
            pend, cnt, loaded = o.st.mon
            if pend is not None:
                bad('an entry is stored but not announced')
            if set_value:
                if cnt != 1:
                    bad('does not store exactly one entry')
                if o.ret != ('s', ('inserted', k)):
                    bad('the result does not tell whether the entry is new')
                if r.stored != ('s', ('text', ('p', VAL, 0))):
                    bad('stores something else than the value')
                d = e.decide(o.st, special)
                if d is None or d and (loaded is None or loaded[1] or loaded[0] != r.stored) or d is False and loaded is not None:
                    bad('a configuration file is not loaded exactly when its key is set')
        n += 1
        ctx.ok(rule, name)
        ctx.take(e, rule)


NODE, CHILD = ('s', 'node'), ('s', ('par', 'child', 0))
LOAD_ERROR = 'eFILE_LOAD_ERROR'


class TreeRule(StrModel):
    """reading a tree: mon = (position: None/at/end, what was done with the current child, what was done with the node itself)"""
    join_limit = 12

    def __init__(self, name_of):
        self.name_of = name_of

    def keep(self, obj, off):
        return obj[0] == 'o' and obj[1][0] == 's' and obj[1][1] in ('key', 'this', 'path', 'mon')

    def inline(self, eng, fn, sname):
        return False

    def part(self, eng, st):
        return tuple(eng.decide_icmp(st, 'eq', ('s', ('par', t, 'c')), NULL, 64) for t in ('text',)) + tuple(eng.decide(st, x) for x in self.watch)
    watch = ()

    def child(self, eng, st, ins):
        """the next child, or the end"""
        pos, done, own = st.mon
        self.check(eng, st, ins, done)
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, ('par', 'child', 0)) and not mentions(k, ('par', 'text', 'c'))}
        x, y = st.copy(), st.copy()
        x.mon, y.mon = ('at', (), own), ('end', (), own)
        eng.assume(x, ('x', 'icmp', 'ne', CHILD, NULL, 64), True)
        return [Outcome('ret', CHILD, x), Outcome('ret', NULL, y)]

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        short = base.rsplit('::', 1)[-1]
        if short in ('IterateChildren', 'firstSubTree', 'nextSubTree', 'FirstChild', 'NextSibling'):
            first = short in ('firstSubTree', 'FirstChild') or short == 'IterateChildren' and eng.decide_icmp(st, 'eq', a[-1], NULL, 64)
            up = a[0] == NODE if short != 'NextSibling' else a[0] == CHILD
            if not up or first != (st.mon[0] is None) or not first and a[-1] != CHILD:
                eng.report(ins, 'the children are not visited one after the other')
                return quiet(eng, st, ins)
            return self.child(eng, st, ins)
        r = self.node_call(eng, st, ins, base, short, a)
        if r is not None:
            return r
        if base == KVD + 'insert' and a[0] == ('p', THIS, 0):
            self.do(eng, st, ins, ('insert', self.content(eng, st, a[1], ins), self.content(eng, st, a[2], ins)))
            return quiet(eng, st, ins)
        if base == CLS + '::notify':
            self.do(eng, st, ins, ('notify', self.content(eng, st, a[1], ins)))
            return [Outcome('ret', None, st)]
        if base == CLS + '::load':
            self.do(eng, st, ins, ('load', self.content(eng, st, a[1], ins)))
            return quiet(eng, st, ins)
        if base in (CLS + '::readXml', CLS + '::readAttributeTree'):
            self.do(eng, st, ins, ('read', self.content(eng, st, a[1], ins), a[2], strip(a[-1])))
            return [Outcome('ret', None, st)]
        if base == 'icl_core::FilePath::path' or base == 'icl_core::config::FilePath::path' or base.endswith('FilePath::path'):
            self.setc(eng, st, a[0], ('s', ('directory',)))
            return [Outcome('ret', None, st)]
        if 'FilePath' in base:
            return quiet(eng, st, ins)
        if base == '__dynamic_cast':
            return [Outcome('ret', a[0], st)]
        if base in ('strcmp', 'std::strcmp'):
            x, y = self.chars(eng, st, a[0]), self.chars(eng, st, a[1])
            d = ('s', ('scmp', x, y))
            return [Outcome('ret', v.ret if v.ret == I(0) else d, v.st) for v in self.str_call(eng, st, ins, 'strcmp', args)]
        return self.str_call(eng, st, ins, base, args)

    def do(self, eng, st, ins, x):
        pos, done, own = st.mon
        if pos == 'at':
            st.mon = (pos, (done + (x,))[:4], own)
        elif pos is None:
            st.mon = (pos, done, (own + (x,))[:4])
        else:
            eng.report(ins, 'an entry is read after the last child')


class XmlRule(TreeRule):
    T = ('s', ('par', 'text', 'c'))

    def node_call(self, eng, st, ins, base, short, a):
        if short == 'Type':
            k = ('s', ('type', CHILD)) if a[0] == CHILD else None
            if k is None:
                return None
            out = []
            for code in (1, 4, 2):
                s = st.copy()
                if eng.assume(s, ('s', ('is', code, ('par', 'child', 0))), True) and all(
                        eng.assume(s, ('s', ('is', c, ('par', 'child', 0))), False) for c in (1, 4, 2) if c != code):
                    out.append(Outcome('ret', I(code), s))
            return out
        if short in ('Value', 'ValueTStr', 'ValueStr'):
            if a[-1] == NODE:
                return [Outcome('ret', ('s', ('cstr', self.NAME)), st)]
            if a[-1] == CHILD:
                return [Outcome('ret', ('s', ('cstr', ('s', ('name', ('par', 'child', 0))))), st)]
        if short == 'GetText' and a[0] == CHILD:
            return [Outcome('ret', self.T, st)]
        return None
    NAME = ('s', ('name', 'node'))

    def is_(self, eng, st, code):
        return eng.decide(st, ('s', ('is', code, ('par', 'child', 0))))

    def part(self, eng, st):
        return (self.is_(eng, st, 1), self.is_(eng, st, 4), eng.decide(st, self.include), eng.decide_icmp(st, 'eq', self.T, NULL, 64), eng.decide(st, self.EXT))
    EXT = ('s', ('rng', 'extend', 0, 1))
    include = streq(('s', ('name', ('par', 'child', 0))), lit('INCLUDE'))
    P = ('s', ('prefix',))

    def fq(self, eng, st):
        e = eng.decide(st, self.EXT)
        return None if e is None else cat(cat(self.P, lit('/')), self.NAME) if e else self.P

    def check(self, eng, st, ins, done):
        if st.mon[0] != 'at':
            return
        fq = self.fq(eng, st)
        v = ('s', ('name', ('par', 'child', 0)))
        if self.is_(eng, st, 4):
            if done != (('insert', fq, v), ('notify', fq)):
                eng.report(ins, 'the text of an element is not stored once under the path of the element and announced')
        elif self.is_(eng, st, 1):
            i = eng.decide(st, self.include)
            if i is True:
                null = eng.decide_icmp(st, 'eq', self.T, NULL, 64)
                want = (('load', cat(('s', ('directory',)), ('s', ('txt', self.T)))),)
                if done != (want if null is False else ()) or null is None:
                    eng.report(ins, 'an included file is not loaded once, from the directory of the including file')
            elif i is not False or done != (('read', fq, CHILD, I(1)),):
                eng.report(ins, 'an element is not read once, below the path of its parent')
        elif self.is_(eng, st, 1) is None or self.is_(eng, st, 4) is None or done:
            eng.report(ins, 'a child is skipped without a look at its type')


class AttrRule(TreeRule):
    DESC, VAL = ('s', ('par', 'description', 0)), ('s', ('par', 'attribute', 0))
    COMMENT = ('s', ('comment',))
    EXT, P = XmlRule.EXT, XmlRule.P

    def node_call(self, eng, st, ins, base, short, a):
        if short in ('getDescription', 'attribute') and a[0] == NODE:
            return [Outcome('ret', self.DESC if short == 'getDescription' else self.VAL, st)]
        if short == 'isComment' and a[0] == NODE:
            return self.two(eng, st, self.COMMENT, lambda s: None, lambda s: None)
        return None

    def part(self, eng, st):
        return (eng.decide(st, self.EXT), eng.decide(st, self.COMMENT)) + tuple(eng.decide_icmp(st, 'eq', x, NULL, 64) for x in (self.DESC, self.VAL))

    def fq(self, eng, st):
        e, n = eng.decide(st, self.EXT), eng.decide_icmp(st, 'eq', self.DESC, NULL, 64)
        if e is None or e and n is None:
            return None
        return cat(cat(self.P, lit('/')), EMPTY if n else ('s', ('txt', self.DESC))) if e else self.P

    def check(self, eng, st, ins, done):
        fq = self.fq(eng, st)
        if st.mon[0] == 'at' and done != (('read', fq, CHILD, I(1)),):
            eng.report(ins, 'a sub tree is not read once, below the path of its parent')

    def final(self, eng, st, bad):
        fq, own = self.fq(eng, st), st.mon[2]
        c, n = eng.decide(st, self.COMMENT), eng.decide_icmp(st, 'eq', self.VAL, NULL, 64)
        if c is False and n is False:
            if own != (('insert', fq, ('s', ('txt', self.VAL))), ('notify', fq)):
                bad('the attribute is not stored once under the path of the node and announced')
        elif not (c or n) or own:
            bad('a comment or a missing attribute is stored')


class LoadRule(StrModel):
    """load(): mon = what was done"""
    F = ('s', ('filename',))

    def keep(self, obj, off):
        return obj[0] == 'o' and obj[1][0] == 's' and obj[1][1] in ('key', 'this', 'mon')

    def inline(self, eng, fn, sname):
        return False

    def did(self, st, *x):
        st.mon = (st.mon + (x,))[:5]

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        a = [v for t, v in args]
        if base.endswith('FilePath::FilePath') or base.endswith('TiXmlDocument::TiXmlDocument'):
            if len(a) > 1 and self.types(eng) and 'char' in self.types(eng)[0]:
                self.setc(eng, st, a[0], ('s', ('of', self.arg(eng, st, ins, self.types(eng)[0], a[1]))))
            elif len(a) > 1:
                self.setc(eng, st, a[0], self.content(eng, st, a[1], ins))
            return [Outcome('ret', None, st)]
        if base.endswith('FilePath::extension'):
            if self.content(eng, st, a[1], ins) != ('s', ('of', self.F)):
                eng.report(ins, 'the type of another file is used')
            self.setc(eng, st, a[0], ('s', ('ext',)))
            return [Outcome('ret', None, st)]
        if base == C + 'AttributeTree::load':
            self.did(st, 'tree', self.arg(eng, st, ins, 'char const*', a[1]))
            return [Outcome('ret', ('s', ('rng', 'loaded', -16, 16)), st)]
        if base == C + 'AttributeTree::root':
            return [Outcome('ret', ('s', 'root'), st)]
        if base == 'TiXmlDocument::LoadFile':
            f = self.content(eng, st, a[0], ins)
            f = f[1][1] if f[0] == 's' and f[1][0] == 'of' else None
            if len(a) > 2 or self.types(eng) and 'char' in self.types(eng)[0]:
                f = self.arg(eng, st, ins, 'char const*', a[1])
            x, y = st.copy(), st.copy()
            self.did(x, 'xml', f, True)
            self.did(y, 'xml', f, False)
            return [Outcome('ret', I(1), x), Outcome('ret', I(0), y)]
        if base.endswith('::RootElement'):
            return [Outcome('ret', ('s', 'root'), st)]
        if base in (CLS + '::readXml', CLS + '::readAttributeTree'):
            self.did(st, base.rsplit('::', 1)[-1], self.content(eng, st, a[1], ins), a[2], strip(a[-1]))
            return [Outcome('ret', None, st)]
        r = self.str_call(eng, st, ins, base, args)
        if r is None:
            r = quiet(eng, st, ins)
        return r


def g02_files(ctx, p):
    rule = 'files'
    KEY, MON = ('o', ('s', 'key')), ('o', ('s', 'mon'))
    f = one_of(p, CLS + '::load')[0]
    bad = lambda msg: ctx.violation(rule, p.fwhere(f), p.sname(f.name), msg)
    err = enumerator(p, LOAD_ERROR)
    good = enumerator(p, 'eOK')
    r = LoadRule()
    e = Engine(p, r)
    seen = set()
    res, root = ('s', ('rng', 'loaded', -16, 16)), ('s', 'root')
    for o in e.explore(f, [('p', THIS, 0), ('p', KEY, 0)], (), mem={KEY: {0: (r.F, 8)}, MON: {0: (('s', ('ext',)), 8), 8: (res, 4), 16: (root, 8)}}):
        if o.kind != 'ret':
            continue
        st = o.st
        t = truth_of(e, st, o.ret)
        tree = [e.decide(st, streq(('s', ('ext',)), lit(x))) for x in ('.AttributeTree', '.tree')]
        null = e.decide_icmp(st, 'eq', root, NULL, 64)
        if any(tree):
            er, ok = (e.decide_icmp(st, 'eq', res, I(x), 32) for x in (err, good))
            want = [(('tree', r.F),)] + ([(('tree', r.F), ('readAttributeTree', EMPTY, root, I(0)))] if not er else [])
            if ok:
                want = want[1:]
            if st.mon not in want or t is None or er is None or t == er or er is False and ok is None:
                bad('an attribute tree is not loaded and read, or the result does not tell whether it could be loaded')
            seen.add(('tree', t))
        elif tree == [False, False]:
            if st.mon == (('xml', r.F, False),):
                if t is not False:
                    bad('the result does not tell that the file could not be loaded')
            elif st.mon != (('xml', r.F, True),) + ((('readXml', EMPTY, root, I(0)),) if null is False else ()) or not t or null is None:
                bad('an XML file is not loaded and read, or the result does not tell whether it could be loaded')
            seen.add(('xml', t))
        else:
            bad('the type of the file is not determined by its extension')
    if seen != {(k, t) for k in ('tree', 'xml') for t in (True, False)}:
        bad('not all types of files can be loaded, and fail to load')
    ctx.ok(rule, 'load')
    ctx.take(e, rule)
    for name, cls in (('readXml', XmlRule), ('readAttributeTree', AttrRule)):
        f = one_of(p, CLS + '::' + name)[0]
        bad = lambda msg: ctx.violation(rule, p.fwhere(f), p.sname(f.name), msg)
        r = cls(None)
        e = Engine(p, r)
        args = [('p', THIS, 0), ('p', KEY, 0), NODE] + ([('p', ('o', ('s', 'path')), 0)] if name == 'readXml' else []) + [r.EXT]
        mem = {KEY: {0: (r.P, 8)}, MON: {0: (r.EXT, 1), 8: (CHILD, 8)}}
        if name == 'readXml':
            mem[MON].update({16: (r.T, 8), 24: (r.include, 1)})
            mem[MON].update({32 + c: (('s', ('is', c, ('par', 'child', 0))), 1) for c in (1, 2, 4)})
        else:
            mem[MON].update({16: (r.DESC, 8), 24: (r.VAL, 8), 32: (r.COMMENT, 1)})
        ended = False
        for o in e.explore(f, args, (None, (), ()), mem=mem):
            if o.kind != 'ret':
                continue
            if o.st.mon[0] != 'end':
                bad('returns before all children have been read')
            ended = True
            if name == 'readAttributeTree':
                r.final(e, o.st, bad)
            elif o.st.mon[2]:
                bad('stores something before the children are read')
        if not ended:
            bad('never returns')
        ctx.ok(rule, name)
        ctx.take(e, rule)


def enumerator(p, name):
    for m in p.modules:
        for n, txt in m.md.items():
            if 'DIEnumerator' in txt:
                q = re.search(r'name: "%s", value: (-?\d+)' % name, txt)
                if q:
                    return int(q.group(1))
    raise Broken('enumerator %s was not found' % name)


def g02(ctx):
    ctx.rule('directory', 'a directory returns the value last inserted under a key, tells whether the key exists, and insert() whether the entry is new')
    ctx.rule('queries', 'a query visits every entry once, in turn, and stops exactly at those whose key matches; key() and value() are those of the match')
    ctx.rule('initialisation', 'the configuration file is loaded first, then every parameter given on the command line replaces what it says, default values only fill '
                               'gaps, configuration options come last; every stored key is announced once afterwards; only success marks the manager as initialised')
    ctx.rule('observers', 'a change is announced once to every observer of the key and of all keys; a new observer is told the keys which exist; an observer which is '
                          'unregistered or destroyed is removed from all lists')
    ctx.rule('announcements', 'whatever stores an entry announces that key afterwards; setValue() stores the text of the value, and loads a configuration file it names first')
    ctx.rule('files', 'a configuration file is read completely: every text and attribute is stored under the path of its element, every include is loaded, and\n'
                      'load() fails when the file can not be loaded')
    p = ctx.load(('icl_core', 'icl_core_config'), ('config_api',))
    g02_directory(ctx, p)
    g02_query(ctx, p)
    g02_initialize(ctx, p)
    g02_observers(ctx, p)
    g02_announce(ctx, p)
    g02_files(ctx, p)
    ctx.need('directory', 6)
    ctx.need('queries', 14)
    ctx.need('initialisation', 2)
    ctx.need('observers', 4)
    ctx.need('files', 3)
    ctx.need('announcements', 4)
