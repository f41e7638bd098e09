"""L03: what the outputs make of a log message."""
import re
from ..absint import Engine, State, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .containers import IterRule
from .config import quiet, truth_of
from .logs import fresh
from .manager import mentions
from .resources import again
from ..core import Broken

NS = 'icl_core::logging::'
STREAM = NS + 'LogOutputStream'
MSG = STREAM + '::LogMessage'
ENTRY = STREAM + '::LogFormatEntry'
TEXTS = ('log_stream', 'filename', 'class_name', 'object_name', 'function_name', 'message_text')
SOFAR = ('s', 'what was written before')
ZEROS = ('s', ('zeros',))
MON = ('o', ('s', 'MON'))


def result(eng, ins):
    return ('s', ('r', eng.cur_path, ins.idx))


def field(n):
    return ('s', ('field', n))


class Message:
    """the log message which is given to the output"""

    def __init__(self, p):
        self.off = {m[0].rsplit('::', 1)[-1]: (m[1], m[2]) for m in p.flat_members(p.cls(MSG))}
        for n in TEXTS + ('timestamp', 'log_level', 'line'):
            if n not in self.off:
                raise Broken('%s has no member %s' % (MSG, n))
        self.obj = ('o', ('s', 'message'))

    def cells(self):
        return {self.off[n][0]: (field(n), self.off[n][1]) for n in ('log_level', 'line')}

    def text(self, q):
        """the text member q points to"""
        if q is not None and q[0] == self.obj:
            for n in TEXTS:
                if self.off[n][0] == q[1]:
                    return n
        return None

    def is_time(self, q):
        return q is not None and q == (self.obj, self.off['timestamp'][0])


class MessageRule(StrModel):
    """Values of the fields of the message; everything else of the logging library which is not followed has no effect."""
    max_depth = 10
    join_limit = 40
    cls = None
    follow = ()

    def __init__(self, msg, this):
        self.msg, self.this = msg, this

    def class_of(self, obj):
        return self.cls if obj == self.this else MSG if obj == self.msg.obj else None

    def keep(self, obj, off):
        return obj in (self.this, self.msg.obj)

    def inline(self, eng, fn, sname):
        c = sname.rsplit('::', 1)[0]
        if c.startswith(tuple(self.follow)) or re.match(r'icl_core::(\w+::)*mem(set|cpy)$', sname):
            return True
        return not sname.startswith(('icl_core::logging::', 'icl_core::config::', 'icl_core::Time', 'icl_core::os::')) and eng.is_repo(fn, sname)

    def pure_repo(self, sname):
        return True

    def chars(self, eng, st, v):
        q = eng.as_ptr(v)
        n = self.msg.text(q)
        if n:
            return field(n)
        if q is not None and isinstance(q[1], int):
            c = st.mem.get(q[0], {}).get(q[1])
            if c is not None and isinstance(c, tuple) and c[0][0] == 's' and isinstance(c[0][1], tuple) and c[0][1][0] == 'localtime':
                return c[0]
        return super().chars(eng, st, v)

    def fields(self, eng, st, ins, sname, fn, args):
        """calls on parts of the message"""
        a = [v for t, v in args]
        last = sname.rsplit('::', 1)[-1]
        if sname == NS + 'logLevelDescription':
            return [Outcome('ret', ('s', ('cstr', ('s', ('description', eng.norm(st, a[0]))))), st)]
        if last == 'formatIso8601' and len(a) >= 2:
            q = eng.as_ptr(a[1])
            self.setc(eng, st, a[0], field('iso') if self.msg.is_time(q) else ('s', ('iso of', a[1])))
            return [Outcome('ret', None, st)]
        if last in ('tsNSec', 'nsec') and a:
            return [Outcome('ret', field('nsec') if self.msg.is_time(eng.as_ptr(a[0])) else result(eng, ins), st)]
        if last in ('strfLocaltime', 'strfTime') and len(a) == 4:
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            q = eng.as_ptr(a[1])
            v = ('s', ('localtime', last == 'strfLocaltime' and self.msg.is_time(eng.as_ptr(a[0])) and mentions_obj(a[3], self.this)))
            if q:
                eng.havoc_obj(st, q[0], ins)
                eng.mstore(st, a[1], v, 8)
            return [Outcome('ret', None, st)]
        return None

    def special(self, eng, st, ins, sname, fn, args):
        return None

    def call(self, eng, st, ins, sname, fn, args):
        for f in (self.special, self.fields):
            r = f(eng, st, ins, sname, fn, args)
            if r is not None:
                return r
        r = self.str_call(eng, st, ins, sname, args)
        if r is not None:
            return r
        if fn is not None and fn.lines is not None and eng.is_repo(fn, sname) and not self.inline(eng, fn, sname):
            return quiet(eng, st, ins)
        if fn is None or fn.lines is None or not eng.is_repo(fn, sname):
            if re.match(r'(std|boost)::', sname):
                fresh(eng, st, ins)
                a = again(eng, st, ins)
                return [Outcome('ret', None if ins.ty == ('void',) else a[0] if sname.endswith(('operator<<', 'flush')) else result(eng, ins), st)]
        return None

    def vcall(self, eng, st, ins, vn, args, targets):
        return quiet(eng, st, ins)


def is_char(eng, st, c, k):
    """is the character c known to be k (or known not to be k)?"""
    for v, w in ((c, 8), (('x', 'sext', c, 8, 32), 32)):
        t = eng.decide_icmp(st, 'eq', eng.norm(st, v), I(k), w)
        if t is not None:
            return t
    return None


def mentions_obj(v, obj):
    return v == obj or isinstance(v, tuple) and any(mentions_obj(x, obj) for x in v)


def is_description(v, level=field('log_level')):
    return v == ('s', ('description', level))


# ---------------------------------------------------------------------- the text format
# field specifier: what it stands for (with the text of the specifier, if the field is not empty)
LETTERS = {'C': 'class_name', 'O': 'object_name', 'D': 'function_name', 'E': 'message_text', 'F': 'filename', 'G': 'line', 'L': 'level', 'S': 'log_stream',
           'T': 'time', 'M': 'milliseconds'}
OPTIONAL = ('class_name', 'object_name', 'function_name')


class FormatRule(IterRule, MessageRule):
    """st.mon = (iterations, (how often the line was handed over,)); the text which one entry adds is compared with its type"""
    cls = STREAM
    follow = (STREAM,)

    def __init__(self, p, msg, this, offsets):
        MessageRule.__init__(self, msg, this)
        self.entry = offsets
        self.found = {}

    def keep(self, obj, off):
        return IterRule.keep(self, obj, off) or MessageRule.keep(self, obj, off)

    def container(self, eng, st, cont):
        return 'this' in cont

    def streams(self, st):
        return [o for o in sorted(st.mem, key=repr) if CONTENT in st.mem[o]]

    def text(self, eng, st):
        ss = self.streams(st)
        return eng.mload(st, ('p', ss[0], CONTENT), 8, None) if len(ss) == 1 else None

    def part(self, eng, st):
        return repr((st.mon, self.text(eng, st), [self.is_empty(eng, st, n) for n in OPTIONAL] if any(x[1] == 'post' for x in st.mon[0]) else None))

    def rest_values(self, rest):
        return [streq(field(n), EMPTY) for n in OPTIONAL]

    def cont_call(self, eng, st, ins, name, cont, args):
        if name in ('begin', 'cbegin') and self.get(st, cont)[0] is None:
            self.used = eng.as_ptr(args[0][1])[1]
            if self.text(eng, st) is None:
                raise Broken('the text of the log line is not collected in one stream')
            self.cut(eng, st)
        return IterRule.cont_call(self, eng, st, ins, name, cont, args)

    used = None

    def cut(self, eng, st):
        eng.mstore(st, ('p', self.streams(st)[0], CONTENT), SOFAR, 8)

    def on_next(self, eng, st, ins, cont, handled):
        v = parts(self.text(eng, st))
        el = ('p', self.elem(cont), self.entry['type'])
        ty = eng.mload(st, el, 4, ins)
        k = [c for c in self.entry['values'] if eng.decide_icmp(st, 'eq', ty, I(c), 32) is True]
        tok = []
        if v[0] != SOFAR:
            eng.report(ins, 'what was written for earlier fields is lost')
        empty = {}
        for n in OPTIONAL:
            empty[n] = self.is_empty(eng, st, n)
        for x in v[1:]:
            tok.append(self.token(eng, st, x, self.elem(cont)))
        key = (tuple(tok), tuple(sorted(empty.items())))
        self.found.setdefault(k[0] if k else None, {}).setdefault(key, eng.p.where(ins))
        self.cut(eng, st)

    on_restart = on_next

    def is_empty(self, eng, st, n):
        t = eng.decide(st, streq(field(n), EMPTY))
        if t is None:
            c = eng.mload(st, ('p', self.msg.obj, self.msg.off[n][0]), 1, None)
            t = is_char(eng, st, c, 0)
        return t

    def token(self, eng, st, x, el):
        for n in TEXTS:
            if x == field(n):
                return n
        if x == ZEROS:
            return '0'
        if is_description(x):
            return 'level'
        if x[0] == 's' and x[1][0] == 'localtime':
            return 'time' if x[1][1] else 'another time'
        if x[0] == 's' and x[1][0] == 'txt':
            q = eng.as_ptr(x[1][1])
            if q and q[0] == el:
                for n in ('text', 'suffix'):
                    if q[1] == self.entry[n]:
                        return n
        if x[0] == 's' and x[1][0] == 'num':
            v = strip(x[1][1])
            if v == field('line'):
                return 'line'
            if v[0] == 'x' and v[1] in ('sdiv', 'udiv') and strip(v[2]) == field('nsec') and v[3] == I(1000000):
                return 'milliseconds'
        if is_lit(x) is not None:
            return '"%s"' % is_lit(x)
        return 'something else'

    def cont_other(self, eng, st, ins, name, cont, args):
        return None

    def other(self, eng, st, ins, sname, fn, args):
        if sname in ('std::operator<<',) and len(args) == 2:
            o = self.stream(eng, args[0][1])
            k = self.known(eng, st, o, ins)
            if k is not None:
                v = self.arg(eng, st, ins, (self.types(eng) or [''])[-1], args[1][1])
                t = is_lit(v) if v is not None else None
                if t and set(t) == {'0'}:
                    if parts(k[0])[-1] != ZEROS:
                        eng.mstore(st, ('p', o, CONTENT), cat(k[0], ZEROS), 8)
                    return [Outcome('ret', args[0][1], st)]
        return MessageRule.call(self, eng, st, ins, sname, fn, args)

    def special(self, eng, st, ins, sname, fn, args):
        if sname == NS + 'Semaphore::wait' or sname == NS + 'Semaphore::timedWait':
            fresh(eng, st, ins)
            return [Outcome('ret', I(1), st), Outcome('ret', I(0), self.failed(st.copy()))]
        return None

    def failed(self, st):
        st.mon = (st.mon[0], (st.mon[1][0], True))
        return st

    def vcall(self, eng, st, ins, vn, args, targets):
        if len(args) == 2 and 'pushImpl' in str(vn):
            v = self.content(eng, st, args[1][1], ins)
            if not (v == SOFAR or v == self.text(eng, st)):
                eng.report(ins, 'hands over something which is not the formatted line')
            st.mon = (st.mon[0], (min(st.mon[1][0] + 1, 2), st.mon[1][1]))
        return quiet(eng, st, ins)


BRACKETS = (('(', ')'), ('[', ']'), ('{', '}'), ('', ''))


class ParseRule(MessageRule):
    """st.mon = (something was stored, an entry was added) or how the parser went on; the character which was read last is kept in MON"""
    cls = STREAM
    follow = (STREAM,)
    recursion = 1
    join_limit = 6
    split_bools = True
    target = None

    def __init__(self, p, msg, this, offsets, parser):
        MessageRule.__init__(self, msg, this)
        self.entry, self.parser = offsets, parser
        self.found = {}

    def keep(self, obj, off):
        return obj == MON or MessageRule.keep(self, obj, off)

    def load(self, eng, st, ins, ptr, size):
        if size == 1:
            q = eng.as_ptr(ptr)
            if q is None or q[0][0] not in 'ag' and q[0] != self.this:
                last = st.mem[MON].get(8)
                if last is not None and last[0] == eng.norm(st, ptr):
                    return eng.mload(st, ('p', MON, 0), 1, ins)
                eng.mstore(st, ('p', MON, 0), eng.mload(st, ptr, 1, ins), 1)
                eng.mstore(st, ('p', MON, 8), ptr, 8)
        return None

    def no_text(self, eng, st):
        """is the text of the new entry known to be empty?"""
        t = st.mem.get(self.new_entry, {}).get(self.entry['text'])
        return t is not None and is_char(eng, st, t[0], 0)

    def join_facts(self, eng, a, b, j, ren):
        t = j.mem.get(self.new_entry, {}).get(self.entry['text'])
        if t is not None and t[0][0] != 'i' and self.no_text(eng, a) and self.no_text(eng, b):
            j.facts[('eq', ('x', 'sext', t[0], 8, 32))] = 0
        # where the character was read: the same variable as before
        x, y = (s.mem[MON].get(8, (None,))[0] for s in (a, b))
        if x is not None and y is not None and x != y:
            for k, v in j.regs.items():
                if a.regs.get(k) == x and b.regs.get(k) == y:
                    j.mem[MON][8] = (v, 8)
                    break
        # what is known about the character
        c, x, y = (s.mem[MON].get(0, (None,))[0] for s in (j, a, b))
        if c is not None and x is not None and y is not None and x != y:
            k = [self.char(eng, s) for s in (a, b)]
            if k[0] == k[1] and (k[0][0] or k[0][1]):
                j.facts[('eq', ('x', 'sext', c, 8, 32))] = 0 if k[0][1] else ord(k[0][0])
                return
            ne = [eng.ne_of(s, ('x', 'sext', v, 8, 32)) for s, v in ((a, x), (b, y))]
            if ne[0] and ne[1] and ne[0] & ne[1]:
                j.facts[('ne', ('x', 'sext', c, 8, 32))] = ne[0] & ne[1]

    def part(self, eng, st):
        # states which know the field specifier are not joined, because they would forget it when they read it again
        k, end = self.char(eng, st)
        return (st.mon, k, end, self.no_text(eng, st))

    def store(self, eng, st, ins, ptr, val, size):
        """one character of a text (C10 shows that it stays within the text)"""
        q = eng.as_ptr(ptr)
        if q is not None and q[0][0] == 'a' and isinstance(q[1], int) and size == 1 and val[0] != 'i' and 0 <= q[1] - self.entry['text'] < 100:
            self.stored(eng, st, ins, q[0], val)
        if q is not None and q[0][0] == 'a' and isinstance(q[1], tuple) and q[1][0] == 'so' and size == 1:
            for n in ('text', 'suffix'):
                if q[1][2] == self.entry[n]:
                    if n == 'text':
                        self.stored(eng, st, ins, q[0], val)
                    eng.havoc_range(st, q[0], q[1][2], q[1][2] + 100, ins)
                    return True
        return None

    new_entry = None
    first = None

    def specifier(self, eng, st):
        """does the format start with a field specifier?"""
        return is_char(eng, st, self.first, ord('~'))

    def mon_values(self, mon):
        return [self.first, ('x', 'sext', self.first, 8, 32)]

    def stored(self, eng, st, ins, obj, val):
        self.new_entry = obj
        spec = self.specifier(eng, st)
        ends = list(LETTERS) if spec else ['~']
        for c in ends:
            if is_char(eng, st, val, ord(c)) is not False:
                eng.report(ins, 'the %s goes on although a field specifier (%s) may follow' % ('prefix' if spec else 'text', '~' + c if spec else c))
        if len(st.mon) == 2:
            st.mon = (True, st.mon[1])

    def ret(self, eng, st, ins, fn, val):
        if fn.name == self.parser.name and st.mon[0] != 'done':
            bad = self.finish(eng, st)
            if bad:
                eng.report(ins, bad)

    def finish(self, eng, st):
        """what is wrong at the end of this part of the format?"""
        if len(st.mon) != 2 or st.mon[1]:
            return None
        if self.specifier(eng, st) is True:
            if self.char(eng, st)[1] is not True:
                return 'no entry is added for a field specifier'
        elif st.mon[0]:
            if self.no_text(eng, st) is not True:
                return 'no entry is added for a text which was read'
        return None

    def char(self, eng, st):
        """the character which was read last: (known characters which it is, known to be the end)"""
        c = eng.mload(st, ('p', MON, 0), 1, None)
        is_ = [x for x in list(LETTERS) + ['~'] if is_char(eng, st, c, ord(x)) is True]
        return (is_[0] if is_ else None), is_char(eng, st, c, 0)

    def special(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        last = sname.rsplit('::', 1)[-1]
        if fn is not None and fn.name == self.parser.name:
            k, end = self.char(eng, st)
            bad = self.finish(eng, st)
            if bad:
                eng.report(ins, bad)
            last = st.mem[MON].get(8)
            if not (last is not None and last[0] == eng.norm(st, a[1])) and eng.mload(st, a[1], 1, ins) != eng.mload(st, ('p', MON, 0), 1, ins):
                eng.report(ins, 'does not continue with the character which follows')
            elif end is not False:
                eng.report(ins, 'continues although the format may be at its end')
            st.mon = ('done',)
            return [Outcome('ret', None, st)]
        if last in ('push_back', 'emplace_back') and len(a) == 2:
            self.target = eng.as_ptr(a[0])[1] if eng.as_ptr(a[0]) and eng.as_ptr(a[0])[0] == self.this else None
            q = eng.as_ptr(a[1])
            ty = eng.mload(st, ('p', q[0], q[1] + self.entry['type']), 4, ins) if q and isinstance(q[1], int) else None
            k, end = self.char(eng, st)
            if ty is None or ty[0] != 'i':
                eng.report(ins, 'adds an entry whose kind is not known')
                return [Outcome('ret', None, st)]
            suffix = '?'
            if k and LETTERS.get(k) == 'object_name':
                t = eng.mload(st, ('p', q[0], q[1] + self.entry['text']), 1, ins)
                first = [b for b in '([{' if is_char(eng, st, t, ord(b)) is True]
                none = all(is_char(eng, st, t, ord(b)) is False for b in '([{')
                x = st.mem.get(q[0], {}).get(q[1] + self.entry['suffix'])
                x = is_lit(x[0]) if x is not None and x[1] == 8 else None
                suffix = (first[0] if first else '' if none else '?', x or '')
            key = k if k in LETTERS else 'text'
            if len(st.mon) == 2:
                if st.mon[1]:
                    eng.report(ins, 'adds a second entry')
                st.mon = (st.mon[0], True)
            if self.specifier(eng, st) is False and not (len(st.mon) == 2 and st.mon[0]):
                eng.report(ins, 'adds a text although none was read')
            self.found.setdefault(key, {}).setdefault((ty[1], suffix), eng.p.where(ins))
            return quiet(eng, st, ins)
        if sname in ('strchr', 'std::strchr', 'index') and cstring(eng.p, a[0]) is not None:
            fresh(eng, st, ins)
            a, out, none = again(eng, st, ins), [], st.copy()
            text = cstring(eng.p, a[0])
            for i, c in enumerate(text + '\0'):
                x = st.copy()
                if eng.assume_icmp(x, 'eq', a[1], I(ord(c)), 32) is not False:
                    out.append(Outcome('ret', ('p', eng.as_ptr(a[0])[0], i), x))
                eng.assume_icmp(none, 'ne', a[1], I(ord(c)), 32)
            return out + [Outcome('ret', NULL, none)]
        if last == 'isdigit':
            fresh(eng, st, ins)
            out = []
            for t in (True, False):
                x = st.copy()
                if not t:
                    eng.assume_icmp(x, 'ne', result(eng, ins), I(0), 32)
                elif False:
                    pass
                out.append(Outcome('ret', I(0) if t else result(eng, ins), x))
            return out
        if sname in ('strncpy', 'std::strncpy', 'strcpy', 'std::strcpy') and eng.as_ptr(a[0]):
            q = eng.as_ptr(a[0])
            t = cstring(eng.p, a[1])
            if t is not None:
                eng.mstore(st, a[0], lit(t), 8)
                return [Outcome('ret', a[0], st)]
        return None


class ListRule(MessageRule):
    """The content of a list as one value, like that of a string"""
    cls = STREAM
    follow = (STREAM,)

    def __init__(self, p, msg, this, parser):
        MessageRule.__init__(self, msg, this)
        self.parser = parser

    def special(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        base = re.sub(r'<.*>', '', sname)
        last = base.rsplit('::', 1)[-1]
        if fn is not None and fn.name == self.parser.name:
            o = ('p', self.this, self.target)
            self.setc(eng, st, o, cat(self.content(eng, st, o, ins), ('s', ('parsed', eng.norm(st, a[1])))))
            return [Outcome('ret', None, st)]
        if re.match(r'(std::(__cxx11::)?|icl_core::)(_?[lL]ist|List)', base) and eng.as_ptr(a[0]) and eng.as_ptr(a[0])[0] == self.this:
            if last == 'clear':
                self.setc(eng, st, a[0], EMPTY)
                return [Outcome('ret', None, st)]
            if last == 'operator=':
                self.setc(eng, st, a[0], self.content(eng, st, a[1], ins))
                return [Outcome('ret', a[0], st)]
            if last == 'swap':
                x, y = self.content(eng, st, a[0], ins), self.content(eng, st, a[1], ins)
                self.setc(eng, st, a[0], y)
                self.setc(eng, st, a[1], x)
                return [Outcome('ret', None, st)]
        if sname in (NS + 'Semaphore::wait', NS + 'Semaphore::timedWait'):
            fresh(eng, st, ins)
            bad = st.copy()
            bad.mon = (False,)
            return [Outcome('ret', I(1), st), Outcome('ret', I(0), bad)]
        return None


def entry_layout(p):
    c = p.cls(ENTRY)
    if c is None:
        raise Broken('%s is unknown' % ENTRY)
    off = {m[0].rsplit('::', 1)[-1]: m[1] for m in p.flat_members(c)}
    for n in ('type', 'text', 'suffix'):
        if n not in off:
            raise Broken('%s has no member %s' % (ENTRY, n))
    return off


def text_format(ctx, p, msg):
    ctx.rule('format', 'every field specifier of a log format is rendered as the field it stands for, in the order of the format')
    this = ('this', STREAM)
    fs = [f for f in p.iter_funcs() if p.sname(f.name) == STREAM + '::pushImpl']
    render = one([f for f in fs if 'LogMessage' in p.param_list(f.name)[0][0]], 'LogOutputStream::pushImpl(message)')[0]
    parser = one([f for f in p.iter_funcs() if p.sname(f.name) == STREAM + '::parseLogFormat'], 'LogOutputStream::parseLogFormat()')[0]
    change = one([f for f in p.iter_funcs() if p.sname(f.name) == STREAM + '::changeLogFormat'], 'LogOutputStream::changeLogFormat()')[0]
    off = entry_layout(p)
    # -- parsing: specifier -> kind of entry
    pr = ParseRule(p, msg, this, off, parser)
    e = pr.eng = Engine(p, pr)
    args = e.default_args(parser, this)
    pr.first = ('s', ('first character',))
    q = e.as_ptr(args[1])
    for o in e.explore(parser, args, (False, False), mem={MON: {}, q[0]: {q[1]: (pr.first, 1)}}):
        if o.kind == 'ret' and o.st.mon[0] != 'done':
            k, end = pr.char(e, o.st)
            if end is not True:
                ctx.violation('format', p.fwhere(parser), p.sname(parser.name), 'stops although the format may not be at its end', [], key='stops')
    ctx.take(e, 'format')
    kinds = {}
    for k in list(LETTERS) + ['text']:
        es = pr.found.get(k, {})
        if not es:
            ctx.violation('format', p.fwhere(parser), p.sname(parser.name), 'no entry is added for %s' % ('~' + k if k != 'text' else 'text'), [], key='none:' + k)
        for (ty, suffix), where in sorted(es.items(), key=repr):
            kinds.setdefault(k, set()).add(ty)
            if suffix[0] != '?' and suffix not in BRACKETS:
                ctx.violation('format', where, p.sname(parser.name), 'the bracket "%s" in front of the object name is closed with "%s"' % suffix, [], key='bracket:%s%s' % suffix)
            ctx.ok('format', '%s: %s is entry kind %d' % (where, '~' + k if k != 'text' else 'text', ty))
        if k == 'O' and not set(BRACKETS) <= set(s for ty, s in es):
            ctx.violation('format', p.fwhere(parser), p.sname(parser.name), 'not every bracket in front of the object name is closed', [], key='brackets')
        if len(kinds.get(k, ())) > 1:
            ctx.violation('format', p.fwhere(parser), p.sname(parser.name), '~%s is sometimes another kind of entry' % k, [], key='several:' + k)
    for a in kinds:
        for b in kinds:
            if a < b and kinds[a] & kinds[b]:
                ctx.violation('format', p.fwhere(parser), p.sname(parser.name), '~%s and ~%s are the same kind of entry' % (a, b), [], key='same:%s%s' % (a, b))
    # -- rendering: kind of entry -> text
    off['values'] = sorted(set(x for k in kinds.values() for x in k))
    rr = FormatRule(p, msg, this, off)
    e = rr.eng = Engine(p, rr)
    args = e.default_args(render, this)
    args[1] = ('p', msg.obj, 0)
    for o in e.explore(render, args, ((), (0, False)), mem={msg.obj: msg.cells()}):
        if o.kind == 'ret':
            n, failed = o.st.mon[1]
            if n != 1 and not failed:
                ctx.violation('format', p.fwhere(render), p.sname(render.name), 'the formatted line is handed over %d times' % n, [], key='line:%d' % n)
    ctx.take(e, 'format')
    where0 = p.fwhere(render)
    for key, where in rr.found.get(None, {}).items():
        if key[0]:
            ctx.violation('format', where0, p.sname(render.name), 'writes %s whatever the kind of the entry is' % ', '.join(key[0]), [], key='any')
    for k in sorted(kinds):
        want = 'text' if k == 'text' else LETTERS[k]
        for ty in sorted(kinds[k]):
            got = rr.found.get(ty, {})
            if not got:
                ctx.violation('format', where0, p.sname(render.name), '~%s (%s) is not rendered' % (k, want), [], key='missing:' + k)
            full = False
            for (tok, empty), where in sorted(got.items(), key=repr):
                tok, empty = list(tok), dict(empty)
                if want in OPTIONAL:
                    exp = ['text', want] + (['suffix'] if want == 'object_name' else [])
                    if empty[want] is True:
                        ok = tok == []
                    else:
                        ok = tok == exp and (empty[want] is False)
                        full |= ok
                    exp = 'nothing' if empty[want] else ' '.join(exp)
                elif want == 'milliseconds':
                    ok = tok in (['0', want], [want])
                    full |= tok == ['0', want]
                    exp = 'leading zeros and milliseconds'
                else:
                    exp = want
                    ok = full = tok == [want]
                if not ok:
                    ctx.violation('format', where0, p.sname(render.name), '%s is rendered as "%s" instead of "%s"' % ('~' + k if k != 'text' else 'text', ' '.join(tok), exp), [], key='render:%s' % k)
            if got and not full:
                ctx.violation('format', where0, p.sname(render.name), '~%s is never rendered with all its parts' % k, [], key='parts:' + k)
            ctx.ok('format', '%s: %s is rendered as %s' % (where0, '~' + k if k != 'text' else 'text', want))
    # -- the new format replaces the old one
    lists = [m for m in p.flat_members(p.cls(STREAM)) if 'List' in m[3] and 'LogFormatEntry' in m[3]]
    if len(lists) not in (1, 2):
        raise Broken('%s has %d lists of format entries' % (STREAM, len(lists)))
    used, target = rr.used, pr.target
    if used is None or target is None:
        raise Broken('the lists of format entries were not found')
    lr = ListRule(p, msg, this, parser)
    lr.target = target
    e = lr.eng = Engine(p, lr)
    args = e.default_args(change, this)
    for o in e.explore(change, args, (True,)):
        if o.kind != 'ret' or not o.st.mon[0]:
            continue
        v = e.mload(o.st, ('p', this, used), 8, None)
        c = e.mload(o.st, args[1], 1, None)
        if is_char(e, o.st, c, 0) is True:
            continue
        if v != ('s', ('parsed', e.norm(o.st, args[1]))):
            ctx.violation('format', p.fwhere(change), p.sname(change.name), 'the entries which are rendered are not exactly those of the new format', [], key='replace')
        ctx.ok('format', '%s: the new format replaces the old one' % p.fwhere(change))
    ctx.take(e, 'format')
    ctx.need('format', 20)


# ---------------------------------------------------------------------- UDP
class UdpRule(MessageRule):
    """st.mon = (number of datagrams,)"""
    cls = NS + 'UdpLogOutput'
    follow = (cls,)

    def __init__(self, msg, this):
        MessageRule.__init__(self, msg, this)
        self.sent = []

    def chars(self, eng, st, v):
        r = MessageRule.chars(self, eng, st, v)
        return r

    def special(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname in ('write', 'send', 'sendto', '::write'):
            v = self.chars(eng, st, a[1])
            if strip(eng.norm(st, a[2])) != ('s', ('len', v)):
                eng.report(ins, 'does not send the whole text')
            self.sent.append((v, eng.p.where(ins)))
            st.mon = (min(st.mon[0] + 1, 2),)
            fresh(eng, st, ins)
            return [Outcome('ret', result(eng, ins), st)]
        base = re.sub(r'<.*>', '', sname)
        if base.startswith('boost::') and re.search(r'basic_regex::(basic_regex|operator=|assign)$', base) and len(a) >= 2:
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            self.setc(eng, st, a[0], self.chars(eng, st, a[1]))
            return [Outcome('ret', None if ins.ty == ('void',) else a[0], st)]
        if base == 'boost::regex_replace' and len(a) >= 4:
            s, rx = self.content(eng, st, a[1], ins), self.content(eng, st, a[2], ins)
            ty = self.types(eng)
            f = self.chars(eng, st, a[3]) if cstring(eng.p, a[3]) is not None else self.content(eng, st, a[3], ins)
            self.setc(eng, st, a[0], replaced(s, is_lit(rx), perl(is_lit(f), is_lit(rx))))
            return [Outcome('ret', None, st)]
        m = re.match(r'boost::(?:algorithm::)?replace_all(_copy)?$', base)
        if m:
            k = 1 if m.group(1) else 0
            s = self.content(eng, st, a[k], ins)
            f, t = (is_lit(self.text_or_string(eng, st, v, ins)) for v in a[k + 1:k + 3])
            self.setc(eng, st, a[0], replaced(s, f, t))
            return [Outcome('ret', None, st)]
        if re.search(r'::(basic_regex|match_results|sub_match)::~?\w+$', base):
            return quiet(eng, st, ins)
        return None

    def text_or_string(self, eng, st, v, ins):
        t = cstring(eng.p, v)
        return lit(t) if t is not None else self.content(eng, st, v, ins)


def perl(f, rx):
    """what a format string of boost::regex_replace stands for when the expression is one plain character"""
    if f is None or rx is None:
        return None
    out, i = '', 0
    while i < len(f):
        c = f[i]
        if c == '\\' and i + 1 < len(f):
            i += 1
            if f[i].isdigit() or f[i] in 'afnrtvxceluLUE':
                return None
            out += f[i]
        elif c == '$' and i + 1 < len(f):
            i += 1
            if f[i] == '&':
                out += rx
            elif f[i] == '$':
                out += '$'
            else:
                return None
        elif c in '()?:' :
            out += c
        else:
            out += c
        i += 1
    return out


def replaced(s, what, by):
    if what == by:
        return s
    return ('s', ('replaced', s, what, by))


UDP = [('text', 'system name'), ('text', 'iso'), ('number', 'nsec'), ('text', 'level'), ('text', 'log_stream'), ('text', 'filename'), ('number', 'line'),
       ('text', 'class_name'), ('text', 'object_name'), ('text', 'function_name'), ('text', 'message_text')]
FIXED = ('iso', 'level')                # texts of the library, which contain no quotation mark


def udp(ctx, p, msg):
    ctx.rule('udp', "a datagram consists of the values for one row of the server's table; texts are quoted and quotation marks in them are doubled")
    cls = UdpRule.cls
    this = ('this', cls)
    f = one([f for f in p.iter_funcs() if p.sname(f.name) == cls + '::pushImpl' and 'LogMessage' in p.param_list(f.name)[0][0]], 'UdpLogOutput::pushImpl()')[0]
    strings = [m[1] for m in p.flat_members(p.cls(cls)) if m[5] is p.cls(cls) and 'basic_string' in m[3]]
    r = UdpRule(msg, this)
    e = r.eng = Engine(p, r)
    args = e.default_args(f, this)
    args[1] = ('p', msg.obj, 0)
    mem = {msg.obj: msg.cells(), this: {}}
    for s in strings:
        mem[this][s] = (field('system name'), 8)
    many = set()
    for o in e.explore(f, args, (0,), mem=mem):
        if o.kind == 'ret':
            many.add(o.st.mon[0])
    ctx.take(e, 'udp')
    name = p.sname(f.name)
    if many - {0, 1}:
        ctx.violation('udp', p.fwhere(f), name, 'sends more than one datagram for a message', [], key='twice')
    if not r.sent:
        ctx.violation('udp', p.fwhere(f), name, 'sends nothing', [], key='nothing')
    for v, where in sorted(set(r.sent), key=repr):
        for msgtext in row(parts(v)):
            ctx.violation('udp', where, name, msgtext, [], key='udp:' + msgtext)
        for k in UDP:
            ctx.ok('udp', '%s: %s' % (where, k[1]))
    ctx.need('udp', len(UDP))


def row(ps):
    """checks the values of one row"""
    vals, cur, quoted = [], [], False
    for x in ps:
        t = is_lit(x)
        if t is None:
            cur.append((quoted, x))
            continue
        for c in t:
            if c == "'":
                quoted = not quoted
                cur.append("'")
            elif c == ',' and not quoted:
                vals.append(cur)
                cur = []
            elif c == ' ' and not quoted:
                pass
            else:
                cur.append(c)
    vals.append(cur)
    out = []
    if quoted:
        out.append('a quotation mark is not closed')
    if len(vals) != len(UDP):
        return out + ['sends %d values instead of %d' % (len(vals), len(UDP))]
    for n, (cur, (kind, name)) in enumerate(zip(vals, UDP)):
        ex = [x for x in cur if isinstance(x, tuple)]
        rest = ''.join(x for x in cur if not isinstance(x, tuple))
        if len(ex) != 1 or rest != ("''" if kind == 'text' else ''):
            out.append('value %d (%s) is not %s' % (n + 1, name, 'a quoted text' if kind == 'text' else 'a number'))
            continue
        q, x = ex[0]
        esc = False
        if x[0] == 's' and x[1][0] == 'replaced':
            if x[1][2:] != ("'", "''"):
                out.append('value %d (%s): "%s" is replaced by "%s", but a quotation mark has to be doubled' % (n + 1, name, x[1][2], x[1][3]))
                continue
            x, esc = x[1][1], True
        if x[0] == 's' and x[1][0] == 'num':
            x = strip(x[1][1])
        ok = is_description(x) if name == 'level' else x == field(name)
        if not ok:
            out.append('value %d is not the %s' % (n + 1, name))
        elif kind == 'text' and not esc and name not in FIXED:
            out.append('value %d (%s): quotation marks in the text are not doubled' % (n + 1, name))
    return out


# ---------------------------------------------------------------------- database
TODAY = ('s', 'today')
LASTDAY = ('s', 'last day')
DAY = 86400


class SqlRule(MessageRule):
    """st.mon = (bound parameters, executions, reset since the last one, database: 'open', 'closed' or 'tried' to open again, renamed)"""
    cls = NS + 'SQLiteLogOutput'
    DBCLS = NS + 'SQLiteLogDb'
    follow = (cls, DBCLS)

    def __init__(self, p, msg, this):
        MessageRule.__init__(self, msg, this)
        self.db = ('h', 0, -1)
        self.done = []
        self.sql = {}                       # texts of statements
        self.consts = {}
        ms = [m for m in p.flat_members(p.cls(self.DBCLS))]

        def only(role, test):
            x = [m for m in ms if test(m[3])]
            if len(x) != 1:
                raise Broken('%d members of %s could be the %s' % (len(x), self.DBCLS, role))
            return x[0][1], x[0][2]
        self.handle = only('database', lambda t: t == 'sqlite3*')
        self.stmt = only('statement', lambda t: t == 'sqlite3_stmt*')
        self.name = only('file name', lambda t: 'basic_string' in t)
        self.day = only('day of the last rotation', lambda t: t in ('long', 'int64_t'))
        self.rotate = only('rotation flag', lambda t: t == 'bool')

    def rename(self, eng, mon, f):
        return (tuple((n, k, f(v), d) for n, k, v, d in mon[0]),) + mon[1:]

    def mon_values(self, mon):
        return [v for n, k, v, d in mon[0]] + [LASTDAY, TODAY, streq(field('file name'), EMPTY)]

    def part(self, eng, st):
        return (tuple((n, k) for n, k, v, d in st.mon[0]), st.mon[1:], truth_of(eng, st, self.get(eng, st, self.rotate)),
                eng.decide_icmp(st, 'eq', LASTDAY, TODAY, 64), is_empty_name(eng, st))

    def class_of(self, obj):
        return self.DBCLS if obj == self.db else MessageRule.class_of(self, obj)

    def keep(self, obj, off):
        return obj == self.db or obj in self.consts or MessageRule.keep(self, obj, off)

    def preset(self, eng, opened):
        m = {self.db: {self.handle[0]: (('s', ('database',)) if opened else NULL, 8), self.stmt[0]: (('s', ('prepared',)) if opened else NULL, 8),
                       self.name[0]: (field('file name'), 8), self.day[0]: (LASTDAY, 8)}}
        m.update(self.consts)
        return m

    def set(self, st, **kw):
        names = ('bound', 'runs', 'clean', 'db', 'moved')
        st.mon = tuple(kw.get(n, v) for n, v in zip(names, st.mon))

    def is_insert(self, eng, st, v):
        v = eng.norm(st, v)
        if v == ('s', ('prepared',)):
            return True
        return v[0] == 's' and v[1][0] == 'statement' and 'insert' in (is_lit(v[1][1]) or '').lower()

    def get(self, eng, st, slot):
        return eng.mload(st, ('p', self.db, slot[0]), slot[1], None)

    def special(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        last = sname.rsplit('::', 1)[-1]
        if sname in ('icl_core::TimeBase::days', 'icl_core::TimeStamp::days'):
            return [Outcome('ret', TODAY, st)]
        if last == 'strfTime' and len(a) == 4 and eng.as_ptr(a[1]) and eng.as_ptr(a[1])[0][0] == 'a':
            size, fmt = a[2], is_lit(self.chars(eng, st, a[3])) or ''
            if not (re.search('%[YyFs]', fmt) and re.search('%[mbjFs]', fmt) and re.search('%[djeFs]', fmt)):
                eng.report(ins, 'the text "%s" does not tell the days apart' % fmt)
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            eng.havoc_obj(st, eng.as_ptr(a[1])[0], ins)
            eng.mstore(st, a[1], ('s', ('localtime', 'day')), 8)
            return [Outcome('ret', None, st)]
        if re.search(r'(^|::)rename$', sname) and len(a) >= 2:
            v, w = self.chars(eng, st, a[0]), parts(self.chars(eng, st, a[1]))
            if v != field('file name') or w[0] != v or len(w) < 2:
                eng.report(ins, 'the database file is not the one which is renamed')
            elif ('s', ('localtime', 'day')) not in w:
                eng.report(ins, 'the name of the old database does not contain the day')
            if st.mon[3] != 'closed':
                eng.report(ins, 'renames the database file although the database is open')
            if st.mon[4]:
                eng.report(ins, 'renames the database file a second time')
            if truth_of(eng, st, self.get(eng, st, self.rotate)) is not True or eng.decide_icmp(st, 'eq', LASTDAY, TODAY, 64) is not False:
                eng.report(ins, 'renames the database file although no rotation is due')
            self.set(st, moved=True)
            return quiet(eng, st, ins)
        if re.search(r'(^|::)(unlink|remove)$', sname) and 'basic_string' not in sname and a:
            eng.report(ins, 'removes a file')
        if not sname.startswith('sqlite3_'):
            return None
        fresh(eng, st, ins)
        a = again(eng, st, ins)
        bound, runs, clean, db, moved = st.mon
        if sname.startswith('sqlite3_bind_'):
            kind = sname[13:]
            if not self.is_insert(eng, st, a[0]):
                eng.report(ins, 'binds a parameter of something which is not the insert statement')
            if a[1][0] != 'i':
                eng.report(ins, 'binds a parameter whose number is not known')
                return [Outcome('ret', I(0), st)]
            if not clean:
                eng.report(ins, 'binds a parameter although the statement was not reset after its last execution')
            v = self.chars(eng, st, a[2]) if kind == 'text' else eng.norm(st, a[2]) if len(a) > 2 else None
            if kind == 'text' and a[3][0] == 'i' and a[3][1] >= 0:
                eng.report(ins, 'binds only the first %d characters' % a[3][1])
            self.set(st, bound=tuple(sorted([b for b in bound if b[0] != a[1][1]] + [(a[1][1], kind, v, 0)], key=repr)))
            # (a failure is reported, but the line is written nevertheless)
            return [Outcome('ret', result(eng, ins), st)]
        if sname == 'sqlite3_step':
            if self.is_insert(eng, st, a[0]):
                if not clean:
                    eng.report(ins, 'executes the statement although it was not reset')
                rot = truth_of(eng, st, self.get(eng, st, self.rotate))
                day = self.get(eng, st, self.day)
                if rot is not False and day != TODAY and eng.decide_icmp(st, 'eq', day, TODAY, 64) is not True:
                    eng.report(ins, 'writes the line to the database of an earlier day')
                if (bound, eng.p.where(ins)) not in self.done:
                    self.done.append((bound, eng.p.where(ins)))
                self.set(st, bound=(), runs=min(runs + 1, 2), clean=False)
        elif sname == 'sqlite3_reset':
            self.set(st, clean=True)
        elif sname.startswith('sqlite3_prepare') and len(a) >= 4:
            text = self.chars(eng, st, a[1])
            bad = st.copy()
            v = ('s', ('statement', text))
            eng.assume_icmp(st, 'ne', v, NULL, 64)
            eng.mstore(st, a[3], v, 8)
            eng.mstore(bad, a[3], NULL, 8)
            eng.assume_icmp(bad, 'ne', result(eng, ins), I(0), 32)
            self.texts.add(is_lit(text))
            if 'insert' in (is_lit(text) or '').lower():
                self.set(st, clean=True)
            return [Outcome('ret', I(0), st), Outcome('ret', result(eng, ins), bad)]
        elif sname in ('sqlite3_open', 'sqlite3_open_v2'):
            if self.chars(eng, st, a[0]) != field('file name'):
                eng.report(ins, 'opens a database which is not the configured file')
            if db == 'open':
                eng.report(ins, 'opens the database although it is open')
            bad = st.copy()
            h = ('s', ('database',))
            eng.assume_icmp(st, 'ne', h, NULL, 64)
            eng.mstore(st, a[1], h, 8)
            eng.mstore(bad, a[1], NULL, 8)
            eng.assume_icmp(bad, 'ne', result(eng, ins), I(0), 32)
            self.set(st, db='open')
            self.set(bad, db='tried')
            return [Outcome('ret', I(0), st), Outcome('ret', result(eng, ins), bad)]
        elif sname.startswith('sqlite3_close'):
            if eng.norm(st, a[0]) != NULL:
                self.set(st, db='tried' if moved else 'closed')
        elif sname == 'sqlite3_exec':
            self.texts.add(is_lit(self.chars(eng, st, a[1])))
        return [Outcome('ret', None if ins.ty == ('void',) else result(eng, ins), st)]


def statics(p, rule, prefix):
    """the values of static strings, which their initialisers give them"""
    out = {}
    for f in p.iter_funcs():
        if not re.match(r'__cxx_global_var_init|_GLOBAL__sub_I', f.name) or not any(
                prefix in str(i.x.get('args')) for b in f.blocks.values() for i in b if i.op in ('call', 'invoke')):
            continue
        e = rule.eng = Engine(p, rule)
        for o in e.explore(f, e.default_args(f), rule.start):
            for obj, d in o.st.mem.items():
                if obj[0] == 'g' and isinstance(d.get(0), tuple) and is_lit(d[0][0]) is not None:
                    out[obj] = {0: d[0]}
    return out


COLUMNS = {'timestamp': 'iso', 'log_stream': 'log_stream', 'log_level': 'level', 'filename': 'filename', 'line': 'line', 'class_name': 'class_name',
           'object_name': 'object_name', 'function_name': 'function_name', 'message': 'message_text'}


def insert_columns(text):
    """[column of parameter 1, ...] of an insert statement"""
    m = re.match(r'\s*insert\s+into\s+(\w+)\s*\(([^)]*)\)\s*values\s*\(([^)]*)\)\s*;?\s*$', text, re.I | re.S)
    if not m:
        return None
    cols = [c.strip() for c in m.group(2).split(',')]
    vals = [c.strip() for c in m.group(3).split(',')]
    if len(cols) != len(vals):
        return None
    out, names = {}, []
    for c, v in zip(cols, vals):
        if v == '?':
            n = len(names) + 1
            names.append(None)
        elif re.match(r'\?\d+$', v):
            n = int(v[1:])
        elif re.match(r'[:@$]\w+$', v):
            if v not in names:
                names.append(v)
            n = names.index(v) + 1
        else:
            continue                        # a constant
        if n in out:
            return None
        out[n] = c
    return m.group(1), out


def run_sql(ctx, p, msg, rule):
    """explores writing one message to the database; -> [(bound parameters, where)], texts of the statements"""
    cls = SqlRule.cls
    this = ('this', cls)
    f = one([f for f in p.iter_funcs() if p.sname(f.name) == cls + '::pushImpl' and 'LogMessage' in p.param_list(f.name)[0][0]], 'SQLiteLogOutput::pushImpl()')[0]
    dbp = [m for m in p.flat_members(p.cls(cls)) if 'SQLiteLogDb' in m[3]]
    if len(dbp) != 1:
        raise Broken('the database of %s was not found' % cls)
    done, texts = [], set()
    ends = []
    for opened in (True, False):
        r = SqlRule(p, msg, this)
        r.texts = texts
        r.start = ((), 0, True, 'closed', False)
        r.consts = statics(p, r, SqlRule.DBCLS.rsplit('::', 1)[-1])
        e = r.eng = Engine(p, r)
        args = e.default_args(f, this)
        args[1] = ('p', msg.obj, 0)
        mem = {msg.obj: msg.cells(), this: {dbp[0][1]: (('p', r.db, 0), 8)}}
        mem.update(r.preset(e, opened))
        s = State()
        for v in ('database', 'prepared'):
            e.assume_icmp(s, 'ne', ('s', (v,)), NULL, 64)
        for o in e.explore(f, args, ((), 0, True, 'open' if opened else 'closed', False), mem=mem, facts=s.facts):
            if o.kind == 'ret':
                ends.append((opened, o.st.mon, e, o.st, r))
        ctx.take(e, rule)
        done += r.done
    return f, done, texts, ends


def database(ctx, p, msg):
    ctx.rule('database', 'each column of the row which is inserted gets the field of the message which it is named after')
    f, done, texts, ends = run_sql(ctx, p, msg, 'database')
    name = p.sname(f.name)
    inserts = [t for t in texts if t and re.match(r'\s*insert', t, re.I)]
    if not done:
        ctx.violation('database', p.fwhere(f), name, 'no statement is executed', [], key='none')
    created = {}
    for t in texts:
        m = re.match(r'\s*create\s+table\s+(?:if\s+not\s+exists\s+)?(\w+)\s*\((.*)\)', t or '', re.I | re.S)
        if m:
            created[m.group(1)] = [c.split()[0] for c in m.group(2).split(',')]
    if len(inserts) != 1:
        raise Broken('%d insert statements were found' % len(inserts))
    cols = insert_columns(inserts[0])
    if cols is None:
        ctx.violation('database', p.fwhere(f), name, 'the insert statement does not have one value for each column', [], key='sql')
    else:
        table, cols = cols
        if created:
            for c in cols.values():
                if c not in created.get(table, ()):
                    ctx.violation('database', p.fwhere(f), name, 'the table "%s" which is created has no column "%s"' % (table, c), [], key='create:' + c)
        for c in COLUMNS:
            if c not in cols.values():
                ctx.violation('database', p.fwhere(f), name, 'the column "%s" is not written' % c, [], key='column:' + c)
        for bound, where in done:
            got = {}
            for n, kind, v, d in bound:
                if n not in cols:
                    ctx.violation('database', where, name, 'the statement has no parameter %d' % n, [], key='number:%d' % n)
                    continue
                c = cols[n]
                got[c] = v
                want = COLUMNS.get(c)
                if want is None:
                    continue
                v = strip(v)
                ok = is_description(v) if want == 'level' else v == field(want)
                if want == 'line' and not kind.startswith('int') or want != 'line' and kind != 'text':
                    ok = False
                if not ok:
                    ctx.violation('database', where, name, 'the column "%s" does not get the %s of the message' % (c, want), [], key='value:' + c)
                ctx.ok('database', '%s: column %s' % (where, c))
            for c in cols.values():
                if c not in got:
                    ctx.violation('database', where, name, 'the column "%s" gets no value' % c, [], key='unbound:' + c)
    for opened, mon, e, st, r in ends:
        if mon[3] == 'open' and mon[1] != 1 and r.get(e, st, r.stmt) != NULL:
            ctx.violation('database', p.fwhere(f), name, 'the row is inserted %d times' % mon[1], [], key='runs:%d' % mon[1])
        if mon[1] and not mon[2]:
            ctx.violation('database', p.fwhere(f), name, 'the statement is not reset after its execution, so the next line cannot be written', [], key='reset')
    ctx.need('database', len(COLUMNS))


def sql_rotation(ctx, p):
    """L05: the database of the previous day"""
    msg = Message(p)
    ctx.rule('database', 'on a new day the database is closed, its file renamed and a new one opened before the line is written; the statement is reset for the next line')
    f, done, texts, ends = run_sql(ctx, p, msg, 'database')
    name = p.sname(f.name)
    bad = lambda m: ctx.violation('database', p.fwhere(f), name, m, [], key=m)
    for opened, mon, e, st, r in ends:
        bound, runs, clean, db, moved = mon
        rot = truth_of(e, st, r.get(e, st, r.rotate))
        day = r.get(e, st, r.day)
        due = rot is True and e.decide_icmp(st, 'eq', LASTDAY, TODAY, 64) is False
        if due and not moved:
            bad('the database is not renamed on a new day')
        if moved and db == 'closed' and not is_empty_name(e, st):
            bad('the database is not opened again after it was renamed')
        if moved and day != TODAY and e.decide_icmp(st, 'eq', day, TODAY, 64) is not True:
            bad('the day of the rotation is not remembered')
        if not moved and day != LASTDAY:
            bad('the day of the database is changed although it is not renamed')
        if not moved and opened and db != 'open':
            bad('the database is closed although no rotation is due')
        if db == 'open' and runs != 1 and r.get(e, st, r.stmt) != NULL:
            bad('the line is inserted %d times although the database is open' % runs)
        if runs and not clean:
            bad('the statement is not reset after its execution, so the next line cannot be written')
        ctx.ok('database', '%s: %s, %s' % (p.fwhere(f), 'open' if opened else 'not open', 'rotated' if moved else 'not rotated'))
    ctx.need('database', 3)


def is_empty_name(e, st):
    return e.decide(st, streq(field('file name'), EMPTY)) is True


# ---------------------------------------------------------------------- standard output
class StdRule(MessageRule):
    """st.mon = (how often the line was written,)"""
    target = None

    def special(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        last = sname.rsplit('::', 1)[-1]
        if last in ('operator<<', 'write', 'put', 'flush', 'fputs', 'fwrite', 'puts', 'printf') or 'ostream' in sname:
            out = [v for v in a if eng.as_ptr(v) and eng.as_ptr(v)[0][0] == 'g']
            v = None
            if last == 'operator<<' and len(a) == 2:
                ty = (self.types(eng) or [''])[-1]
                if '(*)' in ty:
                    return [Outcome('ret', a[0], st)]
                v = self.arg(eng, st, ins, ty, a[1])
            elif last == 'write' and len(a) == 3:
                v = self.chars(eng, st, a[1])
                if strip(eng.norm(st, a[2])) != ('s', ('len', v)):
                    eng.report(ins, 'does not write the whole line')
            elif last == 'flush':
                return [Outcome('ret', a[0], st)]
            if v != field('line of text'):
                eng.report(ins, 'writes something which is not the line')
            elif not mentions_global(a[0], self.target):
                eng.report(ins, 'writes the line to another stream')
            st.mon = (min(st.mon[0] + 1, 2),)
            return [Outcome('ret', a[0] if ins.ty != ('void',) else None, st)]
        return None


def mentions_global(v, names):
    return isinstance(v, str) and v in names or isinstance(v, tuple) and any(mentions_global(x, names) for x in v)


def standard(ctx, p, msg):
    ctx.rule('standard', 'the line is written once to the standard output or the standard error')
    for c, target in (('StdLogOutput', ('_ZSt4cout', 'stdout')), ('StdErrorLogOutput', ('_ZSt4cerr', '_ZSt4clog', 'stderr'))):
        cls = NS + c
        f = one([f for f in p.iter_funcs() if p.sname(f.name) == cls + '::pushImpl'], cls + '::pushImpl()')[0]
        this = ('this', cls)
        r = StdRule(msg, this)
        r.cls, r.follow, r.target = cls, (cls,), target
        e = r.eng = Engine(p, r)
        args = e.default_args(f, this)
        obj = ('o', ('s', 'text'))
        args[1] = ('p', obj, 0)
        for o in e.explore(f, args, (0,), mem={obj: {0: (field('line of text'), 8)}}):
            if o.kind == 'ret' and o.st.mon[0] != 1:
                ctx.violation('standard', p.fwhere(f), p.sname(f.name), 'the line is written %d times' % o.st.mon[0], [], key='times')
        ctx.take(e, 'standard')
        ctx.ok('standard', '%s: %s' % (p.fwhere(f), p.sname(f.name)))
    ctx.need('standard', 2)


def l03(ctx):
    p = ctx.load(['icl_core', 'icl_core_logging'])
    ctx.assumptions += ['the standard streams, boost and SQLite do what their documentation says']
    msg = Message(p)
    text_format(ctx, p, msg)
    udp(ctx, p, msg)
    database(ctx, p, msg)
    standard(ctx, p, msg)
