"""The logging framework.  L01: log statements.  L02: delivery of messages."""
import os
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from ..core import Broken, one
from .common import *
from .containers import IterRule
from .timing import cstring

L = 'icl_core::logging::'
LEVELS = ['Trace', 'Debug', 'Info', 'Warning', 'Error', 'Mute']
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def fresh(eng, st, ins):
    if ins.idx in st.defd:
        eng.redefine(st, ins.idx)
    st.defd = st.defd | {ins.idx}


class StatementRule(Rule):
    """mon = events"""
    recursion = 1

    def rename(self, eng, mon, f):
        return tuple(tuple(mapval(f, x) if isinstance(x, tuple) else x for x in e) for e in mon)

    def mon_values(self, mon):
        return [x for e in mon for x in e if isinstance(x, tuple)]

    def ev(self, st, *e):
        st.mon = st.mon + (e,)

    def call(self, eng, st, ins, sname, fn, args):
        base = re.sub(r'<.*>', '', sname)
        short = base.rsplit('::', 1)[-1]
        vals = [a[1] for a in args]

        def ret(tag):
            fresh(eng, st, ins)
            return ('s', ('r', eng.cur_path, ins.idx, tag))
        if short == 'vf_probe':
            self.ev(st, 'probe')
            return [Outcome('ret', ret('probe'), st)]
        if short == 'vf_object':
            self.ev(st, 'object')
            return [Outcome('ret', ret('object'), st)]
        if short == 'Debug' and 'Debugged' in base:
            return [Outcome('ret', ret('debug'), st)]
        if short == 'instance' and not base.startswith(L):
            return [Outcome('ret', ret('stream'), st)]
        if base.startswith(L + 'LogStream::'):
            vals = eng.reeval(ins.fn, ins, st) if ins.idx in st.defd else args
            if short == 'isActive':
                return [Outcome('ret', ret('active'), st)]
            if short == 'getLogLevel':
                return [Outcome('ret', ret('level'), st)]
            if short == 'threadStream':
                v = ret('ts')
                self.ev(st, 'open', args[1][1])
                return [Outcome('ret', v, st)]
        if base.startswith(L + 'ThreadStream::set') or base == L + 'ThreadStream::printf':
            self.ev(st, short, *vals)
            if short == 'printf':
                self.ev(st, 'flush', vals[0])
            return [Outcome('ret', None, st)]
        if base in (L + 'ThreadStream::flush', L + 'ThreadStream::write'):
            self.ev(st, short, *vals)
            return [Outcome('ret', None, st)]
        if base == L + 'operator<<' and len(args) > 1 and not (fn is not None and fn.linkage == 'internal'):
            self.ev(st, 'write', *vals)
            return [Outcome('ret', vals[0], st)]
        return None


def statement(ctx, p, f, family, level, suffix, fmt, release):
    where, full = p.fwhere(f), p.fullname(f.name)
    name = full.split('(')[0].replace('vf_m_', '').replace('vf_n_', '').replace('d_', '', 1).replace('::run', '')
    rule = 'statements'
    r = StatementRule()
    e = Engine(p, r)
    outs = [o for o in e.explore(f, e.default_args(f), ()) if o.kind == 'ret']
    off = release and (level in ('DEBUG', 'TRACE') or family == 'LLOGGING')

    def bad(m):
        ctx.violation(rule, where, name, m)
    if not outs:
        bad('never returns')
    lv = LEVELS.index(level.capitalize())
    done = 0
    for o in outs:
        ev = o.st.mon
        kinds = [x[0] for x in ev]
        if off:
            if ev:
                bad('a disabled statement is not removed')
            continue

        def truth(tag, cond):
            """facts about the value of isActive()/Debug()/getLogLevel() on this path"""
            out = []
            for k, v in o.st.facts.items():
                if repr(k).count("'%s'" % tag):
                    out.append((k, v))
            return out
        ok_active = [v for k, v in truth('active', None) if k[0] == 'eq']
        ok_debug = [v for k, v in truth('debug', None) if k[0] == 'eq']
        lo = None
        for k, v in truth('level', None):
            if k[0] in ('ivs', 'ivu'):
                a, b = v
                cur = ('pass' if b <= lv else 'block' if a > lv else '?')
                lo = cur if lo in (None, '?') else lo
            elif k[0] == 'eq':
                lo = 'pass' if v <= lv else 'block'
        passed = ok_active and all(ok_active) and lo == 'pass' and (family != 'MLOGGING' or ok_debug and all(ok_debug))
        if not passed:
            blocked = (ok_active and not any(ok_active)) or lo == 'block' or (ok_debug and not any(ok_debug))
            if not blocked:
                bad('the level of the log stream does not decide exactly whether a statement of level %s is executed' % level)
            elif ev:
                bad('a statement which is disabled evaluates its arguments or writes to the stream (%s)' % ', '.join(sorted(set(kinds))))
            continue
        done += 1
        if kinds.count('probe') != 1 or kinds.count('object') != (1 if suffix == '_CO' else 0):
            bad('the arguments of an enabled statement are not evaluated exactly once')
            continue
        if kinds.count('open') != 1:
            bad('the stream of the thread is not obtained exactly once')
            continue
        opened = [x for x in ev if x[0] == 'open'][0]
        if opened[1] != I(lv):
            bad('the stream of another level is used')
        rest = [x for x in ev if x[0] not in ('probe', 'object', 'open')]
        if any(not isinstance(x[1], tuple) or "'ts'" not in repr(x[1]) for x in rest):
            bad('writes to another stream than the one of the thread')
        sets = {}
        for x in rest:
            if x[0].startswith('set'):
                sets[x[0]] = x[2]
        text = lambda n: cstring(p, sets[n]) if n in sets else None
        first = min([i for i, x in enumerate(rest) if x[0] in ('write', 'printf')] or [0])
        if any(x[0].startswith('set') for x in rest[first:]):
            bad('attributes of the message are set after its text')
        if sets.get('setLineLogLevel') != I(lv):
            bad('the message does not get level %s' % level)
        if not (text('setFilename') or '').endswith('logmacros.inc'):
            bad('the message does not get the name of its source file')
        if sets.get('setLine') != I(f_line(p, f)):
            bad('the message does not get its line number')
        if text('setClassname') != ('VfClass' if suffix else ''):
            bad('the message does not get its class name')
        if suffix == '_CO':
            if "'object'" not in repr(sets.get('setObjectname')):
                bad('the message does not get its object name')
        elif text('setObjectname') != '':
            bad('the message gets an object name')
        if text('setFunction') != short_fn(full):
            bad('the message does not get the name of its function')
        w = [x for x in rest if x[0] in ('write', 'printf')]
        if not any("'probe'" in repr(x[2:]) for x in w):
            bad('the argument is not written')
        if not rest or rest[-1][0] != 'flush' or [x[0] for x in rest].count('flush') != 1:
            bad('the message is not flushed exactly once at its end')
    if not off and not done:
        bad('the statement never writes its message')
    ctx.ok(rule, name + (' (release)' if release else ''))
    ctx.take(e, rule)


def short_fn(full):
    return full.split('(')[0].split('::')[-1]


def f_line(p, f):
    """line of the statement (see inst/logmacros.inc)"""
    return p.line_of(f) + (2 if p.fullname(f.name).split('(')[0].endswith('::run') else 3)


def l01(ctx):
    ctx.rule('statements', 'a log statement evaluates its arguments, and passes exactly one message with its level, source position and names to '
                           'the stream of its thread, if and only if the log stream is active and its level is not above that of the statement')
    p = ctx.load(['icl_core_logging', 'icl_core'], ['logmacros', 'logmacros_nd', 'logapi'])
    n = 0
    for f in sorted(p.iter_funcs(), key=lambda f: f.name):
        full = p.fullname(f.name)
        m = re.search(r'vf_([mn])_(?:d_)?([SML]?)LOGGING_(FMT_)?(ERROR|WARNING|INFO|DEBUG|TRACE)(_CO?)?\b', full)
        if not m or f.lines is None:
            continue
        if m.group(2) == 'M' and '::run' not in full:
            continue
        n += 1
        statement(ctx, p, f, m.group(2) + 'LOGGING', m.group(4), m.group(5) or '', bool(m.group(3)), m.group(1) == 'n')
    if n < 200:
        raise Broken('only %d logging macros were found' % n)
    ctx.rule('levels', 'names and log levels are converted into each other one to one, and the active flag and the level which are set are those which are returned')
    levels(ctx, p)


class ApiRule(Rule):
    """mon = (compares, stores)"""
    join_limit = 16

    def __init__(self, p):
        self.p = p

    def rename(self, eng, mon, f):
        return tuple((mapval(f, v), k, t) for v, k, t in mon[0]), tuple((o, mapval(f, v)) for o, v in mon[1])

    def mon_values(self, mon):
        return [c[0] for c in mon[0]] + [s[1] for s in mon[1]]

    def load(self, eng, st, ins, ptr, size):
        # tables which are never written
        if ptr[0] == 'p' and ptr[1][0] == 'g' and isinstance(ptr[2], int) and size == 8:
            m = eng.gmod(ptr[1][1])
            gm, gi = self.p.ginit(m, ptr[1][1][1]) if m is not None else (None, None)
            if gi and gi.get('init') is not None and ptr[1][1][1] in self.tables:
                c = self.p.read_const(gm, gi['ty'], gi['init'], ptr[2])
                if c is not None and c[0] in ('g', 'ce', 'zero', 'i'):
                    return eng.val(st, c, gm)
        return None

    def call(self, eng, st, ins, sname, fn, args):
        if fn is not None and self.p.in_repo(fn):
            return None
        vals = [a[1] for a in args]
        for v in vals:
            t = cstring(self.p, v)
            if t in LEVELS:
                base = re.sub(r'<.*>', '', sname)
                fresh(eng, st, ins)
                r = ('s', ('r', eng.cur_path, ins.idx, 'cmp'))
                kind = 'eq' if base.endswith('operator==') else 'ne' if base.endswith('operator!=') else \
                    'zero' if base.rsplit('::', 1)[-1] in ('compare', 'strcmp') else None
                if kind is None:
                    return None
                st.mon = (st.mon[0] + ((r, kind, t),), st.mon[1])
                return [Outcome('ret', r, st)]
        return None

    def store(self, eng, st, ins, ptr, val, size):
        if ptr[0] == 'p' and ptr[1] == ('o', 'level'):
            st.mon = (st.mon[0], st.mon[1] + ((ptr[2], val),))
        return None


def levels(ctx, p):
    rule = 'levels'
    r = ApiRule(p)
    r.tables = {g for m in p.modules for g, txt in m.globals.items() if re.search(r'global \[\d+ x ptr\] \[', txt)}
    written = {g for f in p.iter_funcs() for l in f.lines or () if ' store ' in l or l.lstrip().startswith('store ')
               for g in re.findall(r'@"?([\w.$]+)', l) if g in r.tables}
    r.tables -= written

    def one_fn(name):
        return one(p.find(L + name), name)[0]
    f = one_fn('logLevelDescription')
    for k in [-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 255]:
        want = LEVELS[k] if 0 <= k < len(LEVELS) else ''
        e = Engine(p, r)
        got = {cstring(p, o.ret) if o.ret is not None else None for o in e.explore(f, [I(k & 0xffffffff)], ((), ())) if o.kind == 'ret'}
        if got != {want}:
            ctx.violation(rule, p.fwhere(f), f.name, 'the description of log level %d is not always "%s"' % (k, want))
        ctx.ok(rule, 'description %d' % k)
        ctx.take(e, rule)

    f = one_fn('stringToLogLevel')
    e = Engine(p, r)
    found = set()
    for o in e.explore(f, [('p', ('o', 'text'), 0), ('p', ('o', 'level'), 0)], ((), ())):
        if o.kind != 'ret':
            continue
        cmps, stores = o.st.mon
        equal = []
        for v, k, t in cmps:
            z = e.decide_icmp(o.st, 'eq', v, I(0), 32 if k == 'zero' else 1)
            if z is None:
                # the whole range of the comparison is known by its sign or low bit
                z = {True: True, False: False}.get(e.decide_icmp(o.st, 'eq', ('x', 'trunc', v, 8, 1), I(0), 1))
            if z is None:
                equal = None
                break
            if z == (k in ('zero', 'ne')):
                equal.append(t)
        w = p.fwhere(f)
        if equal is None:
            ctx.violation(rule, w, 'stringToLogLevel', 'the result of a comparison with the name of a level is ignored')
            continue
        if o.ret == I(1) or o.ret == ('i', 1):
            if not equal:
                ctx.violation(rule, w, 'stringToLogLevel', 'succeeds for a text which is not the name of a level')
            elif not stores or stores[-1] != (0, I(LEVELS.index(equal[0]))):
                ctx.violation(rule, w, 'stringToLogLevel', 'does not store the level with the name "%s"' % equal[0])
            found |= set(equal[:1])
        elif o.ret == I(0):
            if equal:
                ctx.violation(rule, w, 'stringToLogLevel', 'fails for the name of a level')
            elif stores:
                ctx.violation(rule, w, 'stringToLogLevel', 'changes the level although the text is not the name of a level')
            elif {t for v, k, t in cmps} != set(LEVELS):
                ctx.violation(rule, w, 'stringToLogLevel', 'does not recognise the names of all levels')
        else:
            ctx.violation(rule, w, 'stringToLogLevel', 'the result is not decided by the comparison with the names of the levels')
    for t in LEVELS:
        if t not in found:
            ctx.violation(rule, p.fwhere(f), 'stringToLogLevel', 'does not recognise the name "%s"' % t)
        ctx.ok(rule, 'name ' + t)
    ctx.take(e, rule)

    for name, want in (('vf_is_active', 1), ('vf_output_level', 1)):
        f = one(p.find(name), name)[0]
        e = Engine(p, Rule())
        for o in e.explore(f, e.default_args(f), ()):
            v = strip(o.ret) if o.ret is not None else ('u',)
            if o.kind != 'ret' or v != strip(e.default_args(f)[1]):
                ctx.violation(rule, p.fwhere(f), name, 'the accessor does not return the value which was set last')
        ctx.ok(rule, name)
        ctx.take(e, rule)


# ------------------------------------------------------------------ L02
FIELDS = ['log_stream', 'filename', 'line', 'class_name', 'object_name', 'function_name', 'message_text']
NOREACH = re.compile(r'^(printf|fprintf|puts|std::operator<<|std::ostream::operator<<|std::endl|icl_core::os::usleep)')


def setter_members(ctx, p):
    """{attribute: offset} of ThreadStream, from its setters"""
    out = {}

    class R(Rule):
        def call(self, eng, st, ins, sname, fn, args):
            if sname.rsplit('::', 1)[-1] in ('strncpy', 'strcpy', 'memcpy', 'snprintf', 'strlcpy') and not (fn and p.in_repo(fn)):
                q = eng.as_ptr(args[0][1])
                if q and q[0] == ('o', ('s', 'ts')):
                    out[self.name] = q[1]
                return [Outcome('ret', args[0][1], st)]
            return None

        def memcpy(self, eng, st, ins, dst, src, n):
            q = eng.as_ptr(dst)
            if q and q[0] == ('o', ('s', 'ts')):
                out[self.name] = q[1] if isinstance(q[1], int) else q[1][2] if q[1][0] == 'so' else None
                if not isinstance(q[1], int) and q[1][0] == 'so' and loaded_from(q[1][1]):
                    out['index'] = loaded_from(q[1][1])[1]
            return None

        def store(self, eng, st, ins, ptr, val, size):
            if ptr[0] == 'p' and ptr[1] == ('o', ('s', 'ts')) and strip(val) == self.arg:
                out.setdefault(self.name, ptr[2])
            return None
    r = R()
    for n in ('setClassname', 'setFilename', 'setObjectname', 'setFunction', 'setLine', 'setLineLogLevel', 'write'):
        f = one(p.find(L + 'ThreadStream::' + n), n)[0]
        r.name = n
        e = Engine(p, r)
        a = e.default_args(f)
        r.arg = strip(a[1])
        e.explore(f, [('p', ('o', ('s', 'ts')), 0)] + a[1:], ())
        ctx.take(e, 'delivery')
    return out


class FlushRule(IterRule):
    """ThreadStream::flush(): rest = ()"""
    def __init__(self, p, off):
        self.p, self.off = p, off

    def on_next(self, eng, st, ins, cont, handled):
        if handled == 0:
            eng.report(ins, 'an output of the log stream is skipped')
        elif handled > 1:
            eng.report(ins, 'a message is written more than once to an output')

    def on_restart(self, eng, st, ins, cont, handled):
        if handled:
            eng.report(ins, 'the outputs of the log stream are visited more than once')

    def other(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if sname == L + 'Semaphore::wait':
            return [Outcome('ret', I(1), st)]
        if sname == L + 'Semaphore::post':
            return [Outcome('ret', None, st)]
        if sname == L + 'LogStream::nameCStr':
            return [Outcome('ret', ('s', ('streamname', repr(args[0][1]))), st)]
        if sname == L + 'LogOutputStream::push':
            cont = self.is_elem(args[0][1])
            if cont is None:
                eng.report(ins, 'a message is written to something which is not the current output of the loop')
                return [Outcome('ret', None, st)]
            self.handle(st, cont)
            v = [a[1] for a in args[1:]]
            ts = ('o', ('s', 'ts'))

            def member(name, size):
                return eng.mload(st, ('p', ts, self.off[name]), size, ins)
            parent = eng.mload(st, ('p', ts, 0), 8, ins)
            for i, n, want in ((0, 'level', 'setLineLogLevel'), (2, 'file name', 'setFilename'), (3, 'line', 'setLine'), (4, 'class name', 'setClassname'),
                               (5, 'object name', 'setObjectname'), (6, 'function name', 'setFunction'), (7, 'text', 'write')):
                if want in ('setLineLogLevel', 'setLine'):
                    w, g = strip(member(want, 4 if i == 0 else 8)), strip(v[i])
                else:
                    w, g = ('p', ts, self.off[want]), v[i]
                if w != g:
                    eng.report(ins, 'the output gets something else than the %s of the message' % n)
            if v[1][0] != 's' or v[1][1][0] != 'streamname':
                eng.report(ins, 'the output gets something else than the name of the log stream')
            return [Outcome('ret', None, st)]
        if short == 'releaseThreadStream':
            if args[1][1] != ('p', ('o', ('s', 'ts')), 0):
                eng.report(ins, 'releases another thread stream')
            if not any(s == 'end' for c, s, h in st.mon[0]):
                eng.report(ins, 'releases the thread stream while its message is still being written')
            if self.off.get('index') is not None and \
                    eng.mload(st, ('p', ('o', ('s', 'ts')), self.off['index']), 8, ins) != I(0):
                eng.report(ins, 'releases the thread stream before it is emptied')
            st.mon = (st.mon[0], st.mon[1] + ('released',))
            return [Outcome('ret', None, st)]
        return None


def l02_flush(ctx, p):
    off = setter_members(ctx, p)
    f = one(p.find(L + 'ThreadStream::flush'), 'flush')[0]
    for n in ('setClassname', 'setFilename', 'setObjectname', 'setFunction', 'setLine', 'setLineLogLevel', 'write'):
        if off.get(n) is None:
            ctx.violation('delivery', p.fwhere(f), 'ThreadStream::' + n, 'does not keep its argument')
        ctx.ok('delivery', 'ThreadStream::' + n)
    if len(set(off.values())) != len(off):
        ctx.violation('delivery', p.fwhere(f), 'ThreadStream', 'two attributes of a message are kept in the same member')
    if len(set(off.values())) != 8 or None in off.values():
        return
    r = FlushRule(p, off)
    e = Engine(p, r)
    for o in e.explore(f, [('p', ('o', ('s', 'ts')), 0)], ((), ())):
        if o.kind == 'ret' and not any(s == 'end' for c, s, h in o.st.mon[0]):
            ctx.violation('delivery', p.fwhere(f), 'ThreadStream::flush', 'can return before the message was passed on to all outputs')
        if o.kind == 'ret' and o.st.mon[1] != ('released',):
            ctx.violation('delivery', p.fwhere(f), 'ThreadStream::flush', 'the thread stream is not released exactly once')
        if o.kind == 'ret' and e.mload(o.st, ('p', ('o', ('s', 'ts')), off['index']), 8, None) != I(0):
            ctx.violation('delivery', p.fwhere(f), 'ThreadStream::flush', 'the text of the message is still in the thread stream')
    ctx.ok('delivery', 'ThreadStream::flush')
    ctx.take(e, 'delivery')


class DeliverRule(IterRule):
    """rest = (held, texts, delivered)    texts: ((object, offset), source), ..."""
    wait_fails = ()

    def __init__(self, p):
        self.p = p
        self.cls = one([c for c in p.classes() if c.endswith('LogOutputStream::LogMessage')], 'LogMessage')[0]
        self.off = {n.rsplit('.', 1)[-1]: (o, sz) for n, o, sz, ty, k, ow in p.flat_members(p.cls(self.cls))}

    def upd(self, st, **kw):
        held, texts, log = st.mon[1]
        st.mon = (st.mon[0], (kw.get('held', held), kw.get('texts', texts), kw.get('log', log)))

    def rename_rest(self, eng, rest, f):
        return (tuple(mapval(f, h) for h in rest[0]), tuple(((mapval(f, o), k), mapval(f, v)) for (o, k), v in rest[1]),
                tuple(tuple(mapval(f, x) if isinstance(x, tuple) else x for x in e) for e in rest[2]))

    def rest_values(self, rest):
        return list(rest[0]) + [v for k, v in rest[1]] + [x for e in rest[2] for x in e if isinstance(x, tuple)]

    def text(self, st, dst, src):
        self.upd(st, texts=tuple(sorted([t for t in st.mon[1][1] if t[0] != dst] + [(dst, src)], key=repr)))

    def lock_of(self, v):
        return v

    def other(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if short in ('strncpy', 'strcpy', 'strlcpy') and not (fn and self.p.in_repo(fn)):
            q = eng.as_ptr(args[0][1])
            if q:
                self.text(st, q, args[1][1])
            return [Outcome('ret', args[0][1], st)]
        if sname == L + 'Semaphore::wait':
            k = self.lock_of(args[0][1])
            self.upd(st, held=tuple(sorted(st.mon[1][0] + (k,), key=repr)))
            return [Outcome('ret', I(1), st)]
        if sname == L + 'Semaphore::post':
            k = self.lock_of(args[0][1])
            h = list(st.mon[1][0])
            if k in h:
                h.remove(k)
                self.upd(st, held=tuple(h))
            else:
                self.upd(st, log=st.mon[1][2] + (('post', k),))
            return [Outcome('ret', None, st)]
        if re.match(r'std::(__cxx11::)?(queue|deque|list)::(push|push_back|emplace|emplace_back)$', sname):
            self.upd(st, log=st.mon[1][2] + (('enqueue', args[0][1], self.content(eng, st, args[1][1], ins)),))
            return [Outcome('ret', None, st)]
        if sname.startswith('icl_core::TimeStamp::now'):
            return None
        return None

    def content(self, eng, st, ptr, ins):
        """values of the fields of the message at ptr"""
        q = eng.as_ptr(ptr)
        if q is None or not isinstance(q[1], int):
            return ('?',)
        out = []
        texts = dict(st.mon[1][1])
        for n in FIELDS + ['log_level']:
            o, sz = self.off[n]
            if n in ('line', 'log_level'):
                out.append((n, strip(eng.mload(st, ('p', q[0], q[1] + o), sz, ins))))
            else:
                out.append((n, texts.get((q[0], q[1] + o))))
        return ('msg', tuple(out))

    def vcall(self, eng, st, ins, vn, args, targets):
        if vn.endswith('::pushImpl'):
            self.upd(st, log=st.mon[1][2] + (('direct', args[0][1], self.content(eng, st, args[1][1], ins)),))
            return [Outcome('ret', None, st)]
        return None


def l02_push(ctx, p, cls, fill, queues):
    f = one(p.find(L + 'LogOutputStream::push'), 'push')[0]
    where, rule = p.fwhere(f), 'delivery'
    r = DeliverRule(p)
    e = Engine(p, r)
    this = ('p', ('o', ('s', 'os')), 0)
    a = [this] + e.default_args(f)[1:]
    names = ['log_level', 'log_stream', 'filename', 'line', 'class_name', 'object_name', 'function_name', 'message_text']
    lvl = level_offset(p)
    done = set()

    def bad(m):
        ctx.violation(rule, where, 'LogOutputStream::push', m)
    for o in e.explore(f, a, ((), ((), (), ()))):
        if o.kind != 'ret':
            continue
        st = o.st
        held, texts, log = st.mon[1]
        if held:
            bad('returns with a lock held')
        cur = e.mload(st, ('p', this[1], lvl), 4, None)
        le = e.decide_icmp(st, 'sge', a[1], cur, 32)
        n = [x for x in log if x[0] in ('enqueue', 'direct')]
        if le is None:
            bad('whether a message is written is not decided by comparing its level with that of the output')
            continue
        if not le:
            if n:
                bad('a message below the level of the output is written')
            done.add('below')
            continue
        if len(n) != 1:
            bad('a message of sufficient level is %s' % ('lost' if not n else 'written more than once'))
            continue
        done.add(n[0][0])
        if n[0][2][0] != 'msg':
            bad('something else than a message is written')
            continue
        for k, v in n[0][2][1]:
            want = a[1 + names.index(k)]
            if v is None or strip(v) != strip(want):
                bad('the field %s of the message is not set to the argument of that name' % k)
        w = has_worker(p, cls, e, st)
        if w is None or w != (n[0][0] == 'enqueue'):
            bad('a message is not put into the queue exactly when there is a worker thread')
        if n[0][0] == 'enqueue':
            posts = [loaded_from(x[1]) for x in log[log.index(n[0]) + 1:] if x[0] == 'post']
            q = n[0][1]
            if not any(l and l[1] in fill for l in posts):
                bad('the worker thread is not woken up after a message was put into its queue')
            if q[0] != 'p' or q[2] not in queues:
                bad('a message is put into another queue than the one which the worker thread reads')
    for k in ('below', 'enqueue', 'direct'):
        if k not in done:
            bad('there is no path on which a message is %s' % {'below': 'suppressed', 'enqueue': 'queued', 'direct': 'written directly'}[k])
        ctx.ok(rule, 'LogOutputStream::push ' + k)
    ctx.take(e, rule)


def worker_members(p, cls):
    oc = p.cls(L + 'LogOutputStream')
    bools = [m[1] for m in p.flat_members(oc) if m[3] == 'bool']
    ptrs = [m[1] for m in p.flat_members(oc) if m[2] == 8 and m[3].rstrip('*& ').endswith(cls.rsplit('::', 1)[-1])]
    if len(ptrs) != 1:
        raise Broken('the worker thread of LogOutputStream was not found')
    return bools, ptrs


def has_worker(p, cls, e, st):
    """Has the path decided whether there is a worker thread?"""
    bools, ptrs = worker_members(p, cls)
    this = ('o', ('s', 'os'))
    r = e.decide_icmp(st, 'ne', e.mload(st, ('p', this, ptrs[0]), 8, None), NULL, 64)
    for b in bools if r is None else ():
        d = truth(e, st, e.mload(st, ('p', this, b), 1, None))
        r = d if d is not None else r
    return r


def level_offset(p):
    """offset of the level of an output, from its getter"""
    f = one(p.find(L + 'LogOutputStream::getLogLevel'), 'getLogLevel')[0]
    e = Engine(p, Rule())
    for o in e.explore(f, [('p', ('o', ('s', 'os')), 0)], ()):
        v = strip(o.ret)
        if v[0] == 's' and v[1][0] == 'ld':
            return v[1][2]
    raise Broken('LogOutputStream::getLogLevel() does not return a member')


def truth(e, st, v):
    """decided value of a flag, None when it is open"""
    v = strip(v)
    for w in (1, 8):
        for x in (v, ('x', 'trunc', v, 8, 1)):
            d = e.decide_icmp(st, 'ne', x, I(0), w)
            if d is not None:
                return d
    return None


def loaded_from(v):
    """(object, offset) when v is the value loaded from there"""
    if v[0] == 'p' and v[2] == 0 and v[1][0] == 'o' and isinstance(v[1][1], tuple):
        v = v[1][1]
    if v[0] == 's' and v[1][0] == 'ld':
        return v[1][1], v[1][2]
    return None


class CtorRule(Rule):
    """Initial values of the semaphores an object creates."""
    def __init__(self):
        self.init = {}

    def class_of(self, obj):
        return L + 'LogOutputStream' if obj == ('o', ('s', 'os')) else None

    def call(self, eng, st, ins, sname, fn, args):
        if sname == L + 'Semaphore::Semaphore':
            v = args[1][1]
            q = eng.as_ptr(args[0][1])
            if q and v[0] == 'i':
                self.init[q] = v[1]
            return [Outcome('ret', None, st)]
        if sname == L + 'Thread::Thread':
            return [Outcome('ret', None, st)]
        if '::config::' in sname or sname == L + 'LogOutputStream::changeLogFormat' or sname.startswith(L + 'LoggingManager::'):
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, 'config')), st)]
        return None


def ctors(p, cls):
    fs = p.special(cls, 'C')
    return [f for f in fs if not (re.search(r'C2E', f.name) and f.name.replace('C2E', 'C1E') in p.funcs
                                  and p.funcs[f.name.replace('C2E', 'C1E')].name != f.name)]


def worker_semaphores(ctx, p, cls):
    """{offset: initial value} of the semaphores of the worker thread"""
    out = {}
    c = p.cls(cls)
    for f in ctors(p, cls):
        r = CtorRule()
        e = Engine(p, r)
        a = e.default_args(f)
        for o in e.explore(f, a, ()):
            if o.kind != 'ret':
                continue
            for nm, off, size, ty, k, ow in p.flat_members(c):
                if size == 8:
                    q = e.as_ptr(e.mload(o.st, ('p', e.as_ptr(a[0])[0], off), 8, None))
                    if q in r.init:
                        out.setdefault(off, set()).add(r.init[q])
                elif size > 8 and (e.as_ptr(a[0])[0], off) in r.init:
                    out.setdefault(off, set()).add(r.init[(e.as_ptr(a[0])[0], off)])
        ctx.take(e, 'worker')
    return out


class RunRule(Rule):
    """Typestate of the worker loop:
    mon = (phase, held, queue, copy, pending, woken)"""
    join_limit = 6
    FRONT = ('o', ('s', 'front'))

    def __init__(self, p, fill):
        self.p, self.fill, self.queues = p, fill, set()

    def keep(self, obj, off):
        return obj in (self.FRONT, ('o', ('s', 'wt')))

    def upd(self, st, **kw):
        st.mon = tuple(kw.get(n, v) for n, v in zip(('phase', 'held', 'queue', 'copy', 'pending', 'woken'), st.mon))

    def lock(self, v):
        """offset of a semaphore of the worker"""
        l = loaded_from(v)
        if l and l[0] == ('o', ('s', 'wt')):
            return l[1]
        if v[0] == 'p' and v[1] == ('o', ('s', 'wt')):
            return v[2]
        return repr(v)

    def two(self, st, a, b):
        return [Outcome('ret', I(1), a), Outcome('ret', I(0), b)]

    def undelivered(self, eng, st, ins):
        if st.mon[4] is not None:
            eng.report(ins, 'a message which was taken out of the queue is not written')

    def call(self, eng, st, ins, sname, fn, args):
        phase, held, queue, copy, pending, woken = st.mon
        short = re.sub(r'<.*>', '', sname).rsplit('::', 1)[-1]
        if sname in (L + 'Thread::execute', 'icl_core::thread::Thread::execute'):
            if phase == 'init':
                eng.report(ins, 'the output is not told that its worker thread has been started')
                self.upd(st, phase='run')
                phase = 'run'
            if phase != 'run':
                return [Outcome('ret', I(0), st)]
            a, b = st.copy(), st
            self.upd(b, phase='drain')
            return self.two(st, a, b)
        if sname.startswith(L + 'Semaphore::'):
            k = self.lock(args[0][1])
            if short in ('wait', 'tryWait', 'waitTimeout'):
                if k in self.fill:
                    if woken:
                        eng.report(ins, 'a wake-up does not take the message it was sent for out of the queue')
                    self.undelivered(eng, st, ins)
                    a, b = st.copy(), st
                    self.upd(a, woken=1)
                    return self.two(st, a, b)
                self.upd(st, held=tuple(sorted(held + (k,), key=str)))
                return [Outcome('ret', I(1), st)]
            if short == 'post':
                h = list(held)
                if k in h:
                    h.remove(k)
                elif k not in self.fill:
                    eng.report(ins, 'a lock is released which is not held')
                self.upd(st, held=tuple(h), queue='some' if queue == 'some' else None)
                return [Outcome('ret', None, st)]
        if re.search(r'::(LogMessage|TimeStamp|TimeBase|TimeSpan|os)::~?\w+$', sname) or sname == 'printf':
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, short)), st)]
        if re.match(r'std::(__cxx11::)?(queue|deque|list)::', sname):
            self.queues.add(args[0][1][2] if args[0][1][0] == 'p' and args[0][1][1] == ('o', ('s', 'wt')) else None)
            if short == 'empty':
                if queue == 'some':
                    return [Outcome('ret', I(0), st)]
                if queue == 'none' and held:
                    return [Outcome('ret', I(1), st)]
                a, b = st.copy(), st
                self.upd(a, queue='none', woken=0, phase='drained' if phase == 'drain' and held else phase)
                self.upd(b, queue='some')
                return self.two(st, a, b)
            if short == 'front':
                self.undelivered(eng, st, ins)
                if queue != 'some':
                    eng.report(ins, 'the first message is taken out of a queue which may be empty')
                return [Outcome('ret', ('p', self.FRONT, 0), st)]
            if short in ('pop', 'pop_front'):
                self.undelivered(eng, st, ins)
                if queue != 'some':
                    eng.report(ins, 'a message is removed from a queue which may be empty')
                if copy is None:
                    eng.report(ins, 'a message is removed from the queue without being written')
                self.upd(st, copy=None, pending=None if copy == 'written' else copy, queue=None, woken=0)
                return [Outcome('ret', None, st)]
        return None

    def memcpy(self, eng, st, ins, dst, src, n):
        d, s = eng.as_ptr(dst), eng.as_ptr(src)
        if s and s == (self.FRONT, 0) and d:
            self.upd(st, copy=d)
        elif d and d == st.mon[4]:
            self.upd(st, pending='overwritten')
        elif s and s == st.mon[4] and d:
            self.upd(st, pending=d)
        return None

    def vcall(self, eng, st, ins, vn, args, targets):
        phase, held, queue, copy, pending, woken = st.mon
        m = vn.rsplit('::', 1)[-1]
        if m == 'onStart':
            if phase != 'init':
                eng.report(ins, 'the output is told twice that its worker thread has been started')
            self.upd(st, phase='run')
            return [Outcome('ret', None, st)]
        if m == 'onShutdown':
            self.undelivered(eng, st, ins)
            if phase != 'drained':
                eng.report(ins, 'the output is shut down although messages may be left in its queue')
            self.upd(st, phase='done')
            return [Outcome('ret', None, st)]
        if m == 'pushImpl':
            q = eng.as_ptr(args[1][1])
            if phase in ('init', 'done'):
                eng.report(ins, 'a message is written before the output was started or after it was shut down')
            if q is not None and q == pending:
                self.upd(st, pending=None)
            elif q is not None and copy != 'written' and copy is not None and q in (copy, (self.FRONT, 0)) or q == (self.FRONT, 0) and copy is None:
                self.upd(st, copy='written')
            else:
                eng.report(ins, 'something else than a message which was just taken out of the queue is written')
            return [Outcome('ret', None, st)]
        return None


def l02_worker(ctx, p):
    rule = 'worker'
    runs = [f for f in p.iter_funcs() if re.match(r'icl_core::logging::LogOutputStream::\w+::run\(\)$', p.fullname(f.name))]
    f = one(runs, 'worker thread of LogOutputStream')[0]
    cls = p.fullname(f.name)[:-len('::run()')]
    where = p.fwhere(f)
    sems = worker_semaphores(ctx, p, cls)
    fill = {o for o, v in sems.items() if v == {0}}
    if len(fill) != 1 or not any(v == {1} for v in sems.values()):
        ctx.violation(rule, where, cls, 'there is not one semaphore, initially zero, which counts the queued messages, and a mutex which is initially free')
        return None
    ctx.ok(rule, cls + ': semaphores')
    r = RunRule(p, fill)
    e = Engine(p, r)
    n = 0
    for o in e.explore(f, [('p', ('o', ('s', 'wt')), 0)], ('init', (), None, None, None, 0)):
        if o.kind != 'ret':
            continue
        n += 1
        phase, held, queue, copy, pending, woken = o.st.mon
        if pending is not None:
            ctx.violation(rule, where, cls + '::run', 'a message which was taken out of the queue is not written')
        if phase != 'done':
            ctx.violation(rule, where, cls + '::run', 'the worker thread can end without telling the output to shut down')
        if held:
            ctx.violation(rule, where, cls + '::run', 'ends with a lock held')
    if not n:
        ctx.violation(rule, where, cls + '::run', 'never ends')
    ctx.ok(rule, cls + '::run')
    ctx.take(e, rule)
    return cls, fill, r.queues


class StopRule(Rule):
    """mon = (events, running)"""
    def __init__(self, fill):
        self.fill = fill

    def call(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if sname.startswith((L + 'Thread::', L + 'Semaphore::', 'icl_core::thread::Thread::')):
            if short == 'running':
                a, b = st.copy(), st
                a.mon = (st.mon[0], 1)
                b.mon = (st.mon[0], 0)
                return [Outcome('ret', I(1), a), Outcome('ret', I(0), b)]
            if short in ('start', 'stop', 'post', 'join'):
                ev = short
                if short == 'post':
                    v = args[0][1]
                    l = loaded_from(v)
                    off = l[1] if l else v[2] if v[0] == 'p' else None
                    ev = 'wake' if off in self.fill else 'post'
                st.mon = (st.mon[0] + (ev,), st.mon[1])
                if short in ('start', 'join'):
                    fresh(eng, st, ins)
                    return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, short)), st)]
                return [Outcome('ret', None, st)]
        return None


def l02_lifecycle(ctx, p, cls, fill):
    rule = 'worker'
    this = ('p', ('o', ('s', 'os')), 0)
    bools, ptrs = worker_members(p, cls)
    for name in ('start', 'shutdown'):
        f = one(p.find(L + 'LogOutputStream::' + name), name)[0]
        where = p.fwhere(f)
        e = Engine(p, StopRule(fill))
        for o in e.explore(f, [this], ((), None)):
            if o.kind != 'ret':
                continue
            ev, running = o.st.mon
            w = has_worker(p, cls, e, o.st)
            if w is None:
                ctx.violation(rule, where, 'LogOutputStream::' + name, 'does not depend on whether there is a worker thread')
            elif not w and ev:
                ctx.violation(rule, where, 'LogOutputStream::' + name, 'uses a worker thread which does not exist')
            elif w and name == 'start' and ev != ('start',):
                ctx.violation(rule, where, 'LogOutputStream::' + name, 'does not start the worker thread')
            elif w and name == 'shutdown' and running != 0:
                core = [x for x in ev if x in ('stop', 'wake', 'join')]
                if 'join' not in core or 'stop' not in core or 'wake' not in core:
                    ctx.violation(rule, where, 'LogOutputStream::' + name, 'does not stop, wake up and wait for the worker thread')
                elif core.index('stop') > core.index('wake') or core.index('wake') > core.index('join'):
                    ctx.violation(rule, where, 'LogOutputStream::' + name,
                                  'does not stop the worker thread before it wakes it up, or waits for it before')
        ctx.ok(rule, 'LogOutputStream::' + name)
        ctx.take(e, rule)
    n = 0
    for f in ctors(p, L + 'LogOutputStream'):
        e = Engine(p, CtorRule())
        a = special_args(e, f, L + 'LogOutputStream', e.as_ptr(e.default_args(f)[0])[0]) if re.search('C2E', f.name) else e.default_args(f)
        a[0] = this
        flag = a[-1]
        for o in e.explore(f, a, ()):
            if o.kind != 'ret':
                continue
            n += 1
            q = e.mload(o.st, ('p', this[1], ptrs[0]), 8, None)
            want = truth(e, o.st, flag)
            isnull = q == NULL
            if want is None or want == isnull:
                ctx.violation(rule, p.fwhere(f), 'LogOutputStream', 'a worker thread is not created exactly when one is requested')
            for b in bools:
                d = truth(e, o.st, e.mload(o.st, ('p', this[1], b), 1, None))
                if d is None or d == isnull:
                    ctx.violation(rule, p.fwhere(f), 'LogOutputStream', 'the output does not remember whether it has a worker thread')
        ctx.take(e, rule)
    if not n:
        raise Broken('the constructors of LogOutputStream were not analysed')
    ctx.ok(rule, 'LogOutputStream::LogOutputStream')


class OwnRule(IterRule):
    """LogStream::threadStream(): rest = (facts about the current element, released, added)"""
    LS = ('o', ('s', 'ls'))

    def __init__(self, p):
        self.p = p

    def keep(self, obj, off):
        return IterRule.keep(self, obj, off) or obj == self.LS

    def upd(self, st, **kw):
        st.mon = (st.mon[0], tuple(kw.get(n, v) for n, v in zip(('id', 'released', 'added'), st.mon[1])))

    def rename_rest(self, eng, rest, f):
        return (rest[0], rest[1], tuple(mapval(f, v) for v in rest[2]))

    def rest_values(self, rest):
        return list(rest[2])

    def on_next(self, eng, st, ins, cont, handled):
        self.upd(st, id=None)

    on_restart = on_next

    def ident(self, eng, st, v, ins):
        """'self', 'empty' or the container whose current element the thread id belongs to"""
        if v == ('s', 'self'):
            return 'self'
        l = loaded_from(v)
        if l and l[0][0] == 'g':
            return 'empty'
        if l and self.is_elem(v) is not None:
            return ('el', l[1])
        return None

    def other(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if sname == L + 'Semaphore::wait':
            if st.mon[1][1]:
                eng.report(ins, 'the list of thread streams is changed by others between the search and the assignment')
            return [Outcome('ret', I(1), st)]
        if sname == L + 'Semaphore::post':
            self.upd(st, released=1)
            return [Outcome('ret', None, st)]
        if short == 'threadSelf':
            return [Outcome('ret', ('s', 'self'), st)]
        if short in ('operator==', 'operator!=') and 'os' in sname and len(args) == 2:
            v = []
            for t, a in args:
                q = eng.as_ptr(a)
                v.append(self.ident(eng, st, eng.mload(st, a, 8, ins) if q is not None and t == ('ptr',) else a, ins))
            el = [x for x in v if isinstance(x, tuple)]
            rest = [x for x in v if not isinstance(x, tuple)]
            if len(el) == 1 and rest[0] in ('self', 'empty'):
                self.idoff = el[0][1]
                eq = 1 if short == 'operator==' else 0
                a, b = st.copy(), st
                self.upd(a, id=rest[0])
                return [Outcome('ret', I(eq), a), Outcome('ret', I(1 - eq), b)]
        if sname == L + 'LogStream::getLogLevel':
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, 'level')), st)]
        if sname == L + 'ThreadStream::ThreadStream':
            return [Outcome('ret', None, st)]
        if sname == L + 'ThreadStream::changeLevel':
            return [Outcome('ret', None, st)]
        return None

    def cont_other(self, eng, st, ins, name, cont, args):
        if name in ('push_back', 'push_front'):
            vals = []
            q = eng.as_ptr(args[1][1])
            for o, n in sorted(self.fields.values()):
                vals.append(strip(eng.mload(st, ('p', q[0], q[1] + o), n, ins)))
            self.upd(st, added=tuple(vals))
            fresh(eng, st, ins)
            return [Outcome('ret', None, st)]
        return None


def l02_own(ctx, p):
    rule = 'thread streams'
    f = one(p.find(L + 'LogStream::threadStream'), 'threadStream')[0]
    where, name = p.fwhere(f), 'LogStream::threadStream'
    info = [q for q in p.classes() if q.startswith(L + 'LogStream::') and
            sorted(m[3].rsplit('::', 1)[-1].replace(' ', '') for m in p.flat_members(p.cls(q))) == ['LogLevel', 'ThreadId', 'ThreadStream*']]
    q = one(info, 'the entries of the thread stream list')[0]
    fields = {m[3].rsplit('::', 1)[-1].replace(' ', ''): (m[1], m[2]) for m in p.flat_members(p.cls(q))}
    lo, so = fields['LogLevel'], fields['ThreadStream*']
    r = OwnRule(p)
    r.fields = fields
    e = Engine(p, r)
    level = ('s', ('arg', 1))
    n = set()
    for o in e.explore(f, [('p', r.LS, 0), level], ((), (None, 0, ()))):
        if o.kind != 'ret':
            continue
        ident, released, added = o.st.mon[1]
        v = o.ret
        if v[0] == 'p' and v[1][0] == 'h':
            n.add('new')
            if ('s', 'self') not in added or level not in added or v not in added:
                ctx.violation(rule, where, name, 'a new thread stream is not registered for the calling thread and its level')
            continue
        cont = r.is_elem(v)
        if cont is None:
            ctx.violation(rule, where, name, 'returns a thread stream which does not belong to the log stream')
            continue
        el = r.elem(cont)
        lv = e.mload(o.st, ('p', el, lo[0]), lo[1], None)
        idv = e.mload(o.st, ('p', el, fields['ThreadId'][0]), fields['ThreadId'][1], None)
        mine = ident == 'self' or idv == ('s', 'self')
        n.add('own' if ident == 'self' else 'free')
        if not mine or ident not in ('self', 'empty'):
            ctx.violation(rule, where, name, 'returns a thread stream which may be in use by another thread')
        if e.decide_icmp(o.st, 'eq', strip(lv), level, 32) is not True:
            ctx.violation(rule, where, name, 'returns a thread stream which belongs to a message of another level')
    for k, t in (('own', 'its own stream'), ('free', 'a free stream'), ('new', 'a new stream')):
        if k not in n:
            ctx.violation(rule, where, name, 'never gives a thread ' + t)
        ctx.ok(rule, name + ': ' + t)
    ctx.take(e, rule)

    f = one(p.find(L + 'LogStream::releaseThreadStream'), 'releaseThreadStream')[0]
    where, name = p.fwhere(f), 'LogStream::releaseThreadStream'
    r = OwnRule(p)
    r.fields = fields
    e = Engine(p, r)
    arg = ('p', ('o', ('s', 'ts')), 0)
    hit = 0
    for o in e.explore(f, [('p', r.LS, 0), arg], ((), (None, 0, ()))):
        if o.kind != 'ret':
            continue
        conts = [c for c, s, h in o.st.mon[0] if s in ('at', 'post')]
        for c in conts:
            el = r.elem(c)
            sv = e.mload(o.st, ('p', el, so[0]), 8, None)
            idv = e.mload(o.st, ('p', el, fields['ThreadId'][0]), 8, None)
            same = e.decide_icmp(o.st, 'eq', sv, arg, 64)
            if same is not True or r.ident(e, o.st, idv, None) != 'empty':
                ctx.violation(rule, where, name, 'does not mark exactly the given thread stream as free')
            hit = 1
    if not hit:
        ctx.violation(rule, where, name, 'never marks the thread stream as free')
    ctx.ok(rule, name)
    ctx.take(e, rule)


class ManagerRule(IterRule):
    """LoggingManager: what is done with each output and each log stream.
    rest = (stages of the pointers in use, cleared containers)"""
    join_limit = 40
    LM = ('o', ('s', 'lm'))

    def __init__(self, p, wanted=('remove', 'shutdown', 'delete')):
        self.p, self.wanted = p, wanted
        self.kind = {}          # container -> 'outputs' | 'streams'
        self.ends = set()

    def keep(self, obj, off):
        return IterRule.keep(self, obj, off) or obj == self.LM

    def cont_of(self, eng, ptr):
        q = eng.as_ptr(ptr)
        return q[1] if q and q[0] == self.LM and q[1] in self.maps else None

    def stage(self, st, v):
        return dict(st.mon[1][0]).get(v, ())

    def do(self, eng, st, ins, v, what):
        d = dict(st.mon[1][0])
        cont = self.is_elem(v)
        k = ('elem', cont) if cont is not None else v
        d[k] = d.get(k, ()) + (what,)
        if len(d[k]) > 4:
            d[k] = d[k][:4]
        st.mon = (st.mon[0], (tuple(sorted(d.items(), key=repr)), st.mon[1][1]))
        if cont is not None and self.maps[cont] == 'outputs':
            done = d[k]
            for i, w in enumerate(self.wanted):
                if w == what and set(self.wanted[:i]) - set(done):
                    eng.report(ins, 'an output is %s' % {'shutdown': 'shut down while log streams still write to it',
                                                         'delete': 'destroyed before it was removed from the log streams and shut down'}.get(what, what))
        elif cont is None and v[0] == 's':
            done = d[k]
            if what == 'delete' and set(self.wanted) - set(done):
                eng.report(ins, 'the default output is destroyed before it was removed from the log streams and shut down')
            if what == 'shutdown' and 'remove' not in done:
                eng.report(ins, 'the default output is shut down while log streams still write to it')

    def on_next(self, eng, st, ins, cont, handled):
        d = dict(st.mon[1][0])
        done = d.pop(('elem', cont), ())
        st.mon = (st.mon[0], (tuple(sorted(d.items(), key=repr)), st.mon[1][1]))
        want = self.wanted if self.maps[cont] == 'outputs' else ('delete',)
        isnull = any(isinstance(k, int) and x[1] == 8 and eng.decide_icmp(st, 'eq', x[0], NULL, 64) is True
                     for k, x in st.mem.get(self.elem(cont), {}).items() if isinstance(x, tuple))
        for w in want:
            if w == 'delete' and isnull:
                continue
            if done.count(w) == 0:
                eng.report(ins, '%s is not %s' % ('an output' if self.maps[cont] == 'outputs' else 'a log stream',
                                                  {'remove': 'removed from the log streams', 'shutdown': 'shut down', 'delete': 'destroyed'}[w]))
            if w == 'delete' and done.count(w) > 1:
                eng.report(ins, 'an object is destroyed twice')

    def on_end(self, eng, st, ins, cont):
        self.note(st, cont, 'end')

    def note(self, st, cont, what):
        st.mon = (st.mon[0], (st.mon[1][0], tuple(sorted(set(st.mon[1][1]) | {(cont, what)}))))

    def cont_other(self, eng, st, ins, name, cont, args):
        if name == 'clear':
            s, h = self.get(st, cont)
            if s != 'end':
                eng.report(ins, 'the objects in a list are forgotten before they were destroyed')
            self.note(st, cont, 'clear')
            self.put(st, cont, None)
            return [Outcome('ret', None, st)]
        return None

    def rename_rest(self, eng, rest, f):
        return (tuple((mapval(f, k), v) for k, v in rest[0]), rest[1])

    def rest_values(self, rest):
        return [k for k, v in rest[0]]

    def other(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if sname == L + 'LoggingManager::removeLogOutputStream':
            self.do(eng, st, ins, args[1][1], 'remove')
            return [Outcome('ret', None, st)]
        if sname == L + 'LogOutputStream::shutdown':
            self.do(eng, st, ins, args[0][1], 'shutdown')
            return [Outcome('ret', None, st)]
        if sname == L + 'LogStream::removeOutputStream':
            self.do(eng, st, ins, args[1][1], 'remove')
            return [Outcome('ret', None, st)]
        if sname.startswith(L + 'LogStream::~'):
            return self.destroy(eng, st, ins, args[0][1], sname)
        return None

    def destroy(self, eng, st, ins, v, vn):
        if 'Output' not in vn.rsplit('::', 1)[0]:
            if not self.outputs_done(st):
                eng.report(ins, 'a log stream is destroyed before the outputs are shut down')
        self.do(eng, st, ins, v, 'delete')
        return [Outcome('ret', None, st)]

    def outputs_done(self, st):
        outs = [o for o, k in self.maps.items() if k == 'outputs']
        return all((o, 'end') in st.mon[1][1] for o in outs)

    def vcall(self, eng, st, ins, vn, args, targets):
        if '::~' in vn:
            return self.destroy(eng, st, ins, args[0][1], vn)
        return None


def manager_maps(p):
    """{offset: 'outputs' | 'streams'} and the offset of the default output, from the types of the members"""
    maps, default = {}, None
    for m in p.flat_members(p.cls(L + 'LoggingManager')):
        t = m[3].replace(' ', '')
        if re.search(r'[mM]ap<', t):
            if t.endswith('LogOutputStream*>'):
                maps[m[1]] = 'outputs'
            elif t.endswith('LogStream*>'):
                maps[m[1]] = 'streams'
        elif t.endswith('LogOutputStream*'):
            default = m[1]
    if sorted(maps.values()) != ['outputs', 'streams'] or default is None:
        raise Broken('the lists of outputs and log streams of the LoggingManager were not found')
    return maps, default


def l02_shutdown(ctx, p):
    rule = 'shutdown'
    maps, default = manager_maps(p)
    lm = ManagerRule.LM
    this = ('p', lm, 0)
    f = one(p.find(L + 'LoggingManager::shutdown'), 'shutdown')[0]
    where, name = p.fwhere(f), 'LoggingManager::shutdown'
    r = ManagerRule(p)
    r.maps = maps
    e = Engine(p, r)
    n = 0
    dv = ('s', ('ld', lm, default, 0))
    for o in e.explore(f, [this], ((), ((), ()))):
        if o.kind != 'ret':
            continue
        n += 1
        stages, marks = o.st.mon[1]
        for c, k in sorted(maps.items()):
            for w, t in (('end', 'destroyed'), ('clear', 'forgotten')):
                if (c, w) not in marks:
                    ctx.violation(rule, where, name, 'not all %s are %s' % (k.replace('streams', 'log streams'), t))
        isnull = e.decide_icmp(o.st, 'eq', dv, NULL, 64)
        done = dict(stages).get(dv, ())
        if isnull is None or isnull is False:
            for w in ('remove', 'shutdown', 'delete'):
                if done.count(w) < 1 or w == 'delete' and done.count(w) > 1:
                    ctx.violation(rule, where, name, 'the default output is not removed from the log streams, shut down and destroyed')
                    break
            if e.mload(o.st, ('p', lm, default), 8, None) not in (NULL, I(0)):
                ctx.violation(rule, where, name, 'the destroyed default output is still used')
        elif done:
            ctx.violation(rule, where, name, 'uses a default output which does not exist')
    if not n:
        ctx.violation(rule, where, name, 'never returns')
    ctx.ok(rule, name)
    ctx.take(e, rule)

    # an output is removed from every log stream
    f = one(p.find(L + 'LoggingManager::removeLogOutputStream'), 'removeLogOutputStream')[0]
    where, name = p.fwhere(f), 'LoggingManager::removeLogOutputStream'
    r = RemoveRule(p)
    r.maps = maps
    e = Engine(p, r)
    a = [this, ('p', ('o', ('s', 'out')), 0), ('s', ('arg', 2))]
    r.out = a[1]
    for o in e.explore(f, a, ((), ((), ()))):
        if o.kind != 'ret':
            continue
        streams = [c for c, k in maps.items() if k == 'streams'][0]
        if (streams, 'end') not in o.st.mon[1][1]:
            ctx.violation(rule, where, name, 'the output is not removed from all log streams')
        fl = truth(e, o.st, a[2])
        if fl is None or fl != ('erase' in dict(o.st.mon[1][0]).get('list', ())):
            ctx.violation(rule, where, name, 'the output is not removed from the list of outputs exactly when this is requested')
    ctx.ok(rule, name)
    ctx.take(e, rule)

    # sets of outputs of a log stream
    for n, op in (('addOutputStream', 'insert'), ('removeOutputStream', 'erase')):
        f = one(p.find(L + 'LogStream::' + n), n)[0]
        r = SetRule()
        e = Engine(p, r)
        a = [('p', ('o', ('s', 'ls')), 0), ('s', ('arg', 1))]
        for o in e.explore(f, a, ()):
            if o.kind == 'ret' and o.st.mon != ((op, a[1]),):
                ctx.violation(rule, p.fwhere(f), 'LogStream::' + n, 'does not %s exactly the given output' % {'insert': 'add', 'erase': 'remove'}[op])
        ctx.ok(rule, 'LogStream::' + n)
        ctx.take(e, rule)


class RemoveRule(ManagerRule):
    def on_next(self, eng, st, ins, cont, handled):
        d = dict(st.mon[1][0])
        done = d.pop(('elem', cont), ())
        st.mon = (st.mon[0], (tuple(sorted(d.items(), key=repr)), st.mon[1][1]))
        if self.maps[cont] == 'streams' and 'gone' not in done:
            eng.report(ins, 'a log stream is skipped: it still writes to the output')

    def cont_other(self, eng, st, ins, name, cont, args):
        if name in ('erase', 'clear'):
            d = dict(st.mon[1][0])
            d['list'] = d.get('list', ()) + ('erase' if self.maps[cont] == 'outputs' and name == 'erase' else 'other',)
            st.mon = (st.mon[0], (tuple(sorted(d.items(), key=repr)), st.mon[1][1]))
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, name)), st)]
        return None

    def other(self, eng, st, ins, sname, fn, args):
        if sname == L + 'LogStream::removeOutputStream':
            cont = self.is_elem(args[0][1])
            if args[1][1] == self.out and cont is not None:
                d = dict(st.mon[1][0])
                d[('elem', cont)] = ('gone',)
                st.mon = (st.mon[0], (tuple(sorted(d.items(), key=repr)), st.mon[1][1]))
            else:
                eng.report(ins, 'another output than the given one is removed')
            return [Outcome('ret', None, st)]
        if sname == L + 'LogOutputStream::name':
            fresh(eng, st, ins)
            return [Outcome('ret', None, st)]
        return None


class SetRule(Rule):
    def rename(self, eng, mon, f):
        return tuple((o, mapval(f, v)) for o, v in mon)

    def mon_values(self, mon):
        return [v for o, v in mon]

    def call(self, eng, st, ins, sname, fn, args):
        short = sname.rsplit('::', 1)[-1]
        if sname == L + 'Semaphore::wait':
            return [Outcome('ret', I(1), st)]
        if sname == L + 'Semaphore::post':
            return [Outcome('ret', None, st)]
        if re.match(r'std::(__cxx11::)?(set|unordered_set|list|vector)::', sname) and short in ('insert', 'erase', 'push_back', 'remove', 'clear', 'emplace'):
            v = args[1][1] if len(args) > 1 else ('?',)
            q = eng.as_ptr(v)
            if q is not None and q[0][0] == 'a':
                v = eng.mload(st, v, 8, ins)
            st.mon = st.mon + (({'push_back': 'insert', 'emplace': 'insert', 'remove': 'erase'}.get(short, short), v),)
            fresh(eng, st, ins)
            return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx, short)), st)]
        return None


def l02(ctx):
    ctx.rule('delivery', 'every message written to a log stream reaches every connected output of sufficient level exactly once, unchanged')
    ctx.rule('worker', 'the worker thread of an output writes every message of its queue exactly once, also those which are left when it is stopped')
    ctx.rule('thread streams', 'a thread only gets a thread stream which is its own for that level, or which is free or new and is assigned to it')
    ctx.rule('shutdown', 'outputs are removed from the log streams, shut down and destroyed, once each and in this order, before the log streams')
    p = ctx.load(['icl_core_logging', 'icl_core'], ['logapi'])
    l02_flush(ctx, p)
    w = l02_worker(ctx, p)
    if w:
        l02_push(ctx, p, *w)
        l02_lifecycle(ctx, p, w[0], w[1])
    l02_own(ctx, p)
    l02_shutdown(ctx, p)
