"""Properties decided over the whole library: C06 superseded names, H01 headers, C14 ownership and copying,
C04 initialisation, C12 reentrancy."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import build
from ..absint import AnalysisLimit, Unsupported
from .common import *

ALL = ['icl_core', 'icl_core_thread', 'icl_core_logging', 'icl_core_config', 'icl_core_plugin', 'icl_core_performance_monitor',
       'icl_core_dispatch', 'icl_core_crypt']
CTORCALL = re.compile(r'(^|::)(\w+)(<.*>)?::(\2|~\2)$')


def short_type(t):
    return re.sub(r'std::__cxx11::', 'std::', t)


def untemplate(q):
    """Removes template arguments."""
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return r
        q = r


def plain_type(q):
    return re.sub(r'__cxx11::|\s', '', q)


# ---------------------------------------------------------------- C06
class ForwardRule(Rule):
    """mon = (calls of the counterpart, ((copy, original), ...))"""
    join_limit = 16
    max_steps = 60000

    def __init__(self, p, names):
        self.p, self.names = p, names

    def inline(self, eng, fn, sname):
        return self.p.in_repo(fn) and len(self.eng.stack) < 4

    def call(self, eng, st, ins, sname, fn, args):
        if ins.x['callee'][1] in self.names:
            if ins.idx in st.defd:
                eng.redefine(st, ins.idx)
                args = eng.reeval(ins.fn, ins, st)
            st.defd = st.defd | {ins.idx}
            ret = ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None
            st.mon = (st.mon[0] + ((ins.x['callee'][1], tuple(a[1] for a in args), ret),), st.mon[1])
            return [Outcome('ret', ret, st)]
        m = re.search(r'(\w+)(<.*>)?::(\w+)$', sname)
        if m and len(args) >= 2 and (m.group(3) == m.group(1) or m.group(3).startswith('basic_string')) and args[0][0] == ('ptr',) and args[1][0] == ('ptr',):
            st.mon = (st.mon[0], st.mon[1] + ((args[0][1], args[1][1]),))
        return None

    def vcall(self, eng, st, ins, vn, args, targets):
        if any(t in self.names for t in targets or ()):
            ret = ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None
            st.mon = (st.mon[0] + ((targets[0], tuple(a[1] for a in args), ret),), st.mon[1])
            return [Outcome('ret', ret, st)]
        return None

    def rename(self, eng, mon, f):
        return tuple(mapval(f, x) for x in mon)


class SummaryRule(QuietRule):
    """mon = calls in order"""
    join_limit = 16
    max_steps = 40000

    def inline(self, eng, fn, sname):
        return self.eng.p.in_repo(fn) and len(self.eng.stack) < 5

    def pure_repo(self, sname):
        return False

    def call(self, eng, st, ins, sname, fn, args):
        if ins.x['callee'][0] == 'g' and ins.x['callee'][1].startswith('llvm.'):
            return None
        if fn is not None and fn.lines is not None and self.inline(eng, fn, sname):
            return None
        st.mon = st.mon + ((sname, tuple(a[1] for a in args)),)
        return None


def counterparts(p, f, by):
    """Functions which supersede f: same scope and parameters, other spelling."""
    s = p.sname(f.name)
    scope, _, n = s.rpartition('::')
    want = {n.lower(), 'get' + n.lower(), 'is' + n.lower()}
    pl = p.param_list(f.name)
    return [g for g in by.get(scope, ()) if g.name != f.name and p.sname(g.name).rpartition('::')[2].lower() in want
            and p.sname(g.name).rpartition('::')[2][0].islower() and p.param_list(g.name) == pl]


def paths_of(p, f, names, this):
    """[(calls, return value, copies)]; names are the counterpart functions"""
    e = Engine(p, ForwardRule(p, names))
    outs = e.explore(f, e.default_args(f, this), ((), ()))
    return e, [o for o in outs if o.kind == 'ret']


def c06(ctx):
    ctx.rule('forward', 'a function with a superseded (CamelCase) name calls the function which replaces it exactly once, on the same object, '
                        'with its own arguments in the same order, and returns its result; or it does the same by itself')
    p = ctx.load(ALL, ['templates'])
    by = {}
    fs = []
    seen = set()
    for f in p.iter_funcs():
        if f.lines is None or f.name in seen or not f.name.startswith('_Z'):
            continue
        seen.add(f.name)
        s = p.sname(f.name)
        if not s.startswith('icl_core::'):
            continue
        scope, _, n = s.rpartition('::')
        if n == scope.split('::')[-1] or n.startswith('~'):
            continue
        by.setdefault(scope, []).append(f)
        fs.append(f)
    # also what is only declared (header functions which nobody calls)
    for f in fs:
        s = p.sname(f.name)
        scope, _, n = s.rpartition('::')
        if not re.match(r'[A-Z]\w*[a-z]', n) or not p.in_repo(f) or '{' in n or '<' in n:
            continue
        cand = counterparts(p, f, by)
        if not cand:
            continue
        f.params
        if f.vararg:
            continue
        full, where = p.fullname(f.name), p.fwhere(f)
        member = f.params and f.params[0][1].strip('%') == 'this' or getattr(f, 'sret', False) and len(f.params) > 1 and f.params[1][1].strip('%') == 'this'
        this = ('this', scope) if member else None
        e, outs = paths_of(p, f, set(g.name for g in cand), this)
        want = e.default_args(f, this)
        bad = None
        if not outs:
            bad = 'never returns'
        for o in outs:
            calls, copies = o.st.mon
            copies = dict(copies)
            if len(calls) != 1:
                bad = '%s is called %d times' % (p.fullname(cand[0].name), len(calls)) if calls else 'does not call %s' % p.fullname(cand[0].name)
                break
            got = []
            for a in calls[0][1]:
                k = 0
                while a in copies and k < 3 and a not in want:
                    a = copies[a]
                    k += 1
                got.append(a)
            if got != want:
                bad = 'passes other arguments on to %s' % p.fullname(calls[0][0])
                break
            if f.retty != ('void',) and o.ret != calls[0][2] and o.ret != parts(o.ret, calls[0][2]):
                bad = 'does not return the result of %s' % p.fullname(calls[0][0])
                break
        if bad and not any(o.st.mon[0] for o in outs) and equivalent(p, f, cand[0], this):
            bad = None
        if bad:
            ctx.violation('forward', where, full, bad)
        ctx.ok('forward', full)
        ctx.cover(e)
    ctx.need('forward', 180)


def parts(ret, v):
    """v taken apart and put together again"""
    return ('agg', tuple(('x', 'ev', v, k) for k in range(len(ret[1])))) if ret and ret[0] == 'agg' else v


def equivalent(p, f, g, this):
    """Both functions do the same (same paths, calls, memory and results)."""
    sums = []
    for h in (f, g):
        try:
            e = Engine(p, SummaryRule())
            outs = e.explore(h, e.default_args(h, this), ())
        except Exception:
            return False
        sums.append(sorted(set(repr((o.kind, o.ret, sorted(map(repr, o.st.mem.get(this, {}).items())), o.st.mon)) for o in outs)))
    norm = lambda s: re.sub(r"\('r', \d+, \d+\)", 'r', s)
    return [norm(x) for x in sums[0]] == [norm(x) for x in sums[1]]


# ---------------------------------------------------------------- H01
OTHER = re.compile(r'(Win32|Lxrt\d*|Darwin)\.h$|(^|/)msvc_|_win32_\w+\.h$')


def h01(ctx):
    ctx.rule('selfcontained', 'a translation unit which consists of one public header only compiles')
    ctx.rule('templates', 'every member of the class templates compiles')
    hs = []
    for m in ALL:
        for root, d, files in os.walk(os.path.join(build.SRC, m)):
            for f in sorted(files):
                full = os.path.join(root, f)
                if f.endswith('.h') and not OTHER.search(full):
                    hs.append(os.path.relpath(full, build.SRC))

    def syntax(src, extra=()):
        cmd = ['clang++'] + build.flags(extra) + ['-fsyntax-only', '-x', 'c++', '-']
        r = subprocess.run(cmd, input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return r.returncode, r.stdout

    def loc(out, default):
        m = re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', out, re.M)
        if not m:
            return default, out.strip()[:200]
        f = m.group(1)
        for pre in (build.SRC + '/',):
            if f.startswith(pre):
                f = f[len(pre):]
        return '%s:%s' % (f, m.group(2)), m.group(3)
    with ThreadPoolExecutor(8) as ex:
        for h, (rc, out) in zip(hs, ex.map(lambda h: syntax('#include <%s>\n' % h), hs)):
            ctx.ok('selfcontained', h)
            if rc:
                w, msg = loc(out, h)
                ctx.violation('selfcontained', w, h, 'cannot be included on its own: %s' % msg)
    inst = os.path.join(build.HERE, 'inst', 'templates.cpp')
    src = open(inst).read()
    head, _, tail = src.partition('// instances')
    lines = [l for l in tail.split('\n') if l.strip()]
    names = [re.sub(r'^template class |;$', '', re.sub(r'^(template <.*?> )?struct (\w+).*$', r'\2', l)) for l in lines]
    rc, out = syntax(src)
    for n in names:
        ctx.ok('templates', n)
    if rc:
        rc, out = syntax(head)
        if rc:
            # the class templates cannot be named any more, or a header is broken (reported above)
            if not ctx.findings:
                raise Broken('the public class templates cannot be named: %s' % loc(out, 'inst')[1])
            return
        with ThreadPoolExecutor(8) as ex:
            for name, (rc, out) in zip(names, ex.map(lambda l: syntax(head + '\n' + l + '\n'), lines)):
                if rc:
                    w, msg = loc(out, name)
                    ctx.violation('templates', w, name, 'does not compile when all members are instantiated: %s' % msg)
    ctx.need('selfcontained', 150)
    ctx.need('templates', len(lines))
    ctx.units += len(hs) + len(lines)


# ---------------------------------------------------------------- C04
SCALAR = ('scalar', 'pointer', 'memptr', 'reference')
# handles of the operating system, which are meaningful only together with another member
HANDLE = re.compile(r'^(unsigned long)$')


class InitRule(Rule):
    """mon = names of the members which have been given a value.

    Constructors of bases and members are followed.  Other functions which are handed the object are followed only when
    `deep` is set; functions of other libraries which are handed the address of a member are taken to fill it."""
    join_limit = 24
    max_steps = 80000

    def __init__(self, obj, own, deep):
        self.obj, self.own, self.deep = obj, own, deep
        self.helpers = set()

    def mark(self, st, lo, hi):
        st.mon = st.mon | set(m[0] for m in self.own if lo <= m[1] and m[1] + m[2] <= hi)

    def within(self, eng, v):
        o = eng.as_ptr(v)
        return o[1] if o is not None and o[0] == self.obj and isinstance(o[1], int) else None

    def store(self, eng, st, ins, ptr, val, size):
        if val != ('undef',):
            o = self.within(eng, ptr)
            if o is not None:
                self.mark(st, o, o + size)

    def memset(self, eng, st, ins, dst, val, n):
        o = self.within(eng, dst)
        if o is not None and n[0] == 'i':
            self.mark(st, o, o + n[1])

    def memcpy(self, eng, st, ins, dst, src, n):
        o = self.within(eng, dst)
        if o is not None and n[0] == 'i':
            self.mark(st, o, o + n[1])

    def inline(self, eng, fn, sname):
        return eng.p.in_repo(fn) or bool(CTORCALL.search(sname))

    def call(self, eng, st, ins, sname, fn, args):
        mine = [self.within(eng, v) for t, v in args if t == ('ptr',)]
        mine = [o for o in mine if o is not None]
        if fn is not None and fn.lines is not None and (eng.p.in_repo(fn) or CTORCALL.search(sname)):
            if mine and (CTORCALL.search(sname) and eng.p.in_repo(fn) or self.deep):
                return None
            if mine:
                self.helpers.add(sname)
        elif mine and not CTORCALL.search(sname):
            for o in mine:
                for m in self.own:
                    if m[1] == o:
                        st.mon = st.mon | {m[0]}
        if ins.idx in st.defd:
            eng.redefine(st, ins.idx)
        st.defd = st.defd | {ins.idx}
        return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None, st)]


def c04(ctx):
    ctx.rule('members', 'every constructor gives every scalar, enumeration and pointer member of its object a value on every path')
    p = ctx.load(ALL, ['templates'])
    for q, c in sorted(p.classes().items()):
        if not c.complete or not q.startswith('icl_core::') or '<lambda' in q:
            continue
        own = [m for m in c.members if m[4] in SCALAR and m[2]]
        if not own:
            continue
        for f in p.special(untemplate(q), 'C'):
            obj = ('this', q)
            full = p.fullname(f.name)
            if '<' in q and not plain_type(full).startswith(plain_type(q) + '::'):
                continue
            missing = None
            for deep in (False, True):
                e = Engine(p, InitRule(obj, own, deep))
                try:
                    outs = e.explore(f, special_args(e, f, q, obj), frozenset())
                except (AnalysisLimit, Unsupported):
                    break
                finally:
                    ctx.cover(e)
                missing = [m[0] for m in own if any(o.kind == 'ret' and m[0] not in o.st.mon for o in outs)]
                if not missing or not e.rule.helpers:
                    break
            if missing is None:
                raise Broken('the constructor %s could not be analysed' % full)
            for m in own:
                ctx.ok('members', '%s: %s' % (full, m[0]))
            for nm in missing:
                ctx.violation('members', p.fwhere(f), full, 'the member %s is not initialised' % nm, key='members|%s|%s' % (full, nm))
    ctx.need('members', 100)
