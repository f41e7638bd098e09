"""C14: objects which release something cannot be copied by accident, and objects deleted through a base have a virtual destructor."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import build
from ..absint import Engine, AnalysisLimit, Unsupported, Outcome, NULL
from .common import *
from .lints import ALL, CTORCALL, untemplate, plain_type
from .resources import RELEASE, HEAP
from ..core import Broken

NS = ('icl_core::', 'Performance')
UNLOCK = re.compile(r'(Mutex|RWLock|RWLockImpl|MutexImpl)\w*::unlock$|(Sem|Semaphore|SemaphoreImpl)::post$')


def result(eng, st, ins):
    if ins.idx in st.defd:
        eng.redefine(st, ins.idx)
    st.defd = st.defd | {ins.idx}
    return [Outcome('ret', ('s', ('r', eng.cur_path, ins.idx)) if ins.ty != ('void',) else None, st)]


class EndRule(Rule):
    """What a destructor releases: {(member offset or None, how)}"""
    join_limit = 6
    max_steps = 60000

    def __init__(self, q, p):
        self.q, self.found = untemplate(q), {}
        self.dtor = self.q + '::~' + self.q.split('::')[-1]

    def inline(self, eng, fn, sname):
        n = untemplate(sname)
        return n == self.dtor or n.startswith(self.q + '::') and not CTORCALL.search(n)

    def note(self, eng, ins, v, how):
        # the handle itself or the object it lies in
        off = None
        q = eng.as_ptr(v)
        for s in (v, q and q[0]):
            if s is not None and s[0] == 'this' and q:
                off = q[1]
            while isinstance(s, tuple) and s and s[0] in ('s', 'o', 'sext', 'zext', 'x'):
                s = s[1] if s[0] in ('s', 'o') else s[2] if s[0] == 'x' else s[1]
            if isinstance(s, tuple) and len(s) > 2 and s[0] == 'ld' and s[1] == ('this', self.full):
                off = s[2]
        self.found.setdefault((off, how), ins)

    def vcall(self, eng, st, ins, vn, args, targets):
        if vn and '~' in str(vn):
            self.note(eng, ins, args[0][1], 'object')
        elif vn and UNLOCK.search(str(vn)):
            self.note(eng, ins, args[0][1], 'lock')
        return result(eng, st, ins)

    def call(self, eng, st, ins, sname, fn, args):
        r = RELEASE.get(sname)
        if r is not None:
            self.note(eng, ins, args[r[1]][1], r[0])
        elif UNLOCK.search(sname):
            self.note(eng, ins, args[0][1], 'lock')
        elif fn is not None and fn.lines is not None and self.inline(eng, fn, sname):
            return None
        return result(eng, st, ins)


class CopyRule(Rule):
    """A copy must not refer to what the original refers to: no released member may get the value of the same member of the original"""
    join_limit = 128
    max_steps = 200000

    def __init__(self, q, released):
        self.q, self.released = untemplate(q), released

    def inline(self, eng, fn, sname):
        n = untemplate(sname)
        return n.startswith(self.q + '::')

    def class_of(self, obj):
        return self.full if obj in (('this', self.full), ('other', self.full)) else None

    def vcall(self, eng, st, ins, vn, args, targets):
        return result(eng, st, ins)

    def call(self, eng, st, ins, sname, fn, args):
        if fn is not None and fn.lines is not None and self.inline(eng, fn, sname):
            return None
        return result(eng, st, ins)


def copy_ctor(c, m):
    """is the declared method `m` the copy constructor of class `c`?"""
    return m.get('name') == c.name.split('<')[0] and copy_arg(c, m)


def copy_arg(c, m):
    t = m.get('types', ())
    return len(t) >= 3 and t[2].endswith('&') and plain_type(t[2].rstrip('&')).replace('const', '') in (plain_type(c.qname), plain_type(c.name))


def copying(p, c, what, depth=0):
    """'no' (deleted or not accessible), 'own' (written out) or 'member by member'; and what decides it"""
    for m in c.methods:
        if 'DIFlagArtificial' in m.get('flags', ''):
            continue
        if (copy_ctor(c, m) if what == 'copied' else m.get('name') == 'operator=' and copy_arg(c, m)):
            fl, sp = m.get('flags', ''), m.get('spFlags', '')
            default = 'DIFlagPublic' not in fl and 'DIFlagProtected' not in fl and 'DIFlagPrivate' not in fl
            private = 'DIFlagPrivate' in fl or default and not c.struct or 'DIFlagProtected' in fl
            if 'Deleted' in sp:
                return 'no', m
            return ('own', m) if not private else ('no', m)
    for off, ident, nm, virt in c.bases:
        b = p.classes().get(ident)
        if b is not None and b.complete and depth < 8 and hidden(p, b, what, depth + 1):
            return 'no', b
    for nm, off, size, tn, tk in c.members:
        if tk == 'class':
            b = p.classes().get(tn)
            if b is not None and b.complete and depth < 8 and hidden(p, b, what, depth + 1):
                return 'no', b
        if what == 'assigned' and tk == 'reference':
            return 'no', nm
    return 'member by member', None


def hidden(p, b, what, depth):
    """cannot a member or base of class b be copied?"""
    k, by = copying(p, b, what, depth)
    if k == 'no' and isinstance(by, dict) and 'DIFlagProtected' in by.get('flags', '') and 'Deleted' not in by.get('spFlags', ''):
        return False
    return k == 'no'


def c14(ctx):
    ctx.rule('copy', 'an object whose destructor releases what its members refer to cannot be copied member by member')
    ctx.rule('deep', 'a copy does not refer to anything the original releases')
    ctx.rule('virtual', 'an object which is deleted through a base class has a virtual destructor')
    p = ctx.load(ALL, ['templates'])
    ctx.rule('forgotten', 'an object to which a static pointer refers takes the pointer back when it is destroyed')
    own(ctx, p)
    forgotten(ctx, p)
    virtual(ctx, p)
    ctx.need('copy', 10)
    ctx.need('virtual', 8)
    ctx.need('forgotten', 4)


def own(ctx, p):
    for q, c in sorted(p.classes().items()):
        if not c.complete or not q.startswith('icl_core::') or '<lambda' in q:
            continue
        found = {}
        for f in p.special(untemplate(q), 'D'):
            if '<' in q and not plain_type(p.fullname(f.name)).startswith(plain_type(q) + '::'):
                continue
            r = EndRule(q, p)
            r.full = q
            e = Engine(p, r)
            try:
                e.explore(f, special_args(e, f, q, ('this', q)), frozenset())
            except (AnalysisLimit, Unsupported):
                pass
            ctx.cover(e)
            found.update(r.found)
        if not found:
            continue
        for what in ('copied', 'assigned'):
            k, by = copying(p, c, what)
            ctx.ok('copy', '%s: %s' % (q, what))
            ins = sorted(found.items(), key=lambda x: str(x[0]))[0]
            if k == 'member by member':
                ctx.violation('copy', '%s:%d' % (c.file, c.line), q, 'can be %s member by member although its destructor releases what a member refers to (%s at %s)'
                              % (what, ins[0][1], p.where(ins[1])), key='copy|%s|%s' % (q, what))
            elif k == 'own':
                deep(ctx, p, q, c, what, {o for o, how in found if o is not None})


def deep(ctx, p, q, c, what, released):
    base = untemplate(q).split('::')[-1]
    if what == 'copied':
        fs = p.special(untemplate(q), 'C')
    else:
        fs = p.find(untemplate(q) + '::operator=')
    for f in fs:
        full = p.fullname(f.name)
        if '<' in q and not plain_type(full).startswith(plain_type(q) + '::'):
            continue
        a = p.param_list(f.name)
        a = a and a[0]
        if not a or plain_type(a[0]).replace('const', '') != plain_type(q) + '&':
            continue
        r = CopyRule(q, released)
        r.full = q
        e = Engine(p, r)
        args = special_args(e, f, q, ('this', q))
        n = next(i for i, v in enumerate(args) if e.as_ptr(v) is not None and e.as_ptr(v)[0] == ('this', q))
        args[n + 1] = ('p', ('other', q), 0)
        outs = e.explore(f, args, frozenset())
        ctx.cover(e)
        ctx.ok('deep', full)
        for o in outs:
            if o.kind != 'ret':
                continue
            for off in sorted(released):
                v = e.norm(o.st, e.mload(o.st, ('p', ('this', q), off), 8, None))
                w = e.norm(o.st, e.mload(o.st, ('p', ('other', q), off), 8, None))
                if v == w and v != NULL and e.decide_icmp(o.st, 'eq', v, NULL, 64) is not True:
                    nm = next((m[0] for m in p.flat_members(c) if m[1] == off), str(off))
                    ctx.violation('deep', p.fwhere(f), full, 'the copy refers to what the member %s of the original refers to, and both release it' % nm,
                                  key='deep|%s|%s' % (full, nm))


def virtual(ctx, p):
    """The compiler knows the deleted class; it does not know (and does not warn about) bases without any virtual function, which the call of the
    destructor shows."""
    derived = {}
    for q, c in p.classes().items():
        if c.complete:
            for off, ident, nm, virt in c.bases:
                derived.setdefault(ident, set()).add(q)
    for q in sorted(derived):
        c = p.classes().get(q)
        if q.startswith('icl_core::') and c is not None and c.complete:
            ctx.ok('virtual', q)
    for f in p.iter_funcs():
        if f.lines is None or re.search(r'D0Ev$', f.name):
            continue
        gone, freed = {}, {}
        for b in f.blocks.values():
            for i in b:
                if i.op not in ('call', 'invoke') or i.x['callee'][0] != 'g' or not i.x['args']:
                    continue
                n, v = i.x['callee'][1], i.x['args'][0][1]
                if p.sname(n) == 'operator delete':
                    freed[str(v)] = i
                elif re.search(r'D[12]Ev$', n):
                    gone.setdefault(str(v), n)
        for v, i in freed.items():
            full = p.fullname(gone[v]) if v in gone else ''
            q = full.rsplit('::~', 1)[0]
            if q in derived and q.startswith('icl_core::'):
                report(ctx, p.where(i), p.fullname(f.name), q, 'the class %s' % sorted(derived[q])[0])
    jobs = [s for m in ALL for s in build.sources(m)] + [os.path.join(build.HERE, 'inst', 'templates.cpp')]

    def compile_(src):
        cmd = ['clang++'] + [x for x in build.flags() if x != '-w'] + ['-Wno-everything', '-Wdelete-non-virtual-dtor', '-Wdelete-non-abstract-non-virtual-dtor',
                                                                       '-Wdelete-abstract-non-virtual-dtor', '-fsyntax-only', src]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode:
            raise build.BuildError(src, r.stdout)
        return re.findall(r"^(\S+?):(\d+):\d+: warning: delete called on (?:non-final )?'([^']+)'", r.stdout, re.M)
    with ThreadPoolExecutor(8) as ex:
        seen = set()
        for found in ex.map(compile_, jobs):
            for fn, line, q in found:
                w = '%s:%s' % (p.rel(os.path.abspath(fn)), line)
                if (w, q) not in seen:
                    seen.add((w, q))
                    report(ctx, w, w.split(':')[0], q, 'a class with virtual functions')


def report(ctx, where, fn, q, why):
    ctx.violation('virtual', where, fn, 'deletes an object through %s, which is a base of %s and has no virtual destructor' % (q, why)
                  if 'with' not in why else 'deletes an object through %s, %s but without a virtual destructor' % (q, why), key='virtual|%s|%s' % (where.split(':')[0], q))


class ForgetRule(EndRule):
    """mon: has the static pointer been set to something else?"""

    def __init__(self, q, p, g):
        EndRule.__init__(self, q, p)
        self.g = g

    def store(self, eng, st, ins, ptr, val, size):
        q = eng.as_ptr(ptr)
        if q is not None and q[1] == 0 and q[0][0] == 'g' and self.name(q[0][1]) == self.g:
            st.mon = val != ('p', ('this', self.full), 0)

    @staticmethod
    def name(g):
        return g[1] if isinstance(g, tuple) else g


def forgotten(ctx, p):
    """F stores the object it creates in a static pointer G"""
    pairs = {}
    for f in p.iter_funcs():
        if f.lines is None or not p.sname(f.name).startswith(tuple(NS)):
            continue
        new = set()
        for b in f.blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g' and i.res:
                    if p.sname(i.x['callee'][1]) == 'operator new':
                        new.add(i.res.lstrip('%'))
        if not new:
            continue
        for b in f.blocks.values():
            for i in b:
                if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[0][0] == 'r' and str(i.ops[0][1]).lstrip('%') in new:
                    pairs.setdefault((p.fullname(f.name).split('(')[0], p.sname(f.name).rsplit('::', 1)[0], i.ops[1][1], f.mod), i)
    for (fn, q, g, mod), i in sorted(pairs.items(), key=lambda x: str(x[0][:3])):
        c = next((c for n, c in sorted(p.classes().items()) if c.complete and untemplate(n) == untemplate(q)), None)
        d = [m for m in c.methods if (m.get('name') or '').startswith('~') and 'DIFlagArtificial' not in m.get('flags', '')] if c is not None else []
        # (nobody can destroy an object with a private destructor which is not virtual)
        if not any('DIFlagPublic' in m.get('flags', '') or c.struct or 'Virtual' in m.get('spFlags', '') or m.get('virtuality') or 'virtualIndex' in m for m in d):
            continue
        # (an empty destructor is the destructor of the base under another name; only the deleting variant is left)
        fs = p.special(untemplate(q), 'D') or [x for x in p.iter_funcs() if x.lines is not None and x.name.endswith('D0Ev')
                                                   and untemplate(p.sname(x.name)) == untemplate(q) + '::~' + untemplate(q).split('::')[-1]]
        for f in fs:
            r = ForgetRule(c.qname, p, g if not isinstance(g, tuple) else g[1])
            r.full = c.qname
            e = Engine(p, r)
            full = p.fullname(f.name)
            outs = e.explore(f, special_args(e, f, c.qname, ('this', c.qname)), False)
            ctx.cover(e)
            ctx.ok('forgotten', '%s: %s' % (full, fn))
            for o in outs:
                if o.kind == 'ret' and not o.st.mon:
                    v = e.norm(o.st, e.mload(o.st, ('p', ('g', (None, r.g)), 0), 8, None))
                    if e.decide_icmp(o.st, 'eq', v, ('p', ('this', c.qname), 0), 64) is not False:
                        ctx.violation('forgotten', p.fwhere(f), full, 'the static pointer to the object which %s sets (%s) still refers to it afterwards'
                                      % (fn, p.where(i)), key='forgotten|%s' % full)
                        break
