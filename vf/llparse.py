"""Parser for the textual LLVM IR (LLVM 18) that clang produces from /repo.

Only the subset of the language which clang emits for C++ on x86-64 Linux is
supported.  Functions are parsed lazily.  Anything the parser does not know
raises ParseError: an unknown construct must never be silently skipped.
"""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''
    \s+
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"])*"|[-\w.$]+))
  | (?P<glob>@(?:"(?:[^"])*"|[-\w.$]+))
  | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-\w.$]+|\{)?)
  | (?P<attr>\#\d+)
  | (?P<comdat>\$(?:"(?:[^"])*"|[-\w.$]+))
  | (?P<flt>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?)
  | (?P<num>-?\d+)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<ell>\.\.\.)
  | (?P<pun>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('cannot tokenize: %r' % s[pos:pos + 80])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ---------------------------------------------------------------- types
# ('int',n) ('ptr',) ('void',) ('fp',name,size) ('arr',n,t) ('vec',n,t)
# ('struct',packed,(t,...)) ('named',name) ('md',) ('label',) ('token',) ('fn',ret,args,vararg)
FP = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}


class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r, got %r in %r' % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))

    def done(self):
        return self.i >= len(self.t)

    # -- types
    def try_type(self):
        k, v = self.peek()
        if k == 'loc':
            return True
        if k == 'pun' and v in '[{<':
            return True
        if k == 'word' and (v in FP or v in ('ptr', 'void', 'metadata', 'label', 'token', 'opaque') or re.match(r'i\d+$', v)):
            return True
        return False

    def type(self):
        k, v = self.next()
        t = None
        if k == 'word':
            if v == 'ptr':
                t = ('ptr',)
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
            elif v == 'void':
                t = ('void',)
            elif v in FP:
                t = ('fp', v, FP[v])
            elif v == 'metadata':
                t = ('md',)
            elif v == 'label':
                t = ('label',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            elif re.match(r'i\d+$', v):
                t = ('int', int(v[1:]))
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('struct', False, tuple(fs))
        elif v == '<':
            if self.at('{'):
                self.next()
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', True, tuple(fs))
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        if t is None:
            raise ParseError('type expected at %r' % (self.t[self.i - 1:self.i + 6],))
        # function type suffix
        while self.at('(') :
            save = self.i
            self.next()
            args = []
            va = False
            ok = True
            if not self.accept(')'):
                while True:
                    if self.accept('...'):
                        va = True
                    elif self.try_type():
                        args.append(self.type())
                    else:
                        ok = False
                        break
                    if self.accept(')'):
                        break
                    if not self.accept(','):
                        ok = False
                        break
            if not ok:
                self.i = save
                break
            t = ('fn', t, tuple(args), va)
        return t

    # -- values
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('r', v)
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            n = int(v)
            return ('i', n)
        if k == 'flt':
            return ('fl', v)
        if k == 'str':
            return ('str', cstr(v))
        if k == 'md':
            # metadata operand: !"str" or !12 or !{...}
            if v == '!{' or v == '!':
                self._skip_braces(v)
                return ('md', None)
            return ('md', v)
        if k == 'word':
            if v == 'null':
                return ('i', 0)
            if v == 'true':
                return ('i', 1)
            if v == 'false':
                return ('i', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('i', 0)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.at('inrange'):
                    self.next()
                self.expect('(')
                st = self.type(); self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('ce', 'getelementptr', st, tuple(ops))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ce', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select'):
                if v == 'icmp':
                    pred = self.next()[1]
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                ops = []
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('ce', v, tuple(ops))
            if v == 'DIExpression' or v == 'DIArgList':
                self._skip_parens()
                return ('md', None)
            if v == 'asm':
                # inline asm: asm [sideeffect] "..", ".."
                while self.peek()[0] == 'word':
                    self.next()
                self.next(); self.expect(','); self.next()
                return ('asm',)
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            xs = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    xs.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', tuple(xs))
        if v == '<':
            close = '>'
            if self.accept('{'):
                close = '}'
            xs = []
            while True:
                t = self.type()
                xs.append((t, self.value(t)))
                if self.accept(close):
                    break
                self.expect(',')
            if close == '}':
                self.expect('>')
            return ('agg', tuple(xs))
        raise ParseError('value expected at %r' % (self.t[self.i - 1:self.i + 6],))

    def _skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def _skip_braces(self, v):
        if v == '!':
            self.expect('{')
        d = 1
        while d:
            v = self.next()[1]
            if v in ('{', '!{'):
                d += 1
            elif v == '}':
                d -= 1

    def skip_param_attrs(self):
        """Skips parameter/return attributes."""
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR:
                self.next()
                if v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                         'elementtype', 'preallocated', 'inalloca', 'nofpclass', 'memory', 'captures', 'range',
                         'alignstack', 'allockind', 'allocsize', 'vscale_range'):
                    if self.at('('):
                        self._skip_parens()
                    elif v == 'align':
                        self.next()
            elif k == 'str' and True:
                self.next()
                if self.accept('='):
                    self.next()
            elif k == 'attr':
                self.next()
            else:
                return


PATTR = set('''zeroext signext noext inreg byval byref preallocated inalloca sret elementtype align noalias nocapture nofree nest
returned nonnull dereferenceable dereferenceable_or_null swiftself swiftasync swifterror immarg noundef nofpclass
alignstack allocalign allocptr readnone readonly writeonly range captures inreg
noreturn nounwind nobuiltin builtin cold hot noinline alwaysinline optsize minsize mustprogress willreturn nosync
dead_on_unwind writable memory speculatable strictfp convergent returns_twice allocsize allockind'''.split())

LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
dso_local dso_preemptable default hidden protected dllimport dllexport thread_local unnamed_addr local_unnamed_addr
externally_initialized ccc fastcc coldcc tailcc tail musttail notail nnan ninf nsz arcp contract afn reassoc fast'''.split())


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def cstr(v):
    if v.startswith('c'):
        v = v[1:]
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16))
                i += 3
        else:
            out += v[i].encode('utf8')
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- instructions
class Instr(object):
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'idx', 'fn', 'text')

    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.ops = ops
        self.x = x
        self.dbg = None
        self.idx = None
        self.fn = None
        self.text = None

    def __repr__(self):
        return '<%s %s>' % (self.op, self.text)


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

DBG_RE = re.compile(r', !dbg !(\d+)')


def parse_instr(line):
    s = line.strip()
    dbg = None
    m = DBG_RE.search(s)
    if m:
        dbg = int(m.group(1))
    toks = tokenize(s)
    p = P(toks)
    res = None
    if len(toks) > 1 and toks[0][0] == 'loc' and toks[1][1] == '=':
        res = toks[0][1]
        p.i = 2
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    ins = _parse_op(p, op, res)
    ins.dbg = dbg
    ins.text = s
    return ins


def _parse_op(p, op, res):
    if op == 'load' or op == 'store':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        if op == 'load':
            ty = p.type(); p.expect(',')
            pt = p.type(); ptr = p.value(pt)
            return Instr('load', res, ty, (ptr,), {'volatile': vol, 'atomic': atomic})
        ty = p.type(); v = p.value(ty); p.expect(',')
        pt = p.type(); ptr = p.value(pt)
        return Instr('store', None, ty, (v, ptr), {'volatile': vol, 'atomic': atomic})
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = ('i', 1)
        if p.accept(','):
            if p.try_type() and not p.at('align'):
                t = p.type()
                cnt = p.value(t)
        return Instr('alloca', res, ty, (cnt,))
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        ops = []
        while p.accept(','):
            if p.peek()[0] == 'md':
                break
            t = p.type()
            ops.append((t, p.value(t)))
        return Instr('gep', res, st, tuple(ops))
    if op in BINOPS:
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr('bin', res, ty, (a, b), op)
    if op == 'fneg':
        ty = p.type(); a = p.value(ty)
        return Instr('fneg', res, ty, (a,))
    if op == 'freeze':
        ty = p.type(); a = p.value(ty)
        return Instr('freeze', res, ty, (a,))
    if op in CASTS:
        p.accept('nneg')
        ty = p.type(); a = p.value(ty); p.expect('to'); t2 = p.type()
        return Instr('cast', res, t2, (a,), (op, ty))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        pred = p.next()[1]
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b), pred)
    if op == 'select':
        t0 = p.type(); c = p.value(t0); p.expect(',')
        t1 = p.type(); a = p.value(t1); p.expect(',')
        t2 = p.type(); b = p.value(t2)
        return Instr('select', res, t1, (c, a, b))
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty); p.expect(','); lab = p.next()[1]; p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
            if p.peek()[0] == 'md':
                break
        return Instr('phi', res, ty, (), inc)
    if op == 'br':
        t = p.type()
        if t == ('label',):
            return Instr('br', None, None, (), [p.next()[1]])
        c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]
        p.expect(','); p.expect('label'); b = p.next()[1]
        return Instr('br', None, None, (c,), [a, b])
    if op == 'switch':
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); l = p.next()[1]
            cases.append((v[1], l))
        return Instr('switch', None, t, (c,), (d, cases))
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Instr('ret', None, t, ())
        return Instr('ret', None, t, (p.value(t),))
    if op == 'unreachable':
        return Instr('unreachable')
    if op == 'resume':
        t = p.type()
        return Instr('resume', None, t, (p.value(t),))
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while not p.done():
            if p.accept('cleanup'):
                cleanup = True
            elif p.accept('catch'):
                tt = p.type()
                cl.append(('catch', p.value(tt)))
            elif p.accept('filter'):
                tt = p.type()
                cl.append(('filter', p.value(tt)))
            else:
                break
        return Instr('landingpad', res, t, (), (cleanup, cl))
    if op in ('call', 'invoke'):
        while p.peek()[1] in LINK:
            p.next()
        p.skip_param_attrs()
        while p.peek()[1] in LINK:
            p.next()
        p.skip_param_attrs()
        ty = p.type()
        if ty[0] == 'fn':
            ty = ty[1]
        callee = p.value(ty)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek()[0] == 'md' :
                    p.next()
                t = p.type()
                p.skip_param_attrs()
                if t == ('md',):
                    k, v = p.peek()
                    if k == 'md' and v == '!' or v == '!{':
                        p.value(t)
                        args.append((t, ('md', None)))
                    elif k == 'md' and p.peek(1)[1] == '(':
                        p.next(); p._skip_parens()
                        args.append((t, ('md', None)))
                    elif k == 'md':
                        args.append((t, p.value(t)))
                    else:
                        tt = p.type()
                        args.append((t, p.value(tt)))
                else:
                    args.append((t, p.value(t)))
                if p.accept(')'):
                    break
                p.expect(',')
        x = {'callee': callee, 'args': args}
        p.skip_param_attrs()
        if op == 'invoke':
            # attributes / operand bundles until 'to'
            while not p.accept('to'):
                p.next()
            p.expect('label'); x['normal'] = p.next()[1]
            p.expect('unwind'); p.expect('label'); x['unwind'] = p.next()[1]
        return Instr(op, res, ty, (), x)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'md':
                break
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', res, t, (v,), idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(',')
        t2 = p.type(); w = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'md':
                break
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', res, t, (v, w), idx)
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()[1]
        t = p.type(); ptr = p.value(t); p.expect(',')
        t2 = p.type(); v = p.value(t2)
        return Instr('atomicrmw', res, t2, (ptr, v), o)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        t = p.type(); ptr = p.value(t); p.expect(',')
        t2 = p.type(); c = p.value(t2); p.expect(',')
        t3 = p.type(); n = p.value(t3)
        return Instr('cmpxchg', res, t2, (ptr, c, n))
    if op == 'fence':
        return Instr('fence')
    if op == 'va_arg':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type()
        return Instr('va_arg', res, t2, (v,))
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = []
        t0 = None
        while True:
            t = p.type()
            t0 = t0 or t
            ops.append(p.value(t))
            if not p.accept(',') or p.peek()[0] == 'md':
                break
        return Instr(op, res, t0, tuple(ops))
    raise ParseError('unknown instruction %s' % op)


class Function(object):
    def __init__(self, mod, name, header, lines, dbg, linkage):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines          # body lines (None for a declaration)
        self.dbg = dbg
        self.linkage = linkage
        self._blocks = None
        self._params = None
        self.retty = None

    @property
    def params(self):
        if self._params is None:
            self._parse_header()
        return self._params

    def _parse_header(self):
        toks = tokenize(self.header)
        p = P(toks)
        p.next()    # define / declare
        while p.peek()[1] in LINK:
            p.next()
        p.skip_param_attrs()
        while p.peek()[1] in LINK:
            p.next()
        p.skip_param_attrs()
        self.retty = p.type() if not (p.peek()[0] == 'glob') else ('void',)
        assert p.peek()[0] == 'glob', self.header
        p.next()
        p.expect('(')
        params = []
        n = 0
        self.vararg = False
        self.sret = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type()
                    b = p.i
                    p.skip_param_attrs()
                    if any(x[1] == 'sret' for x in p.t[b:p.i]):
                        self.sret = True
                    if p.peek()[0] == 'loc':
                        nm = p.next()[1]
                    else:
                        nm = '%%%d' % n
                    params.append((t, nm))
                    n += 1
                if p.accept(')'):
                    break
                p.expect(',')
        self._params = params

    @property
    def blocks(self):
        """Ordered dict label -> [Instr]"""
        if self._blocks is None:
            self._parse_body()
        return self._blocks

    def _parse_body(self):
        params = self.params
        blocks = {}
        # label of the entry block: number after the last unnamed param
        cur = None
        nun = 0
        for t, nm in params:
            if re.match(r'%\d+$', nm):
                nun += 1
        entry = '%%%d' % nun
        idx = 0
        i = 0
        lines = self.lines
        n = len(lines)
        while i < n:
            line = lines[i]
            i += 1
            if not line.strip():
                continue
            c = line[0]
            if c != ' ' and c != '\t':
                m = re.match(r'("(?:[^"]*)"|[-\w.$]+):', line)
                if m:
                    cur = '%' + m.group(1)
                    blocks[cur] = []
                    continue
                raise ParseError('unexpected line %r' % line)
            # continuation lines of switch / invoke / landingpad
            st = line.strip()
            if st.startswith('switch ') and st.endswith('['):
                while True:
                    l2 = lines[i].strip()
                    i += 1
                    line += ' ' + l2
                    if l2.startswith(']'):
                        break
            elif ' invoke ' in line or st.startswith('invoke '):
                while not re.search(r'unwind label', line):
                    line += ' ' + lines[i].strip()
                    i += 1
            elif ' landingpad ' in line:
                while i < n and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                    line += ' ' + lines[i].strip()
                    i += 1
            if '@llvm.dbg.' in line or '@llvm.lifetime.' in line:
                continue
            if cur is None:
                cur = entry
                blocks[cur] = []
            ins = parse_instr(line)
            ins.idx = idx
            ins.fn = self
            idx += 1
            blocks[cur].append(ins)
        self._blocks = blocks
        self.entry = next(iter(blocks))


class Module(object):
    def __init__(self, text, src):
        self.src = src
        self.funcs = {}
        self.decls = {}
        self.types = {}
        self.globals = {}
        self.md = {}
        self._gcache = {}
        self._mdcache = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '!':
                sp = l.find(' = ')
                if sp > 0:
                    self.md[l[1:sp]] = l[sp + 3:]
            elif c == '%':
                sp = l.index(' = type ')
                self.types[l[:sp]] = l[sp + 8:]
            elif c == '@':
                sp = l.index(' = ')
                self.globals[unq(l[:sp])] = l[sp + 3:]
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = l.rstrip()
                assert hdr.endswith('{')
                m = re.search(r'@("(?:[^"]*)"|[-\w.$]+)\(', hdr)
                name = unq('@' + m.group(1))
                dm = re.search(r' !dbg !(\d+)', hdr)
                # header up to the closing paren of the parameter list
                link = 'external'
                w = l.split()[1]
                if w in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'available_externally', 'linkonce', 'weak'):
                    link = w
                self.funcs[name] = Function(self, name, hdr[:-1], lines[i + 1:j], int(dm.group(1)) if dm else None, link)
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("(?:[^"]*)"|[-\w.$]+)\(', l)
                name = unq('@' + m.group(1))
                self.decls[name] = l
            i += 1
        self._types_parsed = {}

    # -------- types / layout
    def named(self, name):
        t = self._types_parsed.get(name)
        if t is None:
            txt = self.types.get(name)
            if txt is None:
                raise ParseError('unknown type ' + name)
            t = P(tokenize(txt)).type()
            self._types_parsed[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def align(self, t):
        c = self.__dict__.setdefault('_aligns', {})
        r = c.get(t)
        if r is None:
            r = c[t] = self.align_(t)
        return r

    def size(self, t):
        c = self.__dict__.setdefault('_sizes', {})
        r = c.get(t)
        if r is None:
            r = c[t] = self.size_(t)
        return r

    def layout(self, t):
        c = self.__dict__.setdefault('_layouts', {})
        r = c.get(t)
        if r is None:
            r = c[t] = self.layout_(t)
        return r

    def align_(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return t[2]
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[1] or not t[2]:
                return 1
            return max(self.align(x) for x in t[2])
        return 1

    def size_(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return t[2]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.layout(t)[1]
        return 1

    def layout_(self, t):
        t = self.resolve(t)
        offs = []
        o = 0
        ma = 1
        for f in t[2]:
            a = 1 if t[1] else self.align(f)
            ma = max(ma, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
        o = (o + ma - 1) // ma * ma
        return offs, o

    # -------- globals
    def global_init(self, name):
        """-> dict(const=bool, ty=, init=value or None, types=[(off, typeid)])"""
        g = self._gcache.get(name)
        if g is not None:
            return g
        txt = self.globals.get(name)
        if txt is None:
            return None
        toks = tokenize(txt)
        p = P(toks)
        if any(t[1] in ('alias', 'ifunc') for t in toks[:8]):
            g = {'const': True, 'ty': ('ptr',), 'init': None, 'alias': True, 'types': []}
            self._gcache[name] = g
            return g
        ext = False
        tls = False
        while p.peek()[1] in LINK or p.at('('):
            if p.at('('):
                p._skip_parens()
                continue
            if p.peek()[1] in ('external', 'extern_weak', 'available_externally'):
                ext = True
            if p.peek()[1] == 'thread_local':
                tls = True
            p.next()
        kind = p.next()[1]
        if kind not in ('constant', 'global'):
            raise ParseError('global %s: %s' % (name, txt[:100]))
        ty = p.type()
        init = None
        if not p.done() and not p.at(','):
            init = p.value(ty)
        types = re.findall(r', !type !(\d+)', txt)
        tl = []
        for t in types:
            m = re.match(r'!\{i64 (\d+), (?:!"([^"]*)"|!(\d+))\}', self.md[t])
            if m and m.group(2):
                tl.append((int(m.group(1)), m.group(2)))
        dm = re.search(r', !dbg !(\d+)', txt)
        g = {'const': kind == 'constant', 'ty': ty, 'init': init, 'types': tl, 'tls': tls, 'dbg': int(dm.group(1)) if dm else None}
        self._gcache[name] = g
        return g

    # -------- metadata
    def node(self, n):
        """Parses a specialised DI node into a dict ({'_kind':..., key: raw value})"""
        n = str(n)
        d = self._mdcache.get(n)
        if d is not None:
            return d
        txt = self.md.get(n)
        if txt is None:
            return None
        t = txt
        if t.startswith('distinct '):
            t = t[9:]
        d = {}
        if t.startswith('!{'):
            d['_kind'] = 'tuple'
            d['elems'] = re.findall(r'!(\d+)|(null)', t)
            d['elems'] = [a or None for a, b in d['elems']]
        else:
            m = re.match(r'!(\w+)\(', t)
            if not m:
                d['_kind'] = '?'
            else:
                d['_kind'] = m.group(1)
                for km in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]+|[^,()]+(?:\([^)]*\))?)', t[m.end():]):
                    v = km.group(2)
                    if v.startswith('"'):
                        v = v[1:-1]
                    if km.group(1) not in d:
                        d[km.group(1)] = v
        self._mdcache[n] = d
        return d

    def loc(self, dbg):
        """(file, line) of a DILocation / scope"""
        if dbg is None:
            return ('?', 0)
        d = self.node(dbg)
        if d is None:
            return ('?', 0)
        line = int(d.get('line', 0))
        return (self.scope_file(dbg), line)

    def scope_file(self, n):
        seen = 0
        d = self.node(n)
        while d and seen < 50:
            if d['_kind'] == 'DIFile':
                fn = d.get('filename', '?')
                return fn
            if d['_kind'] == 'DILocation':
                d = self.node(d['scope'][1:])
            elif 'file' in d:
                d = self.node(d['file'][1:])
            elif 'scope' in d:
                d = self.node(d['scope'][1:])
            else:
                break
            seen += 1
        return '?'
