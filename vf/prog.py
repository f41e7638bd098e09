"""Whole-program view over the parsed IR modules: linking, demangled names,
class layouts (from the debug info), vtables and class hierarchy."""
import re
import subprocess
from . import build
from .llparse import Module, ParseError


def strip_templates(s):
    """a::B<x, y>::f -> a::B::f   (leaves operator<, <<, -> etc. alone)"""
    out = []
    i = 0
    n = len(s)
    depth = 0
    while i < n:
        if depth == 0 and s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator(\(\)|\[\]|->\*|->|<=>|<<=|>>=|<<|>>|<=|>=|<|>|[-+*/%^&|~!=]=?|&&|\|\|)', s[i:])
            if m:
                out.append(m.group(0))
                i += m.end()
                continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>' and depth:
            if s[i - 1] != '-':
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def short(name):
    s = strip_templates(name)
    s = s.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    s = s.replace('(anonymous namespace)', '{anon}')
    return s


class ClassInfo(object):
    def __init__(self, ident, name, size, file, line):
        self.ident = ident
        self.name = name
        self.size = size
        self.file = file
        self.line = line
        self.members = []       # (name, offset, size, typename, kind)
        self.bases = []         # (offset, ident, name)
        self.virtuals = {}      # vtable index -> method name
        self.complete = False
        self.methods = []       # DWARF nodes of the declared member functions


class Program(object):
    def __init__(self, irlist):
        self.modules = [Module(t, s) for s, t in irlist]
        self.funcs = {}
        for m in self.modules:
            for n, f in m.funcs.items():
                if f.linkage in ('internal', 'private'):
                    continue
                o = self.funcs.get(n)
                if o is None or o.linkage == 'available_externally':
                    self.funcs[n] = f
        self.gdefs = {}
        for m in self.modules:
            for g, txt in m.globals.items():
                if txt.startswith(('private', 'internal')):
                    continue
                ext = txt.startswith(('external', 'extern_weak', 'available_externally'))
                if g not in self.gdefs or (self.gdefs[g][1] and not ext):
                    self.gdefs[g] = (m, ext)
        # aliases (mostly complete-object constructors)
        for m in self.modules:
            for g, txt in m.globals.items():
                a = re.search(r'\balias\b.*,\s*ptr @("[^"]+"|[^\s,]+)', txt)
                if a and g not in self.funcs:
                    tgt = a.group(1).strip('"')
                    if tgt in self.funcs:
                        self.funcs.setdefault(g, self.funcs[tgt])
        self._demangle()
        self._classes = None
        self._vt = None

    # ---------------------------------------------------------- names
    def _demangle(self):
        names = set()
        for m in self.modules:
            names.update(m.funcs)
            names.update(m.decls)
            for g in m.globals:
                if g.startswith('_Z'):
                    names.add(g)
        names = sorted(names)
        inp = '\n'.join(names) + '\n'
        full = subprocess.run(['llvm-cxxfilt'], input=inp, stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout.split('\n')
        nop = subprocess.run(['llvm-cxxfilt', '-p'], input=inp, stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout.split('\n')
        self.full = dict(zip(names, full))
        self.tname = dict(zip(names, nop))
        self._short = {}

    def sname(self, mangled):
        s = self._short.get(mangled)
        if s is None:
            s = short(self.tname.get(mangled, mangled))
            if s.startswith('non-virtual thunk to ') or s.startswith('virtual thunk to '):
                s = s.split(' to ', 1)[1]
            self._short[mangled] = s
        return s

    def fullname(self, mangled):
        return self.full.get(mangled, mangled).replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string').replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')

    def param_list(self, mangled):
        """([parameter type, ...], is const member) from the demangled name, None if not C++"""
        f = self.full.get(mangled)
        if f is None or '(' not in f:
            return None
        const = f.endswith(' const')
        if const:
            f = f[:-6]
        if not f.endswith(')'):
            return None
        depth = 0
        i = len(f) - 1
        while i >= 0:
            if f[i] in ')>' and not (f[i] == '>' and f[i - 1] == '-'):
                depth += 1
            elif f[i] in '(<':
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        ps = f[i + 1:-1]
        out, cur, d = [], '', 0
        for c in ps:
            if c in '<([':
                d += 1
            elif c in '>)]':
                d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out, const

    STDSIZE = {'basic_string': 32, 'list': 24, '_List_base': 24, 'vector': 24, '_Vector_base': 24, 'map': 48, 'set': 48,
               'multimap': 48, 'multiset': 48, '_Rb_tree': 48, 'deque': 80}

    def this_size(self, mangled, n, ty):
        """Size of *this of a member function of a standard container (argument n of the IR call), else None."""
        k = (mangled, n)
        if not hasattr(self, '_ths'):
            self._ths = {}
        if k not in self._ths:
            r = None
            m = re.match(r'std::(\w+)::', self.sname(mangled))
            if m and m.group(1) in self.STDSIZE and '(' in self.full.get(mangled, ''):
                pl = self.param_list(mangled)
                f = self.funcs.get(mangled)
                sret = 1 if f is not None and getattr(f, 'sret', False) else 0
                if pl is not None and n == sret:
                    r = self.STDSIZE[m.group(1)]
            self._ths[k] = r
        return self._ths[k]

    def lookup(self, mod, name):
        f = mod.funcs.get(name) if mod is not None else None
        if f is not None and f.linkage != 'available_externally':
            if f.linkage in ('internal', 'private'):
                return f
        return self.funcs.get(name)

    def find(self, sname):
        """All defined functions with the given short name."""
        if not hasattr(self, '_bys'):
            d = {}
            for n, f in self.funcs.items():
                if f.name == n:
                    d.setdefault(self.sname(n), []).append(f)
            for m in self.modules:
                for n, f in m.funcs.items():
                    if f.linkage in ('internal', 'private'):
                        d.setdefault(self.sname(n), []).append(f)
            # the complete-object constructor/destructor is the interesting one
            self._bys = d
        fs = self._bys.get(sname, [])
        out = []
        for f in fs:
            n = f.name
            # base-object variants that only duplicate the complete-object one
            if re.search(r'D0Ev$', n):
                continue
            if re.search(r'C1E', n) and re.sub(r'C1E', 'C2E', n) in self.funcs and len(f.lines) < 12:
                continue
            if re.search(r'D1Ev$', n) and re.sub(r'D1Ev$', 'D2Ev', n) in self.funcs and len(f.lines) < 12:
                continue
            out.append(f)
        return out

    def _sigtypes(self, m, ed):
        t = ed.get('type')
        if not t:
            return ()
        tn = m.node(t[1:])
        ts = tn.get('types')
        if not ts:
            return ()
        return tuple(self._type(m, '!' + e if not e.startswith('!') else e)[0] if e else 'void'
                     for e in m.node(ts[1:])['elems'])

    def special(self, cls, kind):
        """Complete-object constructors ('C') or destructors ('D') of a class."""
        base = cls.split('::')[-1]
        s = cls + '::' + ('~' if kind == 'D' else '') + base
        if not hasattr(self, '_bys'):
            self.find('')
        fs = self._bys.get(s, [])
        out = {}
        for f in fs:
            m = re.search(r'(C[12]|D[012])(?=E)', f.name)
            ms = [x for x in re.finditer(r'(C[12]|D[012])(?=E)', f.name)]
            if not ms:
                continue
            m = ms[0] if kind == 'C' else ms[-1]
            v = m.group(1)
            if v == 'D0':
                continue
            key = f.name[:m.start()] + f.name[m.end():]
            trap = 'llvm.trap' in ''.join(f.lines) and len(f.lines) < 8    # complete-object variant of an abstract class
            if key not in out or (v[1] == '1' and not trap) or 'llvm.trap' in ''.join(out[key].lines) and len(out[key].lines) < 8:
                out[key] = f
        return list(out.values())

    def iter_funcs(self):
        for n, f in self.funcs.items():
            if f.name == n:
                yield f
        for m in self.modules:
            for n, f in m.funcs.items():
                if f.linkage in ('internal', 'private'):
                    yield f

    def file_of(self, f):
        if f.dbg is None:
            return '?'
        return self.rel(f.mod.scope_file(f.dbg))

    def line_of(self, f):
        d = f.mod.node(f.dbg) if f.dbg is not None else None
        return int(d.get('line', 0)) if d else 0

    def rel(self, fn):
        for p in (build.SRC + '/', build.HERE + '/', build.REPO + '/'):
            if fn.startswith(p):
                return fn[len(p):]
        return fn

    def where(self, ins):
        f, l = ins.fn.mod.loc(ins.dbg)
        return '%s:%d' % (self.rel(f), l)

    def fwhere(self, f):
        return '%s:%d' % (self.file_of(f), self.line_of(f))

    def in_repo(self, f):
        d = f.mod.node(f.dbg) if f.dbg is not None else None
        if not d:
            return False
        fn = f.mod.scope_file(f.dbg)
        return fn.startswith(build.REPO + '/')

    # ---------------------------------------------------------- globals
    def ginit(self, mod, name):
        """(module, dict) of the definition of a global"""
        if mod is not None and name in mod.globals:
            txt = mod.globals[name]
            if txt.startswith(('private', 'internal')):
                return mod, mod.global_init(name)
        d = self.gdefs.get(name)
        if d is None:
            return None, None
        return d[0], d[0].global_init(name)

    # ---------------------------------------------------------- vtables
    def _load_vt(self):
        self._vt = {}      # typeid -> [(module, vtable global, offset)]
        for m in self.modules:
            for g, txt in m.globals.items():
                if g.startswith('_ZTV') and '!type' in txt and not txt.startswith('external'):
                    if self.gdefs.get(g, (m,))[0] is not m:
                        continue
                    gi = m.global_init(g)
                    for off, tid in gi['types']:
                        self._vt.setdefault(tid, []).append((m, g, off))

    def vtable_slot(self, mod, g, off):
        """function symbol stored at byte offset off of vtable global g"""
        m, gi = self.ginit(mod, g)
        if gi is None or gi.get('init') is None:
            return None
        return self._read_const_fn(m, gi['ty'], gi['init'], off)

    def _read_const_fn(self, m, ty, init, off):
        v = self.read_const(m, ty, init, off)
        if v and v[0] == 'g':
            return v[1]
        return None

    def read_const(self, m, ty, init, off):
        ty = m.resolve(ty)
        if init[0] == 'zero':
            return ('i', 0)
        if ty[0] == 'struct':
            if init[0] != 'agg':
                return None
            offs, size = m.layout(ty)
            for i in range(len(offs) - 1, -1, -1):
                if off >= offs[i]:
                    return self.read_const(m, ty[2][i], init[1][i][1], off - offs[i])
            return None
        if ty[0] == 'arr':
            es = m.size(ty[2])
            i = off // es
            if i >= ty[1] or i < 0:
                return None
            if init[0] == 'str':
                return ('i', init[1][i])
            if init[0] != 'agg':
                return None
            return self.read_const(m, ty[2], init[1][i][1], off - i * es)
        if off == 0:
            return init
        return None

    def cha(self, typeid, off):
        """Possible targets of a virtual call through slot offset `off` of static class typeid."""
        if self._vt is None:
            self._load_vt()
        out = []
        for m, g, base in self._vt.get(typeid, []):
            fn = self.vtable_slot(m, g, base + off)
            if fn and fn != '__cxa_pure_virtual' and fn != '__cxa_deleted_virtual':
                if fn not in out:
                    out.append(fn)
        return out

    # ---------------------------------------------------------- classes
    def classes(self):
        """qualified name -> ClassInfo (complete definition if there is one)"""
        if self._classes is None:
            self._classes = {}
            for m in self.modules:
                for n, txt in m.md.items():
                    if 'DICompositeType(tag: DW_TAG_class_type' in txt or 'DICompositeType(tag: DW_TAG_structure_type' in txt:
                        decl = 'DIFlagFwdDecl' in txt
                        q = self._qual(m, n)
                        c = self._classes.get(q)
                        if c is not None and (c.complete or decl):
                            continue
                        self._classes[q] = self._mkclass(m, n, q, decl)
        return self._classes

    def typeid_class(self, tid):
        if not hasattr(self, '_tid'):
            self._tid = {}
        q = self._tid.get(tid)
        if q is None:
            q = subprocess.run(['llvm-cxxfilt', tid], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip()
            q = q.replace('typeinfo name for ', '').replace('std::__cxx11::', 'std::')
            self._tid[tid] = q
        return q

    def _mkclass(self, m, n, q, decl):
        d = m.node(n)
        fn = m.scope_file(n)
        c = ClassInfo(q, d.get('name', '?'), int(d.get('size', 0)) // 8, self.rel(fn), int(d.get('line', 0)))
        c.complete = not decl
        c.struct = 'structure' in d.get('tag', '')
        c.qname = q
        if decl:
            return c
        el = d.get('elements')
        if el:
            for e in m.node(el[1:])['elems']:
                if e is None:
                    continue
                ed = m.node(e)
                tag = ed.get('tag')
                if ed['_kind'] == 'DIDerivedType' and tag == 'DW_TAG_member':
                    if 'DIFlagStaticMember' in ed.get('flags', ''):
                        continue
                    tn, tk, ts = self._type(m, ed.get('baseType'))
                    c.members.append((ed.get('name', ''), int(ed.get('offset', 0)) // 8, int(ed.get('size', 0)) // 8 or ts, tn, tk))
                elif ed['_kind'] == 'DIDerivedType' and tag == 'DW_TAG_inheritance':
                    br = ed['baseType'][1:]
                    bt = m.node(br)
                    while bt.get('_kind') == 'DIDerivedType' and 'baseType' in bt:
                        br = bt['baseType'][1:]
                        bt = m.node(br)
                    c.bases.append((int(ed.get('offset', 0)) // 8, self._qual(m, br), bt.get('name'),
                                    'DIFlagVirtual' in ed.get('flags', '')))
                elif ed['_kind'] == 'DISubprogram':
                    c.methods.append(dict(ed, types=self._sigtypes(m, ed)))
                if ed['_kind'] == 'DISubprogram' and 'virtualIndex' in ed:
                    c.virtuals[int(ed['virtualIndex'])] = ed.get('name')
                    if (ed.get('name') or '').startswith('~'):
                        # complete object and deleting destructor
                        c.virtuals[int(ed['virtualIndex']) + 1] = ed.get('name')
        return c

    def _qual(self, m, n):
        parts = []
        d = m.node(n)
        k = 0
        while d and k < 20:
            nm = d.get('name')
            if nm and d['_kind'] in ('DICompositeType', 'DINamespace', 'DISubprogram'):
                parts.append(nm)
            sc = d.get('scope')
            if not sc:
                break
            d = m.node(sc[1:])
            k += 1
        parts = [p for p in parts if p != '__cxx11']
        return '::'.join(reversed(parts))

    def _type(self, m, ref):
        """(name, kind, size) ; kind in scalar/pointer/reference/class/array/?"""
        if not ref or ref == 'null':
            return ('void', 'void', 0)
        d = m.node(ref[1:])
        k = d['_kind']
        size = int(d.get('size', 0)) // 8
        tag = d.get('tag', '')
        if k == 'DIBasicType':
            return (d.get('name', '?'), 'scalar', size)
        if k == 'DIDerivedType':
            if tag == 'DW_TAG_pointer_type':
                n, _, _ = self._type(m, d.get('baseType'))
                return (n + '*', 'pointer', 8)
            if tag in ('DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
                n, _, _ = self._type(m, d.get('baseType'))
                return (n + '&', 'reference', 8)
            if tag == 'DW_TAG_ptr_to_member_type':
                return ('memptr', 'memptr', size)
            n, kk, s = self._type(m, d.get('baseType'))
            if tag == 'DW_TAG_typedef':
                return (n, kk, s)
            return (n, kk, s)
        if k == 'DICompositeType':
            if tag == 'DW_TAG_array_type':
                n, kk, s = self._type(m, d.get('baseType'))
                return (n + '[]', 'array:' + kk, size)
            if tag == 'DW_TAG_enumeration_type':
                return (self._qual(m, ref[1:]), 'scalar', size)
            if tag == 'DW_TAG_union_type':
                return (self._qual(m, ref[1:]), 'union', size)
            return (self._qual(m, ref[1:]), 'class', size)
        if k == 'DISubroutineType':
            return ('function', 'function', 0)
        return ('?', '?', size)

    def cls(self, qname):
        """Complete class by qualified name"""
        c = self.classes().get(qname)
        return c if c is not None and c.complete else None

    def cls_all(self, rx):
        return [c for c in self.classes().values() if c.complete and re.match(rx, c.qname)]

    def flat_members(self, c, base=0, depth=0):
        """[(name, off, size, type, kind, owner)] including bases"""
        out = []
        for off, ident, nm, virt in c.bases:
            b = self.classes().get(ident)
            if b and not virt and depth < 8:
                out += self.flat_members(b, base + off, depth + 1)
        for nm, off, size, tn, tk in c.members:
            out.append((nm, base + off, size, tn, tk, c))
        return out

    def field(self, qname, name):
        c = self.cls(qname)
        if c is None:
            return None
        for f in self.flat_members(c):
            if f[0] == name:
                return f
        return None

    def vname(self, typeid, index):
        c = self.classes().get(self.typeid_class(typeid))
        seen = set()
        todo = [c]
        while todo:
            c = todo.pop()
            if c is None or c.ident in seen:
                continue
            seen.add(c.ident)
            if index in c.virtuals:
                return c.qname + '::' + c.virtuals[index]
            for b in c.bases:
                todo.append(self.classes().get(b[1]))
        return None


def load(modules=(), inst=(), only=None, extra=()):
    return Program(build.compile_ir(modules, inst, only, extra))
