"""L05: a log line reaches the log file, also across rotation."""
import re
from ..absint import Engine, Rule, Outcome, I, NULL
from .common import *
from .strings import *
from .config import quiet, truth_of
from .logs import fresh
from .manager import mentions
from .resources import again
from .outputs import sql_rotation
from ..core import Broken

CLS = 'icl_core::logging::FileLogOutput'
TODAY = ('s', 'today')
DAY = 86400


def result(eng, ins):
    return ('s', ('r', eng.cur_path, ins.idx))


class ZipRule(StrModel):
    """st.mon = (something failed, block which was read and not yet written, end of file seen, file read, file written)"""
    join_limit = 24

    def rename(self, eng, mon, f):
        return tuple(tuple(f(x) for x in m) if isinstance(m, tuple) else m for m in mon)

    def mon_values(self, mon):
        return [x for m in mon if isinstance(m, tuple) for x in m]

    def call(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        failed, block, eof, rd, wr = st.mon
        if sname.startswith('gz'):
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            failed, block, eof, rd, wr = st.mon
        if sname in ('gzopen', 'gzopen64'):
            mode = is_lit(self.chars(eng, st, a[1])) or ''
            name = self.chars(eng, st, a[0])
            own = name == self.chars(eng, st, self.file)
            bad = st.copy()
            obj = ('h', eng.cur_path, ins.idx)
            st.mem[obj] = {}
            st.ver[obj] = (eng.cur_path, ins.idx)
            h = ('p', obj, 0)
            if mode[:1] == 'r':
                if not own:
                    eng.report(ins, 'reads a file which is not the one to be zipped')
                st.mon = (failed, block, eof, (h,), wr)
            else:
                if own:
                    eng.report(ins, 'opens the file which is to be zipped with mode "%s"' % mode)
                if mode[:1] not in ('w', 'x'):
                    eng.report(ins, 'opens the archive with mode "%s", so an old archive is not replaced' % mode)
                st.mon = (failed, block, eof, rd, (h,))
            bad.mon = (True,) + bad.mon[1:]
            return [Outcome('ret', h, st), Outcome('ret', NULL, bad)]
        if sname == 'gzread':
            if rd != (eng.norm(st, a[0]),):
                eng.report(ins, 'reads from something which is not the open file')
                return []
            if block:
                eng.report(ins, 'reads the next block although the previous one was not written')
                return []
            r = result(eng, ins)
            out = []
            for p, k in (('sgt', 'data'), ('eq', 'end'), ('slt', 'error')):
                s = st.copy()
                if not eng.assume_icmp(s, p, r, I(0), 32):
                    continue
                q = eng.as_ptr(a[1])
                if q:
                    eng.havoc_obj(s, q[0], ins)
                s.mon = (failed or k == 'error', (eng.norm(st, a[1]), r) if k == 'data' else None, k == 'end', rd, wr)
                out.append(Outcome('ret', I(0) if k == 'end' else r, s))
            return out
        if sname == 'gzwrite':
            if wr != (eng.norm(st, a[0]),):
                eng.report(ins, 'writes to something which is not the open archive')
                return []
            if not block or eng.norm(st, a[1]) != block[0] or strip(eng.norm(st, a[2])) != strip(block[1]):
                eng.report(ins, 'writes something to the archive which is not the block which was read last')
                return []
            r = result(eng, ins)
            bad = st.copy()
            st.mon = (failed, None, eof, rd, wr)
            bad.mon = (True, None, eof, rd, wr)
            eng.assume_icmp(bad, 'ne', r, block[1], 32)
            return [Outcome('ret', block[1], st), Outcome('ret', r, bad)]
        if sname in ('gzclose', 'gzclose_r', 'gzclose_w'):
            v = eng.norm(st, a[0])
            if rd == (v,):
                st.mon = (failed, block, eof, None, wr)
                return [Outcome('ret', result(eng, ins), st)]
            if wr == (v,):
                bad = st.copy()
                st.mon = (failed, block, eof, rd, None)
                bad.mon = (True, block, eof, rd, None)
                eng.assume_icmp(bad, 'ne', result(eng, ins), I(0), 32)
                return [Outcome('ret', I(0), st), Outcome('ret', result(eng, ins), bad)]
            return quiet(eng, st, ins)
        if sname == 'gzeof':
            r = result(eng, ins)
            out = []
            for t in (True, False) if not eof else (True,):
                s = st.copy()
                s.mon = (failed, block, eof or t, rd, wr)
                out.append(Outcome('ret', I(int(t)), s))
            return out
        return self.str_call(eng, st, ins, sname, args)


def zip_file(ctx, p):
    ctx.rule('zip', 'zipFile() reports success exactly if everything which was read from the file was written to the archive')
    f = one([f for f in p.iter_funcs() if p.sname(f.name) == 'icl_core::os::zipFile'], 'zipFile()')[0]
    r = ZipRule()
    e = r.eng = Engine(p, r)
    seen = set()
    args = e.default_args(f)
    r.file = args[0]
    for o in e.explore(f, args, (False, None, False, None, None)):
        if o.kind != 'ret':
            continue
        failed, block, eof, rd, wr = o.st.mon
        t = truth_of(e, o.st, o.ret)
        if block is not None and not failed:
            why = 'the block which was read last is not written'
        elif failed:
            why = 'an operation failed'
        elif wr is not None:
            why = 'the archive is not closed'
        elif not eof:
            why = 'the end of the file was not reached'
        else:
            why = None
        seen.add((t, why))
        if t is None:
            ctx.violation('zip', p.fwhere(f), p.sname(f.name), 'the result is not decided by what happened', [], key='undecided')
        elif t and why:
            ctx.violation('zip', p.fwhere(f), p.sname(f.name), 'returns true although %s' % why, [], key='true:' + why)
        elif not t and not why:
            ctx.violation('zip', p.fwhere(f), p.sname(f.name), 'returns false although everything was written', [], key='false')
        ctx.ok('zip', '%s: result %s, %s' % (p.fwhere(f), t, why or 'everything was written'))
    ctx.take(e, 'zip')
    ctx.need('zip', 2)


# ---------------------------------------------------------------------- the output stream
OPTIONS = {'/Rotate': 'm_rotate', '/DeleteOlderThan': 'm_delete_older_than_days', '/Flush': 'm_flush', '/Zip': 'm_online_zip', '/FileName': 'm_filename'}


class RoleRule(StrModel):
    """which member holds which option"""
    max_depth = 8

    def __init__(self, this):
        self.this, self.found = this, {}

    def class_of(self, obj):
        return CLS if obj == self.this else None

    def keep(self, obj, off):
        return obj == self.this

    def inline(self, eng, fn, sname):
        return sname.startswith(CLS + '::') and not re.search('otate|expand|open|close', sname)

    def pure_repo(self, sname):
        return True

    def call(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        if sname.startswith('icl_core::config::get') and 'config::detail' not in sname:
            key = [is_lit(parts(self.content(eng, st, v, ins))[-1]) for v in a[:2] if eng.as_ptr(v)]
            key = [OPTIONS[k] for k in key if k in OPTIONS]
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            r = ('s', ('opt', key[0])) if key else result(eng, ins)
            for v in a[1:]:
                q = eng.as_ptr(v)
                if key and q and q[0] == self.this and isinstance(q[1], int):
                    self.found.setdefault(key[0], q[1])
                elif key and q and q[0][0] == 'a' and len(a) == 2 and ins.ty == ('i', 1):
                    eng.mstore(st, v, r, 8)
            return [Outcome('ret', None if ins.ty == ('void',) else r if 'getDefault' in sname else result(eng, ins), st)]
        if re.match(r'icl_core::(config|logging|Time)', sname) and not self.inline(eng, fn, sname):
            return quiet(eng, st, ins)
        if re.match(r'(boost|gz)', sname):
            return quiet(eng, st, ins)
        r = self.str_call(eng, st, ins, sname, args)
        return r


def roles(p):
    """{role: (offset, size)} of the members, by their types and by the option which they hold"""
    if hasattr(p, '_filelog_roles'):
        return p._filelog_roles
    base = [b for b in p.flat_members(p.cls(CLS)) if b[5] is p.cls(CLS)]
    mem = {m[1]: m for m in base}
    out = {}

    def only(role, test):
        ms = [m for m in base if test(m[3])]
        if len(ms) != 1:
            raise Broken('%d members of %s could be the %s' % (len(ms), CLS, role))
        out[role] = (ms[0][1], ms[0][2])
    only('m_log_file', lambda t: 'basic_ofstream' in t or 'basic_fstream' in t)
    only('m_zipped_log_file', lambda t: 'gzFile' in t)
    only('m_last_rotation', lambda t: t in ('long', 'int64_t', 'long int'))
    this = ('this', CLS)
    for f in p.special(CLS, 'C'):
        r = RoleRule(this)
        e = r.eng = Engine(p, r)
        for o in e.explore(f, special_args(e, f, CLS, this), (), mem={this: {}}):
            for off, c in o.st.mem.get(this, {}).items():
                if not isinstance(c, tuple) or off not in mem:
                    continue
                for role in OPTIONS.values():
                    if mentions(c[0], ('s', ('opt', role))):
                        r.found.setdefault(role, off)
        for role, off in r.found.items():
            if off in mem:
                out.setdefault(role, (off, mem[off][2]))
    left = [m for m in base if m[3] == 'bool' and (m[1], m[2]) not in out.values()]
    if len(left) == 1:
        out['m_delete_old_files'] = (left[0][1], left[0][2])
    for role in list(OPTIONS.values()) + ['m_delete_old_files']:
        if role not in out:
            raise Broken('the member of %s which holds %s was not found' % (CLS, role))
    p._filelog_roles = out
    return out


class FileRule(StrModel):
    """st.mon = (open, archived, lines, unflushed, tried, touched, guards)
    open: the log file is open; archived: what happened to the old file ('', 'zipped', 'kept', 'renamed', 'gone');
    lines: how often the line was written; unflushed: it was not flushed since; tried: opening was tried since the file was last closed;
    touched: a file was closed, moved or removed; guards: what is known about the directory entry"""
    join_limit = 40
    max_depth = 12
    last = None                     # the day the log file was opened, if it is known

    def __init__(self, p, this, line):
        self.this, self.line = this, line
        self.off = roles(p)

    def rename(self, eng, mon, f):
        return mon

    def class_of(self, obj):
        return CLS if obj == self.this else None

    def keep(self, obj, off):
        return obj == self.this

    def inline(self, eng, fn, sname):
        return sname.startswith(CLS + '::') or not sname.startswith(('icl_core::logging::', 'icl_core::config::', 'icl_core::Time', 'icl_core::os::'))

    def pure_repo(self, sname):
        return True

    def part(self, eng, st):
        return st.mon

    def member(self, eng, st, ins, name):
        o, n = self.off[name]
        return eng.mload(st, ('p', self.this, o), n, ins)

    def filename(self, eng, st, ins):
        return self.content(eng, st, ('p', self.this, self.off['m_filename'][0]), ins)

    def is_log_file(self, eng, st, v):
        q = eng.as_ptr(v)
        lo, n = self.off['m_log_file']
        if q is None or q[0] != self.this:
            return False
        return not isinstance(q[1], int) or lo <= q[1] < lo + n

    def zipped(self, eng, st, ins):
        return truth_of(eng, st, self.member(eng, st, ins, 'm_online_zip'))

    def set(self, st, **kw):
        names = ('open', 'archived', 'lines', 'unflushed', 'tried', 'touched', 'guards')
        st.mon = tuple(kw.get(n, v) for n, v in zip(names, st.mon))

    def opened(self, eng, st, ins, name, how, handle=None):
        """the file is opened: an outcome for success and one for failure"""
        o, archived, lines, unflushed, tried, touched, guards = st.mon
        if name != self.filename(eng, st, ins):
            eng.report(ins, 'opens a file which is not the log file')
        if o:
            eng.report(ins, 'opens the log file although it is open')
            return []
        if not how:
            eng.report(ins, 'opens the log file so that what was logged before is not kept (not in append mode)')
        ok = st.copy()
        self.set(ok, open=True, tried=True)
        self.set(st, tried=True)
        return ok, st

    def wrote(self, eng, st, ins, v):
        """a text is written to the log file"""
        o, archived, lines, unflushed, tried, touched, guards = st.mon
        if not o:
            eng.report(ins, 'writes to the log file although it is not open')
            return
        if v == self.line:
            rot = truth_of(eng, st, self.member(eng, st, ins, 'm_rotate'))
            if rot is not False:
                last = self.member(eng, st, ins, 'm_last_rotation')
                if not (last == TODAY or eng.decide_icmp(st, 'eq', last, TODAY, 64) is True):
                    eng.report(ins, 'writes the line to the log file of an earlier day')
            if lines:
                eng.report(ins, 'writes the line a second time')
                return
            self.set(st, lines=1, unflushed=True)
        elif self.line is not None and mentions(v, self.line):
            eng.report(ins, 'writes only a part of the line, or something else with it')
        elif is_lit(v) is None:
            eng.report(ins, 'writes something to the log file which is neither the line nor a fixed text')

    def closed(self, eng, st, ins):
        self.set(st, open=False, tried=False, touched=True)

    def call(self, eng, st, ins, sname, fn, args):
        a = [v for t, v in args]
        own = self.special(eng, st, ins, sname, fn, a)
        if own is not None:
            return own
        r = self.str_call(eng, st, ins, sname, args)
        if r is not None:
            return r
        if fn is not None and fn.lines is not None and eng.is_repo(fn, sname) and not self.inline(eng, fn, sname):
            if sname.startswith('icl_core::config::get'):
                # reads an option into the variable it is given (or returns it)
                fresh(eng, st, ins)
                a = again(eng, st, ins)
                for v in a[1:]:
                    q = eng.as_ptr(v)
                    if q and q[0] == self.this and isinstance(q[1], int):
                        if q[1] == self.off['m_filename'][0]:
                            self.setc(eng, st, v, ('s', ('some', eng.cur_path, ins.idx)))
                        else:
                            n = [x[1] for x in self.off.values() if x[0] == q[1]]
                            eng.mstore(st, v, ('s', ('e', eng.cur_path, ins.idx)), n[0] if n else 1)
                return [Outcome('ret', None if ins.ty == ('void',) else result(eng, ins), st)]
            return quiet(eng, st, ins)
        return None

    def special(self, eng, st, ins, sname, fn, a):
        last = sname.rsplit('::', 1)[-1]
        mon = st.mon
        ret = lambda v, s=st: Outcome('ret', v, s)
        if sname.startswith('gz'):
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            if sname in ('gzopen', 'gzopen64'):
                mode = is_lit(self.chars(eng, st, a[1])) or ''
                two = self.opened(eng, st, ins, self.chars(eng, st, a[0]), mode[:1] == 'a' and '+' not in mode)
                if not two:
                    return []
                ok, bad = two
                ok.mem.setdefault(self.handle()[1], {})
                return [ret(self.handle(), ok), ret(NULL, bad)]
            if a[:1] and eng.norm(st, a[0]) != self.handle() and not (sname == 'gzclose' and a[0] == NULL):
                eng.report(ins, '%s() is used on something which is not the open log file' % sname)
                return []
            if sname == 'gzwrite':
                v = self.chars(eng, st, a[1])
                n = strip(eng.norm(st, a[2]))
                l = is_lit(v)
                if not (n == ('s', ('len', v)) or l is not None and (n == I(len(l)) or 'strlen' in str(n) or n[0] == 's')):
                    eng.report(ins, 'does not write the whole text')
                else:
                    self.wrote(eng, st, ins, v)
                return [ret(result(eng, ins))]
            if sname == 'gzputs':
                self.wrote(eng, st, ins, self.chars(eng, st, a[1]))
                return [ret(result(eng, ins))]
            if sname == 'gzflush':
                if a[1] == I(0):
                    eng.report(ins, 'the flush has no effect (Z_NO_FLUSH)')
                else:
                    self.set(st, unflushed=False)
                return [ret(result(eng, ins))]
            if sname.startswith('gzclose'):
                self.closed(eng, st, ins)
                return [ret(result(eng, ins))]
            return [ret(result(eng, ins))]
        if a and self.is_log_file(eng, st, a[0]):
            if sname.startswith('std::basic_ofstream::') or sname.startswith('std::ofstream::'):
                if last == 'is_open':
                    return [ret(I(int(mon[0])))]
                if last == 'open':
                    fresh(eng, st, ins)
                    a = again(eng, st, ins)
                    name = self.content(eng, st, a[1], ins) if 'basic_string' in (self.types(eng) or [''])[0] else self.chars(eng, st, a[1])
                    mode = a[2] if len(a) > 2 else None
                    how = mode is not None and mode[0] == 'i' and mode[1] & 1 and not mode[1] & 0x20
                    two = self.opened(eng, st, ins, name, how)
                    if not two:
                        return []
                    return [ret(None, x) for x in two]
                if last == 'close':
                    if not mon[0]:
                        return quiet(eng, st, ins)
                    self.closed(eng, st, ins)
                    return quiet(eng, st, ins)
                if last.startswith('basic_ofstream'):
                    if len([x for x in a if eng.as_ptr(x)]) > 2:
                        eng.report(ins, 'the log file is opened by the constructor of the stream')
                    return quiet(eng, st, ins)
                if last.startswith('~'):
                    self.closed(eng, st, ins)
                    return quiet(eng, st, ins)
            if last in ('operator<<', 'write', 'flush', 'put') and sname.startswith('std::'):
                if last == 'flush':
                    self.set(st, unflushed=False)
                elif last == 'write':
                    v = self.chars(eng, st, a[1])
                    if strip(eng.norm(st, a[2])) != ('s', ('len', v)):
                        eng.report(ins, 'does not write the whole text')
                    else:
                        self.wrote(eng, st, ins, v)
                elif last == 'operator<<':
                    ty = self.types(eng)
                    t = ty[-1] if ty else ''
                    if '(*)' in t or '(' in t:
                        g = a[1]
                        if 'endl' in str(g) or 'flush' in str(g):
                            self.set(st, unflushed=False)
                    else:
                        v = self.arg(eng, st, ins, t, a[1])
                        self.wrote(eng, st, ins, v if v is not None else number(a[1]))
                quiet(eng, st, ins)
                return [ret(a[0] if ins.ty != ('void',) else None)]
        if last in ('operator<<', 'flush', 'put', 'write') and sname.startswith('std::') and a:
            fresh(eng, st, ins)
            return [ret(again(eng, st, ins)[0] if ins.ty != ('void',) else None)]
        if sname == 'std::operator|' and len(a) == 2 and a[0][0] == a[1][0] == 'i':
            return [ret(I(a[0][1] | a[1][1]))]
        # -- time
        if sname in ('icl_core::TimeBase::days', 'icl_core::TimeStamp::days'):
            q = eng.as_ptr(a[0])
            v = eng.mload(st, a[0], 8, ins)
            if isinstance(v, tuple) and v[0] == 's' and v[1][0] == 'now':
                return [ret(TODAY)]
            fresh(eng, st, ins)
            return [ret(result(eng, ins))]
        if sname == 'icl_core::TimeStamp::now':
            fresh(eng, st, ins)
            if ins.ty == ('void',):
                eng.mstore(st, again(eng, st, ins)[0], ('s', ('now',)), 8)
                return [ret(None)]
            return [ret(('agg', (('s', ('now',)), UNK)))]
        if sname in ('icl_core::TimeStamp::TimeStamp', 'icl_core::TimeBase::TimeBase'):
            if len(a) == 2 and (self.types(eng) or [''])[0] in ('long', 'time_t', 'int64_t', '__time_t', 'int'):
                eng.mstore(st, a[0], ('s', ('secs', eng.norm(st, a[1]))), 8)
                return [ret(None)]
            if len(a) == 3 and a[2] == I(0):
                eng.mstore(st, a[0], ('s', ('secs', eng.norm(st, a[1]))), 8)
                return [ret(None)]
            fresh(eng, st, ins)
            eng.mstore(st, again(eng, st, ins)[0], ('s', ('e', eng.cur_path, ins.idx)), 8)
            return [ret(None)]
        if sname == 'icl_core::TimeStamp::strfTime':
            t = eng.mload(st, a[0], 8, ins)
            self.name(eng, st, ins, t, a[2], is_lit(self.chars(eng, st, a[3])))
            q = eng.as_ptr(a[1])
            fresh(eng, st, ins)
            self.setc(eng, st, again(eng, st, ins)[1], ('s', ('dated', t[1][1] if t[0] == 's' and t[1][0] == 'secs' else t)))
            return [ret(None)]
        # -- the old file
        if sname == 'icl_core::os::zipFile':
            v = self.chars(eng, st, a[0])
            if v != self.filename(eng, st, ins):
                eng.report(ins, 'zips a file which is not the log file')
            self.archive(eng, st, ins, self.suffix(eng, st, a[1], ins))
            bad = st.copy()
            self.set(st, archived='zipped', touched=True)
            self.set(bad, archived='kept', touched=True)
            return [ret(I(1)), ret(I(0), bad)]
        if re.search(r'(^|::)(unlink|remove)$', sname) and a:
            if 'boost' in sname:
                self.delete(eng, st, ins)
                return quiet(eng, st, ins)
            v = self.chars(eng, st, a[0])
            if v == self.filename(eng, st, ins):
                if mon[1] != 'zipped':
                    eng.report(ins, 'removes the log file although it was not archived' if mon[1] != 'kept' else 'removes the log file although zipFile() failed')
                self.set(st, archived='gone', touched=True)
            else:
                eng.report(ins, 'removes a file which is not the log file')
            return quiet(eng, st, ins)
        if re.search(r'(^|::)rename$', sname) and len(a) >= 2:
            v = self.chars(eng, st, a[0])
            w = self.chars(eng, st, a[1])
            if v != self.filename(eng, st, ins):
                eng.report(ins, 'renames a file which is not the log file')
            x = parts(w)
            self.archive(eng, st, ins, x[-1] if len(x) == 2 and x[0] == v else None)
            self.set(st, archived='renamed', touched=True)
            return quiet(eng, st, ins)
        # -- the directory
        m = sname.startswith('boost::')
        if m and last == 'is_directory':
            return self.guard(eng, st, ins, 'file', False)
        if m and (last == 'operator++' or last == 'increment'):
            self.set(st, guards=())
            fresh(eng, st, ins)
            return [ret(again(eng, st, ins)[0] if ins.ty != ('void',) else None)]
        if sname in ('icl_core::TimeStamp::operator<', 'icl_core::TimeBase::operator<', 'icl_core::TimeStamp::operator>', 'icl_core::TimeBase::operator>'):
            x, y = eng.mload(st, a[0], 8, ins), eng.mload(st, a[1], 8, ins)
            if last == 'operator>':
                x, y = y, x
            if self.limit(eng, st, ins, y):
                return self.guard(eng, st, ins, 'old', True)
            if self.limit(eng, st, ins, x):
                return self.guard(eng, st, ins, 'old', False)
            return quiet(eng, st, ins)
        if sname in ('icl_core::TimeStamp::operator>=', 'icl_core::TimeBase::operator>=', 'icl_core::TimeStamp::operator<=', 'icl_core::TimeBase::operator<='):
            return quiet(eng, st, ins)
        if sname == 'std::basic_string::find' and len(a) >= 2:
            fresh(eng, st, ins)
            out = []
            for t in (True, False):
                s = st.copy()
                if t:
                    self.set(s, guards=tuple(sorted(set(s.mon[6]) | {'name'})))
                else:
                    eng.assume_icmp(s, 'ne', result(eng, ins), I(0), 64)
                out.append(ret(I(0) if t else result(eng, ins), s))
            return out
        if m:
            fresh(eng, st, ins)
            a = again(eng, st, ins)
            if ins.ty == ('void',):
                q = eng.as_ptr(a[0]) if a else None
                if q and q[0] != self.this:
                    eng.mstore(st, a[0], ('s', ('e', eng.cur_path, ins.idx)), 8)
                return [ret(None)]
            return [ret(result(eng, ins))]
        return None

    def handle(self):
        return ('p', ('h', 0, -1), 0)

    def suffix(self, eng, st, v, ins):
        if cstring(eng.p, v) is not None:
            return None
        return self.content(eng, st, v, ins)

    def chars(self, eng, st, v):
        t = super().chars(eng, st, v)
        if t[0] == 's' and t[1][0] == 'txt':
            q = eng.as_ptr(v)
            if q and q[0][0] == 'a':
                c = st.mem.get(q[0], {}).get(q[1])
                if c is not None and c[0][0] == 's' and isinstance(c[0][1], tuple) and c[0][1][0] == 'dated':
                    return c[0]
        return t

    def name(self, eng, st, ins, t, size, fmt):
        if fmt is None or not ('%F' in fmt or '%D' in fmt or '%s' in fmt or re.search('%[YyGg]', fmt) and ('%j' in fmt or re.search('%[mbBh]', fmt) and re.search('%[de]', fmt))):
            eng.report(ins, 'the text "%s" does not tell the days apart' % fmt)
            return
        n = 1
        for x in re.findall(r'%.|.', fmt):
            n += {'%Y': 4, '%m': 2, '%d': 2, '%y': 2, '%F': 10, '%H': 2, '%M': 2, '%S': 2, '%j': 3, '%D': 8}.get(x, 1)
        if size[0] == 'i' and size[1] < n:
            eng.report(ins, 'the text "%s" needs %d characters, but only %d are available' % (fmt, n, size[1]))

    def archive(self, eng, st, ins, suffix):
        if st.mon[0]:
            eng.report(ins, 'moves the log file although it is still open')
        if st.mon[1]:
            eng.report(ins, 'archives the log file a second time')
        if not (suffix is not None and suffix[0] == 's' and suffix[1][0] == 'dated'):
            eng.report(ins, 'the name of the archived file does not contain the day')
            return
        lastday = self.last or self.member(eng, st, ins, 'm_last_rotation')
        l = lin(suffix[1][1])
        if l != {lastday: DAY}:
            eng.report(ins, 'the archived file is not named after the day it was written')

    def limit(self, eng, st, ins, t):
        if t[0] != 's' or t[1][0] != 'secs':
            return False
        days = self.member(eng, st, ins, 'm_delete_older_than_days')
        l = lin(t[1][1])
        if l != {TODAY: DAY, strip(days): -DAY}:
            eng.report(ins, 'old files are not those which are older than the configured number of days')
        return True

    def guard(self, eng, st, ins, name, value):
        fresh(eng, st, ins)
        out = []
        for t in (True, False):
            s = st.copy()
            if t == value:
                self.set(s, guards=tuple(sorted(set(s.mon[6]) | {name})))
            out.append(Outcome('ret', I(int(t)), s))
        return out

    def delete(self, eng, st, ins):
        if truth_of(eng, st, self.member(eng, st, ins, 'm_delete_old_files')) is not True:
            eng.report(ins, 'removes files although old files are to be kept')
        for g, text in (('file', 'may be a directory'), ('old', 'is not known to be older than the limit'), ('name', 'may not belong to this log file')):
            if g not in st.mon[6]:
                eng.report(ins, 'removes something which %s' % text)
        self.set(st, touched=True)


def output(ctx, p):
    ctx.rule('line', 'a pushed line is written to the open log file of the current day, completely, once and flushed if wanted; a file which is not open is opened first')
    ctx.rule('rotation', 'the log file is closed, archived under the day it was written and opened again; it is removed only if zipping succeeded; nothing happens on the same day')
    this = ('this', CLS)
    line = ('s', 'the line')
    methods = [f for f in p.iter_funcs() if p.sname(f.name) == CLS + '::pushImpl' and len(f.params) == 2]
    push = one([f for f in methods if 'basic_string' in p.param_list(f.name)[0][0]], 'FileLogOutput::pushImpl(line)')[0]
    ctors = p.special(CLS, 'C')
    rot = [f for f in p.iter_funcs() if p.sname(f.name) == CLS + '::rotateLogFile']
    for f in [push] + rot + ctors:
        presets = [None] if f in ctors else [(z, o) for z in (False, True) for o in (False, True)]
        for c in presets:
            r = FileRule(p, this, line if f is push else None)
            e = r.eng = Engine(p, r)
            args = special_args(e, f, CLS, this)
            mem = {this: {}}
            if f is push:
                obj = ('o', ('s', 'line'))
                args[1] = ('p', obj, 0)
                mem[obj] = {0: (line, 8)}
            if c:
                mem[this][r.off['m_online_zip'][0]] = (I(int(c[0])), 1)
                if c[0]:
                    mem[this][r.off['m_zipped_log_file'][0]] = (r.handle() if c[1] else NULL, 8)
            last = ('s', 'last day')
            if c:
                mem[this][r.off['m_last_rotation'][0]] = (last, 8)
                r.last = last
            fn = p.sname(f.name)
            outs = e.explore(f, args, (bool(c and c[1]), '', 0, False, False, False, ()), mem=mem)
            if not outs:
                raise Broken('%s has no result' % fn)
            for o in outs:
                if o.kind != 'ret':
                    continue
                st = o.st
                is_open, archived, lines, unflushed, tried, touched, guards = st.mon
                get = lambda n: e.mload(st, ('p', this, r.off[n][0]), r.off[n][1], None)
                bad = lambda rule, msg: ctx.violation(rule, p.fwhere(f), fn, msg, [], key='%s:%s' % (fn, msg))
                if f is push:
                    if is_open and not lines:
                        bad('line', 'a line is not written although the log file is open')
                    if not is_open and not lines and not tried:
                        bad('line', 'a line is lost because the log file is not opened')
                    if not is_open and lines:
                        pass
                    if lines and unflushed and truth_of(e, st, get('m_flush')) is not False:
                        bad('line', 'the line is not flushed although this is configured')
                    ctx.ok('line', '%s: %s%s, line written %d times' % (p.fwhere(f), 'open' if is_open else 'not open', ', rotated' if archived else '', lines))
                if f in ctors and not archived:
                    continue
                cur = get('m_last_rotation')
                rotate = truth_of(e, st, get('m_rotate'))
                if not touched:
                    if c and cur != last:
                        bad('rotation', 'the day of the log file is changed although nothing was archived')
                    continue
                if f in ctors:
                    same = rotate = None
                else:
                    same = e.decide_icmp(st, 'eq', last, TODAY, 64)
                if rotate is False or same is True:
                    bad('rotation', 'touches the log file although no rotation is due')
                if rotate is None and c:
                    bad('rotation', 'rotates the log file although this may not be configured')
                if not archived:
                    bad('rotation', 'the log file is closed on a new day, but not archived')
                if archived == 'zipped':
                    bad('rotation', 'the zipped log file is not removed, so its lines appear in the next archive again')
                if cur != TODAY and e.decide_icmp(st, 'eq', cur, TODAY, 64) is not True:
                    bad('rotation', 'the day of the rotation is not remembered')
                if not tried and not is_open:
                    bad('rotation', 'the log file is not opened again after it was archived')
                ctx.ok('rotation', '%s: %s%s' % (p.fwhere(f), fn, '' if c is None else ' with %s file' % ('a zipped' if c[0] else 'a plain')))
            ctx.take(e, 'rotation')
    ctx.need('line', 2)
    ctx.need('rotation', 2)


def l05(ctx):
    p = ctx.load(['icl_core', 'icl_core_logging'])
    ctx.assumptions += ['zlib, the standard streams and boost::filesystem do what their documentation says', 'only the FileLogOutput itself changes its log file while it is open']
    zip_file(ctx, p)
    output(ctx, p)
    sql_rotation(ctx, p)
