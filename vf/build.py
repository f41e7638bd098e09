"""Compiles the current /repo sources to LLVM IR (text), in a scratch directory
which is removed afterwards.  Nothing is written into /repo."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + '/src/icl_core/src'

# Defines of the pinned Linux build (union over the modules; taken from the
# compile commands that cmake/icmaker generate for /opt/vp/build.sh).
DEFS = '''BOOST_ALL_NO_LIB BOOST_DYN_LINK NDEBUG TIXML_USE_STL _IC_BUILDER_BOOST_ _IC_BUILDER_BOOST_REGEX_
_IC_BUILDER_DEPRECATED_STYLE_ _IC_BUILDER_ENABLE_BASE_TYPES_ _SYSTEM_IDENTIFIER_=x86_64.Linux _SYSTEM_LINUX_
_SYSTEM_POSIX_ _IC_BUILDER_BOOST_DATE_TIME_ _IC_BUILDER_EIGEN3_ _IC_BUILDER_EIGEN_ _IC_BUILDER_HAS_SYS_TIME_H_
_IC_BUILDER_HAS_TIME_H_ _IC_BUILDER_ICL_CORE_ _IC_BUILDER_ZLIB_ _IC_BUILDER_ICL_CORE_CONFIG_ _IC_BUILDER_TINYXML_
_IC_BUILDER_BOOST_FILESYSTEM_ _IC_BUILDER_BOOST_SYSTEM_ _IC_BUILDER_ICL_CORE_LOGGING_ _IC_BUILDER_PTHREAD_
_IC_BUILDER_Pthread_ _IC_BUILDER_SQLITE3_ _IC_BUILDER_SQLite3_ _IC_BUILDER_ICL_CORE_PLUGIN_
_IC_BUILDER_ICL_CORE_THREAD_ _IC_BUILDER_THREADS_ _IC_BUILDER_CPPUNIT_ _IC_BUILDER_ICL_CORE_DISPATCH_'''.split()

MODULES = ['icl_core', 'icl_core_config', 'icl_core_logging', 'icl_core_thread', 'icl_core_plugin',
           'icl_core_dispatch', 'icl_core_performance_monitor', 'icl_core_testsuite']

# Sources of other platforms, which are not part of the Linux build.
EXCLUDE = re.compile(r'(Win32|win32|Lxrt\d|LXRT|Darwin|QNX|qnx|example_usage|lxrt_|_moc)')


class BuildError(Exception):
    pass


def flags(extra=()):
    f = ['-std=gnu++17'] + ['-D' + d for d in DEFS]
    f += ['-I' + SRC, '-I/opt/vp/compat', '-I/usr/include/eigen3', '-I/usr/include/cppunit']
    f += ['-msse', '-msse2', '-w'] + list(extra)
    return f


def sources(module):
    d = os.path.join(SRC, module)
    if not os.path.isdir(d):
        raise BuildError('module directory %s is missing' % d)
    out = []
    for root, dirs, files in os.walk(d):
        for f in files:
            if f.endswith('.cpp') and not EXCLUDE.search(f):
                out.append(os.path.join(root, f))
    return sorted(out)


def _state():
    """hash of everything a translation unit may include"""
    h = hashlib.sha1()
    for root, dirs, files in sorted(os.walk(SRC)):
        for f in sorted(files):
            if not f.endswith('.cpp'):
                n = os.path.join(root, f)
                h.update(n[len(REPO):].encode())
                h.update(open(n, 'rb').read())
    return h.hexdigest()


def _cached(job):
    """The self-test (tools/mutate.py) compiles the same sources again and again; the checks themselves never use a cache."""
    cache = os.environ.get('VF_CACHE')
    if not cache:
        return _compile(job)
    src, out, extra = job
    global STATE
    if STATE is None:
        STATE = _state()
    key = hashlib.sha1((STATE + src.replace(REPO, '') + repr(extra)).encode() + open(src, 'rb').read()).hexdigest()
    fn = os.path.join(cache, key)
    if os.path.exists(fn):
        open(out, 'w').write(open(fn).read().replace('@VFREPO@', REPO))
        return None
    r = _compile(job)
    if r is None:
        t = fn + '.%d.%s' % (os.getpid(), os.path.basename(out))
        open(t, 'w').write(open(out).read().replace(REPO, '@VFREPO@'))
        os.rename(t, fn)
    return r


STATE = None


def _compile(job):
    src, out, extra = job
    bc = out + '.tmp'
    cmd = ['clang++'] + flags(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-g', '-gno-column-info', '-fstandalone-debug', '-flto',
                                        '-fwhole-program-vtables', '-fno-discard-value-names', '-emit-llvm', '-c', src, '-o', bc]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        return (src, p.stdout)
    p = subprocess.run(['opt', '-passes=sroa', '-S', bc, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    os.unlink(bc)
    if p.returncode:
        return (src, p.stdout)
    return None


def compile_ir(modules=(), inst=(), only=None, extra=()):
    """Returns [(source path, IR text)] for all sources of the modules and the
    instantiation files /verif/inst/<name>.cpp."""
    jobs = []
    tmp = tempfile.mkdtemp(prefix='vf_ir_')
    try:
        srcs = []
        for m in modules:
            srcs += sources(m)
        for i in inst:
            srcs.append(os.path.join(HERE, 'inst', i + '.cpp'))
        if only:
            srcs = [s for s in srcs if only(s)]
        # biggest first
        srcs.sort(key=lambda s: -os.path.getsize(s))
        for n, s in enumerate(srcs):
            jobs.append((s, os.path.join(tmp, '%d.ll' % n), extra))
        with ThreadPoolExecutor(8) as ex:
            res = [r for r in ex.map(_cached, jobs) if r]
        if res:
            raise BuildError('\n'.join('%s:\n%s' % (a, b[:3000]) for a, b in res))
        return [(s, open(o).read()) for s, o, _ in sorted(jobs)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
