"""Helpers shared by the rule modules."""
import re
from ..absint import Engine, Rule, Outcome, I, NULL, UNK
from ..core import Broken, one

# Functions without any effect on the objects under analysis (tracing, time arithmetic).
LOGFN = re.compile(r'^icl_core::logging::')
TIMEFN = re.compile(r'^icl_core::(TimeStamp|TimeSpan|TimeBase)::|^icl_core::operator')


def strip(v):
    """Removes widening casts."""
    while v[0] == 'x' and v[1] in ('sext', 'zext', 'trunc') or v[0] == 'x' and v[1] in ('sitofp', 'uitofp', 'fpext'):
        v = v[2]
    return v


def lin(v, k=1, acc=None):
    """Linear form {atom: coefficient}; the constant has key 1."""
    if acc is None:
        acc = {}
    v = strip(v)
    if v[0] == 'i':
        acc[1] = acc.get(1, 0) + k * v[1]
    elif v[0] == 'x' and v[1] == 'add':
        lin(v[2], k, acc)
        lin(v[3], k, acc)
    elif v[0] == 'x' and v[1] == 'sub':
        lin(v[2], k, acc)
        lin(v[3], -k, acc)
    elif v[0] == 'x' and v[1] == 'mul' and v[3][0] == 'i':
        lin(v[2], k * v[3][1], acc)
    elif v[0] == 'x' and v[1] == 'srem' and v[3][0] == 'i' and v[3][1]:
        # n % c == n - c * (n / c)
        lin(v[2], k, acc)
        a = ('x', 'sdiv', v[2], v[3], v[4])
        acc[a] = acc.get(a, 0) - k * v[3][1]
    else:
        acc[v] = acc.get(v, 0) + k
    for a in [a for a, c in acc.items() if c == 0]:
        del acc[a]
    return acc


class QuietRule(Rule):
    """Logging and time arithmetic are opaque and without effect."""
    opaque_rx = LOGFN

    def inline(self, eng, fn, sname):
        return not self.opaque_rx.search(sname)

    def pure_repo(self, sname):
        return bool(self.opaque_rx.search(sname))


def mapval(f, v):
    if isinstance(v, tuple):
        return f(v)
    return v


def special_args(eng, f, cls, obj):
    """Arguments of a constructor/destructor; base-object variants get the VTT of their own class."""
    args = eng.default_args(f, obj)
    if re.search(r'[CD]2E', f.name) and len(f.params) > 1 and f.params[1][1].strip('%') == 'vtt':
        m = re.match(r'_ZN(.*?)[CD]2E', f.name)
        g = '_ZTTN' + m.group(1) + 'E'
        args[1] = ('p', ('g', (None, g)), 0)
    return args
