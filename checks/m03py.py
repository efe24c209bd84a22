"""M03, Python side: an IOError raised by a native header access is not swallowed without a look at what it is."""
import ast

from sa import py
from sa.pyflow import BROAD, Flow, handler_names

NATIVE = {'hread', 'hread_init', 'hwrite', 'hwrite_init'}
CAUGHT = {'IOError', 'OSError', 'EnvironmentError'} | BROAD


class Errors(Flow):
    """state: frozenset of the accesses whose error nobody has looked at yet"""

    def __init__(self, fn, raising):
        self.raising = raising
        self.bound = {h.name for n in fn.walk() if isinstance(n, ast.Try) for h in n.handlers if h.name}
        self.sites = set()

    def call(self, st, node):
        n = py.callee_name(node)
        if n in self.raising:
            self.sites.add(node.lineno)
            return [st], [st | {(n, node.lineno)}]
        if any(isinstance(a, ast.Name) and a.id in self.bound for a in node.args):
            return [frozenset()], [frozenset()]
        return [st], []

    def may_raise(self, node):
        return False

    def test(self, st, node, truth):
        if any(isinstance(x, ast.Name) and x.id in self.bound for x in ast.walk(node)):
            return [frozenset()]
        return [st]

    def handler_states(self, caught, h):
        names = handler_names(h)
        if names is None or names & CAUGHT:
            return caught
        return {s: n for s, n in caught.items() if not s}


def run(r):
    p = py.project()
    m = p.mods['aipy.miriad']
    fns = [f for f in p.functions(m)]
    raising = set(NATIVE)
    for _ in range(4):
        for f in fns:
            if f.name not in raising:
                fl = Errors(f, raising)
                o = fl.function(f, frozenset())
                if any(s for s in o.exc):
                    raising.add(f.name)
    for f in fns:
        fl = Errors(f, raising)
        o = fl.function(f, frozenset())
        r.count('python_access_sites', len(fl.sites))
        for d in (o.norm, o.ret):
            for s, at in d.items():
                for n, line in sorted(s):
                    r.add('S-python', '%s/%s' % (f.qual, n), f.where(at),
                          '%s completes although %s (line %d) may have raised an I/O error, which nothing told from the end of the item'
                          % (f.qual, n, line))
    r.floor('python_access_sites', 3)
    r.rule('Python code that catches the IOError of a native header access looks at it before it goes on.')
