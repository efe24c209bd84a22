"""M02, Python side: an item handle acquired in miriad.py is released on every path."""
import ast

from sa import py
from sa.pyflow import Flow
from sa.ir import AnalysisBroken

ACQ, REL = 'haccess', 'hdaccess'


class Handles(Flow):
    """state: frozenset of (name of the variable or '@line' of the acquiring call)"""

    def __init__(self, acq, rel):
        self.acq, self.rel = acq, rel       # names of routines; rel: {name: arg index}
        self.sites = 0

    def call(self, st, node):
        n = py.callee_name(node)
        if n in self.acq:
            self.sites += 1
            return [st | {('@', node.lineno, node.col_offset)}], [st]
        if n in self.rel:
            k = self.rel[n]
            s = set(st)
            if k < len(node.args):
                s -= self.held(st, node.args[k])
            return [frozenset(s)], [frozenset(s)]
        return [st], [st]

    def held(self, st, e):
        if isinstance(e, ast.Name):
            return {x for x in st if x[0] == e.id}
        if isinstance(e, ast.Call):
            return {x for x in st if x == ('@', e.lineno, e.col_offset)}
        return set()

    def assign(self, st, target, value):
        if isinstance(target, ast.Name):
            h = self.held(st, value) if isinstance(value, ast.expr) else set()
            st = st - h
            if any(x[0] == target.id for x in st):
                # overwritten while held: it can never be released
                st = st - {x for x in st if x[0] == target.id} | {('!', x[1], x[2]) for x in st if x[0] == target.id}
            return st | {(target.id, x[1], x[2]) for x in h}
        if isinstance(target, (ast.Attribute, ast.Subscript)) and isinstance(value, ast.expr):
            return st - self.held(st, value)
        return st

    def on_return(self, st, node):
        return st - self.held(st, node.value) if node.value is not None else st


def run(r):
    p = py.project()
    m = p.mods['aipy.miriad']
    fns = [f for f in p.functions(m)]
    acq, rel = {ACQ}, {REL: 0}
    # routines that hand out a fresh handle, or release the one they are given
    for _ in range(4):
        for f in fns:
            if f.name not in acq and any(isinstance(n, ast.Call) and py.callee_name(n) in acq for n in f.walk()):
                fl = Handles(acq, rel)
                rets = [n for n in f.walk() if isinstance(n, ast.Return) and n.value is not None]
                names = {t.id for n in f.walk() if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                         and py.callee_name(n.value) in acq for t in n.targets if isinstance(t, ast.Name)}
                if any(isinstance(n.value, ast.Call) and py.callee_name(n.value) in acq or
                       isinstance(n.value, ast.Name) and n.value.id in names for n in rets):
                    acq.add(f.name)
            if f.name not in rel:
                for k, q in enumerate(f.params):
                    fl = Handles(acq, rel)
                    o = fl.function(f, frozenset({(q, 0, 0)}))
                    if not any(isinstance(n, ast.Call) and py.callee_name(n) in rel for n in f.walk()):
                        continue
                    if not any(s for s in list(o.norm) + list(o.ret) + list(o.exc) if any(x[1:] == (0, 0) for x in s)):
                        rel[f.name] = k - (1 if f.cls and not f.static else 0)
    n = 0
    for f in fns:
        fl = Handles(acq, rel)
        o = fl.function(f, frozenset())
        n += len({x for c in f.walk() if isinstance(c, ast.Call) and py.callee_name(c) in acq for x in [c.lineno]})
        for kind, d in (('completes', {**o.norm, **o.ret}), ('an exception leaves', o.exc)):
            for s, at in d.items():
                for x in sorted(s, key=str):
                    r.add('R8-item-held', '%s/%s' % (f.qual, 'raise' if d is o.exc else 'return'), f.where(at),
                          '%s the routine while the item acquired at line %d is still open: no later access of that item can succeed'
                          % (kind, x[1]))
    r.count('python_item_acquisitions', n)
    r.floor('python_item_acquisitions', 1)
    r.rule('R8: Python code releases every header item it acquires on every path, exceptional ones included.')
