"""Structured path-sensitive propagation of client states over one Python
function: normal completion, break, continue, return and exceptions (try,
except, finally, with) are followed separately.  Loops run to a fixed point."""
import ast

BROAD = {'Exception', 'BaseException'}


class Out:
    __slots__ = ('norm', 'brk', 'cont', 'ret', 'exc')

    def __init__(self):
        self.norm, self.brk, self.cont, self.ret, self.exc = {}, {}, {}, {}, {}

    def merge(self, o, norm=True):
        if norm:
            self.norm.update(o.norm)
        for k in ('brk', 'cont', 'ret', 'exc'):
            getattr(self, k).update(getattr(o, k))


class Flow:
    """states are hashable; every set is a dict state -> node that led there"""

    # ---- client interface
    def call(self, st, node):
        """-> (iterable of normal states, iterable of exceptional states)"""
        return [st], [st]

    def assign(self, st, target, value):
        return st

    def may_raise(self, node):
        return isinstance(node, (ast.Subscript, ast.Raise, ast.Assert, ast.Yield, ast.YieldFrom, ast.Await))

    def test(self, st, node, truth):
        return [st]

    def on_return(self, st, node):
        return st

    def enter_with(self, st, item):
        return st

    # ---- expressions: calls in evaluation order
    def expr(self, sts, node, out):
        if node is None:
            return sts
        if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return sts
        if isinstance(node, ast.BoolOp):
            cur = sts
            res = {}
            for k, v in enumerate(node.values):
                cur = self.expr(cur, v, out)
                res.update(cur)
            return res
        if isinstance(node, ast.IfExp):
            sts = self.expr(sts, node.test, out)
            a = self.expr(self.filt(sts, node.test, True), node.body, out)
            b = self.expr(self.filt(sts, node.test, False), node.orelse, out)
            return {**a, **b}
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                sts = self.expr(sts, c, out)
        if isinstance(node, ast.Call):
            res = {}
            for s in sts:
                n, e = self.call(s, node)
                for x in n:
                    res[x] = node
                for x in e:
                    out.exc[x] = node
            return res
        if self.may_raise(node):
            for s in sts:
                out.exc[s] = node
        return sts

    def filt(self, sts, node, truth):
        res = {}
        for s, n in sts.items():
            for x in self.test(s, node, truth):
                res[x] = n
        return res

    def bind(self, sts, target, value):
        return {self.assign(s, target, value): n for s, n in sts.items()}

    def stmts(self, sts, body):
        out = Out()
        cur = sts
        for n in body:
            if not cur:
                break
            o = self.stmt(cur, n)
            out.merge(o, norm=False)
            cur = o.norm
        out.norm = cur
        return out

    def stmt(self, sts, n):
        out = Out()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            out.norm = sts
            return out
        if isinstance(n, ast.Expr):
            out.norm = self.expr(sts, n.value, out)
            return out
        if isinstance(n, ast.Assign):
            s = self.expr(sts, n.value, out)
            for t in n.targets:
                s = self.expr_target(s, t, out)
                s = self.bind(s, t, n.value)
            out.norm = s
            return out
        if isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            s = self.expr(sts, n.value, out) if n.value is not None else sts
            s = self.expr_target(s, n.target, out)
            out.norm = self.bind(s, n.target, n)
            return out
        if isinstance(n, ast.Return):
            s = self.expr(sts, n.value, out)
            for x in s:
                out.ret[self.on_return(x, n)] = n
            return out
        if isinstance(n, ast.Raise):
            s = self.expr(sts, n.exc, out)
            for x in s:
                out.exc[x] = n
            return out
        if isinstance(n, ast.Assert):
            s = self.expr(sts, n.test, out)
            for x in self.filt(s, n.test, False):
                out.exc[x] = n
            out.norm = self.filt(s, n.test, True)
            return out
        if isinstance(n, ast.Break):
            out.brk = dict(sts)
            return out
        if isinstance(n, ast.Continue):
            out.cont = dict(sts)
            return out
        if isinstance(n, ast.Delete):
            out.norm = sts
            return out
        if isinstance(n, ast.If):
            s = self.expr(sts, n.test, out)
            a = self.stmts(self.filt(s, n.test, True), n.body)
            b = self.stmts(self.filt(s, n.test, False), n.orelse)
            out.merge(a)
            out.merge(b)
            return out
        if isinstance(n, (ast.For, ast.While)):
            isfor = isinstance(n, ast.For)
            s = self.expr(sts, n.iter, out) if isfor else sts
            seen = {}
            cur = dict(s)
            done = {}
            while cur:
                cur = {k: v for k, v in cur.items() if k not in seen}
                seen.update(cur)
                if not cur:
                    break
                if isfor:
                    for x in cur:
                        out.exc[x] = n.iter
                    done.update(cur)
                    ent = self.bind(cur, n.target, n)
                else:
                    t = self.expr(cur, n.test, out)
                    if not (isinstance(n.test, ast.Constant) and n.test.value):
                        done.update(self.filt(t, n.test, False))
                    ent = self.filt(t, n.test, True)
                o = self.stmts(ent, n.body)
                out.ret.update(o.ret)
                out.exc.update(o.exc)
                out.norm.update(o.brk)
                cur = {**o.norm, **o.cont}
            o = self.stmts(done, n.orelse)
            out.merge(o)
            return out
        if isinstance(n, ast.With):
            s = sts
            for it in n.items:
                s = self.expr(s, it.context_expr, out)
                s = {self.enter_with(x, it): k for x, k in s.items()}
                if it.optional_vars is not None:
                    s = self.bind(s, it.optional_vars, it)
            out.merge(self.stmts(s, n.body))
            return out
        if isinstance(n, ast.Try):
            b = self.stmts(sts, n.body)
            res = Out()
            caught = b.exc
            escaped = dict(caught)
            for h in n.handlers:
                names = handler_names(h)
                o = self.stmts(self.handler_states(caught, h), h.body)
                res.merge(o)
                if names is None or names & BROAD:
                    escaped = {}
            e = self.stmts(b.norm, n.orelse)
            res.merge(e)
            for k in ('brk', 'cont', 'ret'):
                getattr(res, k).update(getattr(b, k))
            res.exc.update(escaped)
            if n.finalbody:
                fin = Out()
                for k in ('norm', 'brk', 'cont', 'ret', 'exc'):
                    o = self.stmts(getattr(res, k), n.finalbody)
                    getattr(fin, k).update(o.norm)
                    fin.merge(o, norm=False)
                res = fin
            return res
        out.norm = sts
        return out

    def handler_states(self, caught, h):
        return caught

    def expr_target(self, sts, t, out):
        if isinstance(t, (ast.Tuple, ast.List)):
            for s in sts:
                out.exc[s] = t
            for x in t.elts:
                sts = self.expr_target(sts, x, out)
            return sts
        if isinstance(t, ast.Subscript):
            sts = self.expr(sts, t.value, out)
            sts = self.expr(sts, t.slice, out)
            for s in sts:
                out.exc[s] = t
        elif isinstance(t, ast.Attribute):
            sts = self.expr(sts, t.value, out)
        return sts

    def function(self, fn, init):
        return self.stmts({init: fn.node}, fn.node.body)


def handler_names(h):
    """exception names a handler catches, None for a bare except"""
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts}
