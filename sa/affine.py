"""Piecewise-affine value analysis, for arithmetic on bounded integers.

A value is an affine form over input variables; a region bounds the variables
and orders pairs of them.  Branches on affine conditions split the region, so a
function becomes a finite list of (region, affine result).  Division and
remainder by constants are decided when the remainder part of the form provably
stays inside one multiple of the divisor.  The same domain is used for Python
functions (syntax tree) and for C (LLVM IR)."""
import ast

INF = float('inf')


class Region:
    def __init__(self, lo=None, hi=None, le=None):
        self.lo, self.hi = dict(lo or {}), dict(hi or {})
        self.le = set(le or ())          # (x, y, k): x + k <= y

    def copy(self):
        return Region(self.lo, self.hi, self.le)

    def tighten(self):
        for _ in range(4):
            for x, y, k in self.le:
                self.hi[x] = min(self.hi[x], self.hi[y] - k)
                self.lo[y] = max(self.lo[y], self.lo[x] + k)
        return all(self.lo[v] <= self.hi[v] for v in self.lo)

    def bounds(self, a):
        lo = hi = a.c
        # use x + k <= y on terms of opposite sign
        t = dict(a.t)
        for x, y, k in self.le:
            if t.get(x, 0) > 0 and t.get(y, 0) < 0:
                m = min(t[x], -t[y])
                # m*(x - y) <= -m*k
                t2 = dict(t)
                t2[x] -= m
                t2[y] += m
                b = self._box(t2, a.c)
                hi2 = b[1] - m * k
                lo2 = self._box(t, a.c)[0]
                return (lo2, min(hi2, self._box(t, a.c)[1]))
            if t.get(x, 0) < 0 and t.get(y, 0) > 0:
                m = min(-t[x], t[y])
                t2 = dict(t)
                t2[x] += m
                t2[y] -= m
                b = self._box(t2, a.c)
                return (max(b[0] + m * k, self._box(t, a.c)[0]), self._box(t, a.c)[1])
        return self._box(t, a.c)

    def _box(self, t, c):
        lo = hi = c
        for v, k in t.items():
            if k == 0:
                continue
            l, h = self.lo.get(v, -INF), self.hi.get(v, INF)
            lo += k * (l if k > 0 else h)
            hi += k * (h if k > 0 else l)
        return lo, hi

    def __str__(self):
        s = ['%s<=%s<=%s' % (self.lo[v], v, self.hi[v]) for v in sorted(self.lo)]
        s += ['%s+%d<=%s' % (x, k, y) if k else '%s<=%s' % (x, y) for x, y, k in sorted(self.le)]
        return ', '.join(s)


class Aff:
    __slots__ = ('t', 'c')

    def __init__(self, t=(), c=0):
        self.t = tuple(sorted((v, k) for v, k in dict(t).items() if k))
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Aff) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def const(self):
        return self.c if not self.t else None

    def add(self, o, s=1):
        t = dict(self.t)
        for v, k in o.t:
            t[v] = t.get(v, 0) + s * k
        return Aff(t, self.c + s * o.c)

    def scale(self, k):
        return Aff({v: c * k for v, c in self.t}, self.c * k)

    def __repr__(self):
        s = ''.join('%+d*%s' % (k, v) for v, k in self.t)
        return (s + '%+d' % self.c) if s else str(self.c)


UNK = ('unk', 'unsupported')
LOST = ('unk', 'lost')       # exact arithmetic the domain understands, with a result that is not one affine form


def var(v):
    return Aff({v: 1})


def num(n):
    return Aff((), n)


def isaff(x):
    return isinstance(x, Aff)


def unk(*xs):
    return LOST if any(x == LOST for x in xs) else UNK


def undecided(v):
    if isinstance(v, tuple) and v and v[0] == 'tuple':
        return any(undecided(x) for x in v[1])
    return v == UNK


def same(r, a, b):
    """a == b everywhere in the region"""
    if not (isaff(a) and isaff(b)):
        return False
    lo, hi = r.bounds(a.add(b, -1))
    return lo == hi == 0


def divmod_(r, a, m):
    """(quotient, remainder), floor semantics, or (UNK, UNK)"""
    if not isaff(a) or not isinstance(m, int) or m <= 0:
        return unk(a), unk(a)
    q, rem = {}, {}
    for v, k in a.t:
        q[v], rem[v] = divmod(k, m)
        if rem[v] > m // 2 and rem[v] - m < 0 and k < 0:
            q[v] += 1
            rem[v] -= m
    qc, rc = divmod(a.c, m)
    R = Aff(rem, rc)
    lo, hi = r.bounds(R)
    if lo == -INF or hi == INF:
        return UNK, UNK
    k1, k2 = lo // m, hi // m
    if k1 != k2:
        return LOST, LOST
    return Aff(q, qc + k1), R.add(num(k1 * m), -1)


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def arith(op, r, a, b):
    if not (isaff(a) and isaff(b)):
        return unk(a, b)
    if op == '+':
        return a.add(b)
    if op == '-':
        return a.add(b, -1)
    ca, cb = a.const(), b.const()
    if op == '*':
        if cb is not None:
            return a.scale(cb)
        if ca is not None:
            return b.scale(ca)
        return UNK
    if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int):
        try:
            return num({'//': lambda: ca // cb, '%': lambda: ca % cb, '<<': lambda: ca << cb, '>>': lambda: ca >> cb,
                        '&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb, '**': lambda: ca ** cb}[op]())
        except (KeyError, ZeroDivisionError, ValueError):
            return UNK
    if op == '<<' and cb is not None and 0 <= cb < 40:
        return a.scale(1 << cb)
    if op == '>>' and cb is not None and 0 <= cb < 40:
        return divmod_(r, a, 1 << cb)[0]
    if op == '//' and cb is not None:
        return divmod_(r, a, cb)[0]
    if op == '%' and cb is not None:
        return divmod_(r, a, cb)[1]
    if op == '&':
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and pow2(cb + 1):
            return divmod_(r, a, cb + 1)[1]
        return UNK
    if op in ('|', '^'):
        for x, y in ((a, b), (b, a)):
            lo, hi = r.bounds(y)
            if lo < 0 or hi == INF or r.bounds(x)[0] < 0:
                continue
            k = 1
            while k <= hi:
                k *= 2
            if all(c % k == 0 for _, c in x.t) and x.c % k == 0:
                return x.add(y)
        return LOST
    return UNK


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


def split(r, op, a, b):
    """-> [(region, truth)]"""
    if not (isaff(a) and isaff(b)):
        return [(r.copy(), True), (r.copy(), False)]
    d = a.add(b, -1)
    lo, hi = r.bounds(d)
    v = {'<': True if hi < 0 else False if lo >= 0 else None,
         '<=': True if hi <= 0 else False if lo > 0 else None,
         '>': True if lo > 0 else False if hi <= 0 else None,
         '>=': True if lo >= 0 else False if hi < 0 else None,
         '==': False if lo > 0 or hi < 0 else True if lo == hi == 0 else None,
         '!=': True if lo > 0 or hi < 0 else False if lo == hi == 0 else None}[op]
    if v is not None:
        return [(r, v)]
    out = []
    for truth in (True, False):
        q = r.copy()
        if narrow(q, op if truth else NEG[op], d) and q.tighten():
            out.append((q, truth))
    return out


def narrow(q, op, d):
    """assume d op 0"""
    if op == '>':
        return narrow(q, '<=', d.scale(-1).add(num(1)))
    if op == '>=':
        return narrow(q, '<=', d.scale(-1))
    if op == '<':
        return narrow(q, '<=', d.add(num(1)))
    if op == '==':
        return narrow(q, '<=', d) and narrow(q, '<=', d.scale(-1))
    if op == '!=':
        return True
    if len(d.t) == 1:
        (v, k), = d.t
        if k > 0:
            q.hi[v] = min(q.hi.get(v, INF), -d.c // k if isinstance(d.c, int) else -d.c / k)
        else:
            n = -d.c / k
            c = -((d.c) // k) if False else -(-d.c // -k) if isinstance(d.c, int) else n
            # k*v + c <= 0, k<0  =>  v >= c/(-k)
            q.lo[v] = max(q.lo.get(v, -INF), -((-d.c) // (-k)) if isinstance(d.c, int) else n)
    elif len(d.t) == 2:
        (x, k1), (y, k2) = d.t
        if k1 == 1 and k2 == -1:
            q.le.add((x, y, d.c))
        elif k1 == -1 and k2 == 1:
            q.le.add((y, x, d.c))
    return True


# ------------------------------------------------------------------ Python
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


class PyEval:
    """leaves(function, args, region) -> [(region, value)]; value: Aff, ('tuple', [..]), UNK, bool"""

    def __init__(self, proj):
        self.proj = proj
        self.steps = 0

    def call(self, f, args, r, kw=None, depth=0):
        env = {}
        for k, p in enumerate(f.params):
            if k < len(args):
                env[p] = args[k]
            elif kw and p in kw:
                env[p] = kw[p]
            elif p in f.defaults:
                env[p] = [v for _, v in self.expr(f.defaults[p], {}, r, f, depth)][0]
            else:
                env[p] = UNK
        out = []
        for kind, r2, env2, v in self.block(f.node.body, env, r, f, depth):
            if kind == 'raise':
                continue
            out.append((r2, v if kind == 'ret' else None))
        return out

    def block(self, body, env, r, f, depth):
        """-> [(kind, region, env, value)] kind in next/ret/raise"""
        cur = [(r, env)]
        out = []
        for n in body:
            nxt = []
            for r1, e1 in cur:
                for kind, r2, e2, v in self.stmt(n, e1, r1, f, depth):
                    if kind == 'next':
                        nxt.append((r2, e2))
                    else:
                        out.append((kind, r2, e2, v))
            cur = nxt
            self.steps += 1
            if len(cur) > 400 or self.steps > 20000:
                return out + [('ret', r, env, UNK)]
        return out + [('next', r1, e1, None) for r1, e1 in cur]

    def stmt(self, n, env, r, f, depth):
        if isinstance(n, ast.Return):
            return [('ret', r2, env, v) for r2, v in self.expr(n.value, env, r, f, depth)] if n.value else [('ret', r, env, None)]
        if isinstance(n, ast.Assign):
            out = []
            for r2, v in self.expr(n.value, env, r, f, depth):
                e = dict(env)
                for t in n.targets:
                    self.bind(t, v, e)
                out.append(('next', r2, e, None))
            return out
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            out = []
            for r2, v in self.expr(n.value, env, r, f, depth):
                e = dict(env)
                self.bind(n.target, v, e)
                out.append(('next', r2, e, None))
            return out
        if isinstance(n, ast.AugAssign):
            out = []
            for r2, v in self.expr(ast.BinOp(left=n.target, op=n.op, right=n.value), env, r, f, depth):
                e = dict(env)
                self.bind(n.target, v, e)
                out.append(('next', r2, e, None))
            return out
        if isinstance(n, ast.If):
            out = []
            for r2, t in self.cond(n.test, env, r, f, depth):
                out += self.block(n.body if t else n.orelse, dict(env), r2, f, depth)
            return out
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Expr)):
            return [('next', r, env, None)]
        if isinstance(n, ast.Raise):
            return [('raise', r, env, None)]
        if isinstance(n, ast.Assert):
            return [('next', r2, env, None) if t else ('raise', r2, env, None) for r2, t in self.cond(n.test, env, r, f, depth)]
        if isinstance(n, ast.Try):
            return self.block(n.body + n.orelse + n.finalbody, env, r, f, depth)
        # loops and the rest: everything assigned inside is unknown
        e = dict(env)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                e[x.id] = UNK
        if any(isinstance(x, ast.Return) for x in ast.walk(n)):
            return [('next', r, e, None), ('ret', r, e, UNK)]
        return [('next', r, e, None)]

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v[0] == 'tuple' and len(v[1]) == len(t.elts) else [UNK] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)

    def cond(self, n, env, r, f, depth):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [r]
            out = []
            for v in n.values:
                nxt = []
                for q in cur:
                    for q2, t in self.cond(v, env, q, f, depth):
                        if t == isand:
                            nxt.append(q2)
                        else:
                            out.append((q2, t))
                cur = nxt
            return out + [(q, isand) for q in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(q, not t) for q, t in self.cond(n.operand, env, r, f, depth)]
        if isinstance(n, ast.Compare):
            cur = [(r, None)]
            left = n.left
            out = []
            for op, right in zip(n.ops, n.comparators):
                nxt = []
                for q, _ in cur:
                    for q1, a in self.expr(left, env, q, f, depth):
                        for q2, b in self.expr(right, env, q1, f, depth):
                            if type(op) not in CMP:
                                res = [(q2.copy(), True), (q2.copy(), False)]
                            else:
                                res = split(q2, CMP[type(op)], a, b)
                            for q3, t in res:
                                if t:
                                    nxt.append((q3, None))
                                else:
                                    out.append((q3, False))
                cur = nxt
                left = right
            return out + [(q, True) for q, _ in cur]
        out = []
        for q, v in self.expr(n, env, r, f, depth):
            if isinstance(v, bool):
                out.append((q, v))
            elif isaff(v):
                out += split(q, '!=', v, num(0))
            else:
                out += [(q.copy(), True), (q.copy(), False)]
        return out

    def many(self, nodes, env, r, f, depth):
        cur = [(r, [])]
        for x in nodes:
            cur = [(q2, vs + [v]) for q, vs in cur for q2, v in self.expr(x, env, q, f, depth)]
        return cur

    def expr(self, n, env, r, f, depth):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return [(r, n.value)]
            return [(r, num(n.value) if isinstance(n.value, (int, float)) else UNK)]
        if isinstance(n, ast.Name):
            if n.id in env:
                return [(r, env[n.id])]
            g = self.proj.resolve(f.mod, n)
            if isinstance(g, tuple) and g[0] == 'global':
                return self.expr(g[1].globals[g[2]], {}, r, f, depth)
            return [(r, UNK)]
        if isinstance(n, ast.Attribute):
            g = self.proj.resolve(f.mod, n)
            if isinstance(g, tuple) and g[0] == 'global':
                return self.expr(g[1].globals[g[2]], {}, r, f, depth)
            return [(r, UNK)]
        if isinstance(n, (ast.Tuple, ast.List)):
            return [(q, ('tuple', vs)) for q, vs in self.many(n.elts, env, r, f, depth)]
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return self.cond(n, env, r, f, depth)
            return [(q, (v.scale(-1) if isaff(v) else UNK) if isinstance(n.op, ast.USub) else
                     (v.scale(-1).add(num(-1)) if isaff(v) else UNK) if isinstance(n.op, ast.Invert) else v)
                    for q, v in self.expr(n.operand, env, r, f, depth)]
        if isinstance(n, ast.BinOp):
            op = OPS.get(type(n.op))
            if isinstance(n.op, ast.Div):
                return [(q, ('div', a, b.const()) if isaff(a) and isaff(b) and isinstance(b.const(), int) and b.const() > 0 else unk(a, b))
                        for q, (a, b) in self.many([n.left, n.right], env, r, f, depth)]
            return [(q, arith(op, q, a, b) if op else UNK) for q, (a, b) in self.many([n.left, n.right], env, r, f, depth)]
        if isinstance(n, (ast.Compare, ast.BoolOp)):
            return self.cond(n, env, r, f, depth)
        if isinstance(n, ast.IfExp):
            return [x for q, t in self.cond(n.test, env, r, f, depth)
                    for x in self.expr(n.body if t else n.orelse, env, q, f, depth)]
        if isinstance(n, ast.Subscript):
            out = []
            for q, (v, k) in self.many([n.value, n.slice], env, r, f, depth) if not isinstance(n.slice, ast.Slice) else [(r, (UNK, UNK))]:
                c = k.const() if isaff(k) else None
                if isinstance(v, tuple) and v[0] == 'tuple' and isinstance(c, int) and -len(v[1]) <= c < len(v[1]):
                    out.append((q, v[1][c]))
                else:
                    out.append((q, UNK))
            return out
        if isinstance(n, ast.Call):
            return self.callexpr(n, env, r, f, depth)
        return [(r, UNK)]

    def callexpr(self, n, env, r, f, depth):
        g = self.proj.resolve(f.mod, n.func)
        if isinstance(n.func, ast.Name) and n.func.id in env:
            g = None
        if g is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls:
            g = self.proj.method(f.cls, n.func.attr)
            if g is not None and depth < 6:
                out = []
                for q, vs in self.many(n.args, env, r, f, depth):
                    out += self.call(g, ([] if g.static else [UNK]) + vs, q, depth=depth + 1)
                return out
            return [(r, UNK)]
        out = []
        from sa.py import Func
        for q, vs in self.many(n.args, env, r, f, depth):
            if isinstance(g, Func) and depth < 6:
                kw = {}
                for k in n.keywords:
                    x = self.expr(k.value, env, q, f, depth)
                    kw[k.arg] = x[0][1] if len(x) == 1 else UNK
                out += self.call(g, vs, q, kw, depth + 1)
                continue
            name = g[1] if isinstance(g, tuple) and g[0] == 'ext' else None
            last = (name or '').split('.')[-1]
            if last in ('int', 'floor', 'trunc') and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'div':
                v = vs[0]
                out.append((q, divmod_(q, v[1], v[2])[0] if last == 'floor' or q.bounds(v[1])[0] >= 0 else LOST))
            elif last == 'int' and len(vs) == 1:
                out.append((q, vs[0]))
            elif last in ('float', 'round', 'float64', 'int64', 'int32', 'intp') and len(vs) == 1:
                out.append((q, vs[0]))
            elif last == 'abs' and len(vs) == 1 and isaff(vs[0]):
                out += [(q2, vs[0] if t else vs[0].scale(-1)) for q2, t in split(q, '>=', vs[0], num(0))]
            elif last == 'divmod' and len(vs) == 2 and isaff(vs[1]):
                c = vs[1].const()
                a, b = divmod_(q, vs[0], c) if isinstance(c, int) else (UNK, UNK)
                out.append((q, ('tuple', [a, b])))
            elif last in ('min', 'max', 'sorted'):
                xs = vs
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'tuple':
                    xs = vs[0][1]
                if len(xs) == 2 and isaff(xs[0]) and isaff(xs[1]) and not n.keywords:
                    for q2, t in split(q, '<=', xs[0], xs[1]):
                        a, b = (xs[0], xs[1]) if t else (xs[1], xs[0])
                        out.append((q2, {'min': a, 'max': b, 'sorted': ('tuple', [a, b])}[last]))
                else:
                    out.append((q, UNK))
            elif last in ('tuple', 'list') and len(vs) == 1:
                out.append((q, vs[0]))
            else:
                out.append((q, UNK))
        return out


# ------------------------------------------------------------------ LLVM IR
SKIP = set()
IOP = {'add': '+', 'sub': '-', 'mul': '*', 'shl': '<<', 'or': '|', 'and': '&', 'xor': '^', 'ashr': '>>', 'lshr': '>>',
       'fadd': '+', 'fsub': '-', 'fmul': '*'}
ICMP = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=', 'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}
FCMP = {'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>=', 'oeq': '==', 'one': '!=', 'une': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'ueq': '=='}


class IRState:
    def __init__(self):
        self.env, self.mem, self.visits = {}, {}, {}
        self.region = None

    def copy(self, region=None):
        s = IRState()
        s.env, s.mem, s.visits = dict(self.env), dict(self.mem), dict(self.visits)
        s.region = region or self.region
        return s


class IREval:
    """Forward evaluation of an acyclic view of an IR function (each block at
    most twice on a path).  hook(inst, args, state) -> None (default treatment),
    or a list of (state, value)."""

    def __init__(self, mod, hook=None, limit=20000):
        self.mod, self.hook, self.limit, self.steps = mod, hook, limit, 0
        self.fresh = 0

    def run(self, f, args, region, mem=None, depth=0):
        """-> [(state, return value)]"""
        st = IRState()
        st.region = region
        st.mem = dict(mem or {})
        for (ty, p), v in zip(f.params, args):
            st.env[p] = v
        out = []
        work = [(f.entry, None, st)]
        while work:
            b, pred, st = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                from sa.ir import AnalysisBroken
                raise AnalysisBroken('affine evaluation of %s does not end' % f.name)
            n = st.visits.get(b, 0)
            if n >= 2:
                continue
            st.visits[b] = n + 1
            blk = f.blocks[b]
            new = {}
            for i in blk.insts:
                if i.op == 'phi':
                    for v, p in i.x['inc']:
                        if p == pred:
                            new[i.res] = self.val(st, v)
            st.env.update(new)
            sts = [st]
            for i in blk.insts:
                if i.op == 'phi':
                    continue
                nx = []
                for s in sts:
                    nx += self.inst(f, i, s, work, out, depth)
                sts = nx
                if not sts:
                    break
        return out

    def val(self, st, v):
        k = v[0]
        if k == 'int':
            return num(v[1])
        if k == 'float':
            try:
                x = fl(v[1])
                return num(int(x) if x == int(x) else x)
            except (ValueError, OverflowError):
                return UNK
        if k == 'reg':
            return st.env.get(v[1], UNK)
        if k == 'glob':
            return ('p', ('g', v[1]), 0)
        if k == 'null':
            return num(0)
        if k == 'gep':
            return ('p', ('g', str(v)), 0)
        return UNK

    def inst(self, f, i, st, work, out, depth):
        V = lambda o: self.val(st, o)
        op = i.op
        r = st.region
        if op == 'br':
            s = i.x['succ']
            if len(s) == 1:
                work.append((s[0], i.block, st))
                return []
            c = V(i.ops[0])
            for q, t in self.cond(r, c):
                work.append((s[0] if t else s[1], i.block, st.copy(q)))
            return []
        if op == 'switch':
            c = V(i.ops[0])
            rest = [r]
            for k, tgt in i.x['cases']:
                nx = []
                for q in rest:
                    for q2, t in split(q, '==', c, num(k)):
                        if t:
                            work.append((tgt, i.block, st.copy(q2)))
                        else:
                            nx.append(q2)
                rest = nx
            for q in rest:
                work.append((i.x['default'], i.block, st.copy(q)))
            return []
        if op == 'ret':
            out.append((st, V(i.ops[0]) if i.ops else None))
            return []
        if op in ('unreachable', 'resume'):
            return []
        if op == 'alloca':
            st.env[i.res] = ('p', ('a', f.name, i.res, depth), 0)
            return [st]
        if op == 'store':
            p = V(i.ops[1])
            v = V(i.ops[0])
            if p[0] == 'p' if isinstance(p, tuple) else False:
                st.mem[p] = v
            return [st]
        if op == 'load':
            p = V(i.ops[0])
            if isinstance(p, tuple) and p[0] == 'p':
                if p not in st.mem:
                    st.mem[p] = UNK
                st.env[i.res] = st.mem[p]
            else:
                st.env[i.res] = UNK
            return [st]
        if op == 'getelementptr':
            p = V(i.ops[0])
            ks = [V(o) for o in i.ops[1:]]
            if isinstance(p, tuple) and p[0] == 'p' and all(isaff(k) and k.const() is not None for k in ks):
                ks = tuple(k.const() for k in ks)
                et = str(i.x.get('elem'))
                # one key per constant element: collapse leading zeros of arrays
                if len(ks) > 1 and ks[0] == 0:
                    ks = ks[1:]
                off = p[2]
                if len(ks) == 1 and isinstance(off, int):
                    st.env[i.res] = ('p', p[1], off + ks[0])
                else:
                    st.env[i.res] = ('p', p[1], (off, ks))
            else:
                st.env[i.res] = UNK
            return [st]
        if op in ('bitcast', 'zext', 'sext', 'freeze', 'fpext', 'inttoptr', 'ptrtoint'):
            st.env[i.res] = V(i.ops[0])
            return [st]
        if op in ('sitofp', 'uitofp', 'fptrunc', 'trunc', 'fptosi', 'fptoui'):
            v = V(i.ops[0])
            if isaff(v):
                lo, hi = r.bounds(v)
                lim = {'float': 1 << 24, 'double': 1 << 53, 'i32': 1 << 31, 'i16': 1 << 15, 'i8': 128, 'i64': 1 << 62}.get(i.ty, 0)
                if not (-lim <= lo and hi <= lim - (0 if i.ty in ('float', 'double') else 1)):
                    v = LOST
            elif op.startswith('fpto') and isinstance(v, tuple) and v[0] == 'div':
                v = divmod_(r, v[1], v[2])[0] if r.bounds(v[1])[0] >= 0 else LOST
            st.env[i.res] = v
            return [st]
        if op == 'fdiv':
            a, b = V(i.ops[0]), V(i.ops[1])
            st.env[i.res] = ('div', a, b.const()) if isaff(a) and isaff(b) and isinstance(b.const(), int) and b.const() > 0 else unk(a, b)
            return [st]
        if op in IOP:
            a, b = V(i.ops[0]), V(i.ops[1])
            if op == 'xor' and i.ty == 'i1':
                st.env[i.res] = ('not', a) if isaff(b) and b.const() in (1, -1) else UNK
                return [st]
            v = arith(IOP[op], r, a, b)
            if isaff(v) and i.ty == 'i32':
                lo, hi = r.bounds(v)
                if lo < -(1 << 31) or hi > (1 << 31) - 1:
                    v = LOST
            st.env[i.res] = v
            return [st]
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            a, b = V(i.ops[0]), V(i.ops[1])
            v = unk(a, b)
            if isaff(a) and isaff(b) and isinstance(b.const(), int) and r.bounds(a)[0] >= 0:
                v = divmod_(r, a, b.const())[0 if 'div' in op else 1]
            st.env[i.res] = v
            return [st]
        if op == 'icmp' or op == 'fcmp':
            t = ICMP if op == 'icmp' else FCMP
            a, b = V(i.ops[0]), V(i.ops[1])
            p = i.x['pred']
            if op == 'icmp' and p[0] == 'u' and not (isaff(a) and isaff(b) and r.bounds(a)[0] >= 0 and r.bounds(b)[0] >= 0):
                st.env[i.res] = UNK
            else:
                st.env[i.res] = ('cmp', t[p], a, b) if p in t else UNK
            return [st]
        if op == 'select':
            res = []
            for q, t in self.cond(r, V(i.ops[0])):
                s = st.copy(q)
                s.env[i.res] = V(i.ops[1] if t else i.ops[2])
                res.append(s)
            return res
        if op in ('call', 'invoke'):
            args = [V(a) for a in i.x['args']]
            outs = self.hook(i, args, st) if self.hook else None
            c = i.callee()
            g = self.mod.functions.get(c) if c else None
            if outs is None and g is not None and depth < 4 and g.name not in SKIP and sum(1 for _ in g.insts()) < 120 and g.name != f.name:
                outs = []
                keep = (st.env, st.visits)
                for s2, v in self.run(g, args, r, st.mem, depth + 1):
                    s3 = st.copy(s2.region)
                    s3.mem = s2.mem
                    outs.append((s3, v))
                if not outs:
                    return []
            elif outs is None:
                for a in args:
                    if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'a':
                        for k in list(st.mem):
                            if k[1] == a[1]:
                                st.mem[k] = UNK
                outs = [(st, UNK)]
            res = []
            for s, v in outs:
                if i.res:
                    s.env[i.res] = UNK if v is None else v
                if op == 'invoke':
                    work.append((i.x['normal'], i.block, s))
                else:
                    res.append(s)
            return res
        if i.res:
            st.env[i.res] = UNK
        return [st]

    def cond(self, r, c):
        if isinstance(c, tuple) and c[0] == 'cmp':
            return split(r, c[1], c[2], c[3])
        if isinstance(c, tuple) and c[0] == 'not':
            return [(q, not t) for q, t in self.cond(r, c[1])]
        if isaff(c):
            return split(r, '!=', c, num(0))
        return [(r.copy(), True), (r.copy(), False)]


def fl(s):
    """an LLVM floating literal"""
    import struct
    s = str(s)
    if s.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)
