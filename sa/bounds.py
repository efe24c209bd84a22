"""Symbolic bounds for raw array accesses: every load and store of a function
is resolved to a base (numpy array, heap block, local) plus a polynomial offset
over SSA values; inequalities come from dominating branches, loop recurrences
(proved inductively) and the caller's checks; an access is PROVED inside,
REFUTED (a reachable offset lies outside) or left UNDECIDED."""
import itertools

from sa.ir import AnalysisBroken, base_name
from sa.capi import LAYOUT, SIZE, NPYNAME, CONTIG
from sa.pathsim import NEG, SWAP

TYSIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'x86_fp80': 16, 'ptr': 8}


class Poly(dict):
    """{monomial (sorted tuple of atoms): coefficient}"""

    @staticmethod
    def const(n):
        return Poly({(): n} if n else {})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + c
            if not r[m]:
                del r[m]
        return r

    def __neg__(self):
        return Poly({m: -c for m, c in self.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = Poly()
        for m, c in self.items():
            for n, d in o.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
                if not r[k]:
                    del r[k]
        return r

    def atoms(self):
        return {a for m in self for a in m}

    def value(self):
        return self.get((), 0) if all(m == () for m in self) else None

    def split(self, a):
        """(coefficient, rest) with self = coefficient * a + rest; None if not linear in a"""
        c, r = Poly(), Poly()
        for m, k in self.items():
            n = m.count(a)
            if n == 0:
                r[m] = k
            elif n == 1:
                mm = list(m)
                mm.remove(a)
                c[tuple(mm)] = k
            else:
                return None
        return c, r

    def subst(self, a, p):
        s = self.split(a)
        return None if s is None else s[0] * p + s[1]

    def div(self, n):
        if any(c % n for c in self.values()):
            return None
        return Poly({m: c // n for m, c in self.items()})

    def eval(self, env):
        t = 0
        for m, c in self.items():
            for a in m:
                c *= env[a]
            t += c
        return t

    def __hash__(self):
        return hash(frozenset(self.items()))

    def __str__(self):
        out = []
        for m, c in sorted(self.items(), key=repr):
            s = '*'.join(show(a) for a in m)
            out.append(('%d' % c if not s or c != 1 else '') + ('*' if s and c != 1 else '') + s)
        return ' + '.join(out) or '0'


def show(a):
    if a[0] == 'dim':
        return 'dim(%s,%s)' % (show(a[1]), a[2] if not isinstance(a[2], tuple) else show(a[2]))
    if a[0] == 'obj':
        return 'arg%d' % a[2]
    if a[0] in ('num',):
        return 'num%d' % a[2]
    if a[0] in ('reg', 'v', 'arb'):
        return '%' + str(a[1])
    if a[0] == 'c':
        return str(a[1])
    if a[0] == 'stride':
        return 'stride(%s,%s)' % (show(a[1]), show(a[2]) if isinstance(a[2], tuple) else a[2])
    if len(a) == 2 and isinstance(a[1], tuple):
        return '%s(%s)' % (a[0], show(a[1]))
    return str(a[0])


class Ctx:
    """what the caller has established: wraps a pathsim state"""

    def __init__(self, st, hooks):
        self.st, self.h = st, hooks
        # equalities between derived terms
        self.par = {}
        if st is not None:
            for t, (lo, hi, ne) in st.con.items():
                if t[0] == 'icmp' and t[1] == 'eq' and lo == 1:
                    a, b = self.find(t[2]), self.find(t[3])
                    if a != b:
                        self.par[a] = b

    def find(self, t):
        t = self.canon(t)
        while t in self.par:
            t = self.par[t]
        return t

    def canon(self, t):
        if t[0] == 'dim' and self.st is not None:
            k = t[2] if isinstance(t[2], tuple) else ('c', t[2])
            t = self.h.dim(self.st, t[1], k)
        return t

    def poly(self, t, d=0):
        """a term as a polynomial over base atoms"""
        if t[0] == 'c':
            return Poly.const(t[1])
        if t[0] == 'op' and d < 8:
            a, b = self.poly(t[2], d + 1), self.poly(t[3], d + 1)
            if t[1] == 'add':
                return a + b
            if t[1] == 'sub':
                return a - b
            if t[1] == 'mul':
                return a * b
            if t[1] == 'shl' and b.value() is not None and 0 <= b.value() < 32:
                return a * Poly.const(1 << b.value())
        t = self.find(t)
        if t[0] == 'c':
            return Poly.const(t[1])
        if self.st is not None:
            v = self.st.value(t)
            if v is not None:
                return Poly.const(v)
        return Poly.atom(t)

    def lower(self, t):
        lo = -(1 << 70)
        if self.st is not None:
            for u in self.members(t):
                lo = max(lo, self.st.rng(u)[0])
        if t[0] == 'dim':
            lo = max(lo, 0)
            if self.st is not None:
                for u in self.members(t):
                    if u[0] == 'dim' and self.st.rng(('size', u[1]))[0] >= 1:
                        lo = max(lo, 1)
        if t[0] in ('nd', 'size', 'utf8len'):
            lo = max(lo, 0)
        return lo

    def upper(self, t):
        hi = 1 << 70
        if self.st is not None:
            for u in self.members(t):
                hi = min(hi, self.st.rng(u)[1])
        return hi

    def members(self, t):
        r = self.find(t)
        out = [t]
        for u in list(self.par):
            if u != t and self.find(u) == r:
                out.append(u)
        if r != t:
            out.append(r)
        return out

    def known(self, t):
        if self.st is None:
            return None
        for u in self.members(t):
            v = self.st.value(u)
            if v is not None:
                return v
        return None

    def nd(self, a):
        return self.known(('nd', a))

    def tnum(self, a):
        return self.known(('tnum', a))

    def packed(self, a):
        t = ('icmp', 'eq', ('op', 'and', ('flags', a), ('c', CONTIG)), ('c', CONTIG))
        if self.st is None:
            return False
        if self.st.value(t) == 1 or self.st.con.get(('op', 'and', ('flags', a), ('c', CONTIG)), (0, 0))[0] == 1:
            return True
        for u, (lo, hi, ne) in self.st.con.items():
            if u[0] == 'op' and u[1] == 'and' and u[2] == ('flags', a) and u[3][0] == 'c' and u[3][1] & CONTIG and lo == u[3][1]:
                return True
            if u[0] == 'icmp' and u[1] == 'eq' and lo == 1 and u[2][0] == 'op' and u[2][2] == ('flags', a) and u[2][3] == u[3] and \
                    u[3][0] == 'c' and u[3][1] & CONTIG:
                return True
        return False

    def bits(self, a):
        """flags the array is known to have"""
        if self.st is None:
            return 0
        b = self.st.facts.get(('hasflags', a), 0)
        for u, (lo, hi, ne) in self.st.con.items():
            if u[0] == 'op' and u[1] == 'and' and u[2] == ('flags', a) and u[3][0] == 'c' and lo == hi and lo >= 0:
                b |= lo
            elif u[0] == 'icmp' and u[1] == 'eq' and lo == 1 and u[2][0] == 'op' and u[2][1] == 'and' and u[2][2] == ('flags', a) and u[3][0] == 'c':
                b |= u[3][1]
            elif u[0] == 'op' and u[1] == 'and' and u[2] == ('flags', a) and u[3][0] == 'c' and bin(u[3][1]).count('1') == 1 and (lo > 0 or 0 in ne):
                b |= u[3][1]
        return b

    def native(self, a):
        """the elements are in native byte order"""
        if self.st is None or ('hasflags', a) in self.st.facts:
            return True
        for u, (lo, hi, ne) in self.st.con.items():
            if u == ('descrf', a, BYTEORDER):
                if 62 in ne or lo > 62 or hi < 62:      # '>'
                    return True
            elif u[0] == 'icmp' and u[1] == 'eq' and u[2] == ('descrf', a, BYTEORDER) and u[3] == ('c', 62) and (lo, hi) == (0, 0):
                return True
        return False

    def access_ok(self, a, write):
        """None, or what was not checked before elements of a caller's array are accessed in place"""
        if not self.given(a):
            return None
        b = self.bits(a)
        if write and not b & 0x400:
            return 'is written, but was not checked to be writeable'
        if not b & 0x100:
            return 'was not checked to be aligned'
        if not self.native(a):
            return 'was not checked to be in native byte order'
        return None

    def given(self, a):
        """the array is the caller's, or one made from it with its shape"""
        for _ in range(6):
            if a[0] == 'obj':
                return True
            b = self.st.facts.get(('shapeof', a)) if self.st is not None else None
            if b is None:
                return False
            a = b
        return False

    def layout(self, a):
        t = self.tnum(a)
        return LAYOUT.get(t) if t is not None else None


DEPTH = 10
BYTEORDER = 4        # field of the descriptor
PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Bounds:
    def __init__(self, fn, params, ctx, cname=None):
        """params: {register: term or Poly}; ctx: the caller's facts"""
        self.fn, self.ctx = fn, ctx
        self.params = params
        self.cn = cname or (lambda i: base_name(i.callee()) if i.callee() else None)
        self.dom = fn.dominators()
        self._poly, self._facts, self._addr = {}, {}, {}
        self.order = {b: k for k, b in enumerate(fn.rpo())}

    # ---- values
    def poly(self, v):
        if v[0] == 'int':
            return Poly.const(v[1])
        if v[0] == 'null':
            return Poly.const(0)
        if v[0] != 'reg':
            return Poly.atom(('?', str(v)))
        r = v[1]
        if r not in self._poly:
            self._poly[r] = Poly.atom(('reg', r))
            self._poly[r] = self._mk(r)
        return self._poly[r]

    def obj(self, v):
        """the array term a value denotes"""
        if v[0] == 'reg':
            if v[1] in self.params and not isinstance(self.params[v[1]], Poly):
                return self.params[v[1]]
            d = self.fn.defs.get(v[1])
            if d is not None and d.op in ('bitcast', 'freeze'):
                return self.obj(d.ops[0])
            return ('o', v[1])
        return ('o', str(v))

    def _mk(self, r):
        if r in self.params:
            t = self.params[r]
            return t if isinstance(t, Poly) else self.ctx.poly(t)
        d = self.fn.defs.get(r)
        if d is None:
            return Poly.atom(('reg', r))
        op = d.op
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            return self.poly(d.ops[0])
        if op in ('add', 'sub', 'mul'):
            a, b = self.poly(d.ops[0]), self.poly(d.ops[1])
            return a + b if op == 'add' else a - b if op == 'sub' else a * b
        if op == 'shl':
            k = self.poly(d.ops[1]).value()
            if k is not None and 0 <= k < 32:
                return self.poly(d.ops[0]) * Poly.const(1 << k)
        if op == 'or' and d.ops[1] == ('int', 1):
            a = self.poly(d.ops[0])
            if a.div(2) is not None:
                return a + Poly.const(1)
        if op in ('call', 'invoke'):
            n = self.cn(d)
            if n == 'PyArray_DIM':
                return self.ctx.poly(('dim', self.obj(d.x['args'][0]), self.idxterm(d.x['args'][1])))
            if n == 'PyArray_STRIDE':
                return Poly.atom(('stride', self.obj(d.x['args'][0]), self.idxkey(d.x['args'][1])))
            if n == 'PyArray_NDIM':
                return self.ctx.poly(('nd', self.obj(d.x['args'][0])))
            if n == 'PyArray_MultiplyList':
                pass
        if op == 'load':
            s = self.shape_load(d)
            if s is not None:
                return s
        return Poly.atom(('reg', r))

    def idxterm(self, v):
        p = self.poly(v)
        if p.value() is not None:
            return ('c', p.value())
        return ('poly', frozenset(p.items()))

    idxkey = idxterm

    def shape_load(self, d):
        """a load through PyArray_STRIDES(a) / PyArray_DIMS(a)"""
        p = d.ops[0]
        idx = ('int', 0)
        for _ in range(4):
            if p[0] != 'reg':
                return None
            q = self.fn.defs.get(p[1])
            if q is None:
                return None
            if q.op == 'getelementptr' and len(q.ops) == 2 and q.x.get('elem') == 'i64':
                idx = q.ops[1]
                p = q.ops[0]
                continue
            if q.op in ('call', 'invoke'):
                n = self.cn(q)
                if n == 'PyArray_STRIDES':
                    return Poly.atom(('stride', self.obj(q.x['args'][0]), self.idxkey(idx)))
                if n in ('PyArray_DIMS', 'PyArray_SHAPE'):
                    return self.ctx.poly(('dim', self.obj(q.x['args'][0]), self.idxterm(idx)))
            return None
        return None

    # ---- addresses: (base, offset polynomial in bytes) or None
    def addr(self, v, seen=()):
        if v[0] == 'null':
            return (('null',), Poly())
        if v[0] == 'glob':
            return (('glob', v[1]), Poly())
        if v[0] == 'gep':
            b = self.addr(v[2], seen)
            if b is None or any(x != ('int', 0) for x in v[3:]):
                return None
            return b
        if v[0] != 'reg':
            return None
        r = v[1]
        if r in self._addr:
            return self._addr[r]
        if r in seen:
            return (('pphi', r), Poly())
        if r in self.params:
            t = self.params[r]
            if isinstance(t, Poly):
                return None
            off = Poly()
            while t[0] == 'gep':
                return None
            return (t, off)
        d = self.fn.defs.get(r)
        if d is None:
            return None
        res = None
        if d.op in ('bitcast', 'freeze'):
            res = self.addr(d.ops[0], seen)
        elif d.op == 'getelementptr':
            b = self.addr(d.ops[0], seen)
            sz = self.tysize(d.x.get('elem'))
            if b is not None and sz is not None:
                off = b[1] + self.poly(d.ops[1]) * Poly.const(sz)
                ty = d.x.get('elem')
                ok = True
                for o in d.ops[2:]:
                    ty = self.inner(ty)
                    if ty is None:
                        ok = False
                        break
                    off = off + self.poly(o) * Poly.const(self.tysize(ty))
                res = (b[0], off) if ok else None
            if res is None and b is not None and b[0][0] not in ('data', 'heap', 'walk', 'pphi'):
                res = (b[0], Poly.atom(('unk', r)))
        elif d.op in ('call', 'invoke'):
            n = self.cn(d)
            if n in ('PyArray_DATA', 'PyArray_BYTES'):
                res = (('data', self.obj(d.x['args'][0])), Poly())
            elif n in ('malloc', 'calloc', 'PyMem_Malloc'):
                res = (('heap', r), Poly())
            elif n in ('PyArray_STRIDES', 'PyArray_DIMS', 'PyArray_SHAPE'):
                res = (('shape', self.obj(d.x['args'][0])), Poly())
            elif n == 'PyArray_GETPTR1' or n == 'PyArray_GETPTR2':
                a = self.obj(d.x['args'][0])
                off = Poly()
                for k, x in enumerate(d.x['args'][1:]):
                    off = off + self.poly(x) * Poly.atom(('stride', a, ('c', k)))
                res = (('data', a), off)
        elif d.op == 'alloca':
            res = (('alloca', r), Poly())
        elif d.op == 'phi':
            res = self.ptr_phi(d, seen)
        elif d.op == 'select':
            a, b = self.addr(d.ops[1], seen), self.addr(d.ops[2], seen)
            if a and b and a[0] == b[0] and a[1] == b[1]:
                res = a
            elif a and b and a[0] == ('null',):
                res = b
            elif a and b and b[0] == ('null',):
                res = a
        elif d.op == 'load':
            res = (('ptr', r), Poly())
        if not any(s == r for s in seen) and (res is None or not any(a[0] == 'pphi' for a in [res[0]])):
            self._addr[r] = res
        return res

    def ptr_phi(self, d, seen):
        inits, steps = [], []
        for v, p in d.x['inc']:
            a = self.addr(v, seen + (d.res,))
            if a is None:
                return None
            if a[0] == ('pphi', d.res):
                if a[1]:
                    steps.append((a[1], p))
            elif a[0] != ('null',):
                inits.append(a)
        if not inits:
            return None
        if any(x != inits[0] for x in inits):
            return None
        base, off = inits[0]
        if not steps:
            return inits[0]
        if len(steps) == 1 and base[0] == 'data' and not off:
            # element walk: one index*stride step per dimension
            s, blk = steps[0]
            st = [a for a in s.atoms() if a[0] == 'stride']
            if len(st) == 1:
                sp = s.split(st[0])
                if sp is not None and not sp[1]:
                    return (('walk', base[1], st[0], d.block, blk, frozenset(sp[0].items()), st[0][1]), Poly())
        return None

    def tysize(self, ty):
        if ty is None:
            return None
        if ty in TYSIZE:
            return TYSIZE[ty]
        if ty.startswith('['):
            n, t = ty[1:-1].split(' x ', 1)
            s = self.tysize(t.strip())
            return None if s is None else int(n) * s
        return None

    def inner(self, ty):
        if ty and ty.startswith('['):
            return ty[1:-1].split(' x ', 1)[1].strip()
        return None

    # ---- facts that hold at a block: list of polynomials >= 0
    def facts(self, b):
        if b in self._facts:
            return self._facts[b]
        self._facts[b] = []
        out = []
        blk = b
        doms = [x for x in self.dom[b]]
        for p in doms:
            t = self.fn.blocks[p].insts[-1]
            if t.op not in ('br', 'switch') or len(t.x['succ']) < 2:
                continue
            for s in set(t.x['succ']):
                if s != p and s in self.dom[b] and self.only_from(s, p) and t.x['succ'].count(s) == 1:
                    out += self.edge_facts(p, s)
        self._facts[b] = out
        return out

    def only_from(self, s, p):
        """every way into s that is not a loop back to it comes from p"""
        return all(q == p or s in self.dom.get(q, ()) for q in self.preds(s))

    def preds(self, s):
        if not hasattr(self, '_preds'):
            self._preds = {x: [] for x in self.fn.blocks}
            for b in self.fn.order:
                for t in self.fn.blocks[b].succ:
                    self._preds[t].append(b)
        return self._preds[s]

    def edge_facts(self, p, s, depth=0):
        t = self.fn.blocks[p].insts[-1]
        if t.op == 'br' and len(t.x['succ']) == 2:
            truth = t.x['succ'][0] == s
            return self.cond(t.ops[0], truth, depth, p)
        if t.op == 'switch':
            ks = [k for k, g in t.x['cases'] if g == s]
            x = self.poly(t.ops[0])
            out = []
            if t.x['default'] != s and len(ks) == 1:
                out = [x - Poly.const(ks[0]), Poly.const(ks[0]) - x]
                out += self.via_phi(t.ops[0], lambda c: c == ks[0], p, depth)
            elif t.x['default'] == s and not ks:
                bad = {k for k, g in t.x['cases']}
                out += self.via_phi(t.ops[0], lambda c: c not in bad, p, depth)
            return out
        return []

    def via_phi(self, v, want, blk, depth):
        """a test on a phi of constants in the testing block: facts of the only way in that passes it"""
        if v[0] != 'reg' or depth > 3:
            return []
        d = self.fn.defs.get(v[1])
        if d is None or d.op != 'phi' or d.block != blk:
            return []
        ways = []
        for x, p in d.x['inc']:
            if x[0] == 'int':
                if want(x[1]):
                    ways.append(p)
            else:
                ways.append(p)
        if len(set(ways)) != 1:
            return []
        q = ways[0]
        return self.facts(q) + self.edge_facts(q, blk, depth + 1)

    def cond(self, v, truth, depth=0, blk=None):
        if v[0] != 'reg' or depth > 6:
            return []
        d = self.fn.defs.get(v[1])
        if d is None:
            return []
        if d.op == 'xor' and d.ops[1] == ('int', 1):
            return self.cond(d.ops[0], not truth, depth + 1, blk)
        if d.op == 'and' and truth or d.op == 'or' and not truth:
            return self.cond(d.ops[0], truth, depth + 1, blk) + self.cond(d.ops[1], truth, depth + 1, blk)
        if d.op == 'phi':
            want = lambda c: bool(c) == truth
            out = self.via_phi(v, want, d.block, depth)
            if blk == d.block:
                # the one non-constant incoming value must have had this truth
                ways = [(x, p) for x, p in d.x['inc'] if not (x[0] == 'int' and bool(x[1]) != truth)]
                if len(ways) == 1 and ways[0][0][0] == 'reg':
                    out = out + self.cond(ways[0][0], truth, depth + 1, ways[0][1])
            return out
        if d.op == 'icmp':
            p = d.x['pred'] if truth else NEG[d.x['pred']]
            if d.ty == 'ptr':
                return []
            a, b = self.poly(d.ops[0]), self.poly(d.ops[1])
            # comparison of a boolean with 0/1
            if b.value() in (0, 1) and p in ('eq', 'ne') and d.ops[0][0] == 'reg':
                e = self.fn.defs.get(d.ops[0][1])
                while e is not None and e.op in ('zext', 'sext', 'trunc', 'freeze') and e.ops[0][0] == 'reg':
                    e = self.fn.defs.get(e.ops[0][1])
                if e is not None and (e.op == 'icmp' or e.ty == 'i1'):
                    return self.cond(('reg', e.res), (b.value() == 1) == (p == 'eq'), depth + 1, blk)
            one = Poly.const(1)
            if p == 'eq':
                return [a - b, b - a]
            if p == 'slt':
                return [b - a - one]
            if p == 'sle':
                return [b - a]
            if p == 'sgt':
                return [a - b - one]
            if p == 'sge':
                return [a - b]
            if p == 'ult' and b.value() is None or p == 'ult' and b.value() >= 0:
                return [b - a - one, a] if self.nonneg(b, d.block, 3) else []
            if p == 'ule':
                return [b - a, a] if self.nonneg(b, d.block, 3) else []
            if p == 'ne' and b.value() is not None and self.lowest(a, d.block) == b.value():
                return [a - b - one]
        return []

    def lowest(self, a, b):
        if len(a) == 1:
            (m, c), = a.items()
            if len(m) == 1 and c == 1:
                lo = self.ctx.lower(m[0]) if m[0][0] != 'reg' else -(1 << 70)
                return lo
        return None

    # ---- bounds of an atom at a block
    def is_base(self, a):
        return a[0] != 'reg'

    def nonneg(self, p, b, depth=DEPTH, hyp=()):
        """is the polynomial provably >= 0 at block b?"""
        if depth < 0:
            return False
        v = p.value()
        if v is not None:
            return v >= 0
        facts = self.facts_all(b, hyp)
        for f in facts:
            d = p - f
            if d.value() is not None and d.value() >= 0:
                return True
        atoms = sorted((a for a in p.atoms() if not self.is_base(a)), key=repr)
        if not atoms:
            return self.base_nonneg(p, facts)
        # eliminate one SSA atom through one of its bounds
        for a in atoms:
            s = p.split(a)
            if s is None:
                continue
            c, rest = s
            sg = self.sign(c, b, depth - 1, hyp)
            if sg is None:
                continue
            for bd in (self.lowers(a, b, depth - 1, hyp) if sg > 0 else self.uppers(a, b, depth - 1, hyp)):
                if self.nonneg(c * bd + rest, b, depth - 1, hyp):
                    return True
        return False

    def facts_all(self, b, hyp):
        return list(hyp) + self.facts(b)

    def sign(self, c, b, depth, hyp):
        v = c.value()
        if v is not None:
            return 1 if v > 0 else -1
        if self.nonneg(c, b, depth, hyp):
            return 1
        if self.nonneg(-c, b, depth, hyp):
            return -1
        return None

    def base_nonneg(self, p, facts=()):
        """over base atoms: shift by lower bounds, all coefficients non-negative"""
        for _ in range(6):
            q = p
            ok = True
            for a in sorted(q.atoms(), key=repr):
                lo = self.ctx.lower(a)
                hi = self.ctx.upper(a)
                s = q.split(a)
                if s is None:
                    ok = False
                    break
                if lo > -(1 << 62):
                    q = q.subst(a, Poly.atom(('s', a)) + Poly.const(lo))
                elif hi < (1 << 62):
                    q = q.subst(a, Poly.const(hi) - Poly.atom(('s', a)))
                else:
                    ok = False
                    break
            if ok and all(c >= 0 for m, c in q.items()):
                return True
            # an upper bound where the coefficient is negative
            if ok:
                for a in sorted(p.atoms(), key=repr):
                    hi = self.ctx.upper(a)
                    c, r = p.split(a)
                    if hi < (1 << 62) and c.value() is not None and c.value() < 0:
                        return self.base_nonneg(r + c * Poly.const(hi))
            # use one fact among base atoms
            for f in facts:
                if f.atoms() and not any(not self.is_base(a) for a in f.atoms()):
                    d = p - f
                    if d.value() is not None and d.value() >= 0:
                        return True
                    dd = d
                    if len(dd.atoms()) < len(p.atoms()) and self.base_nonneg(dd):
                        return True
            return False
        return False

    def from_facts(self, a, b, hyp, lower):
        out = []
        for f in self.facts_all(b, hyp):
            if a in f.atoms():
                s = f.split(a)
                if s is None:
                    continue
                c, r = s
                v = c.value()
                if v == 1 and lower:
                    out.append(-r)
                elif v == -1 and not lower:
                    out.append(r)
                elif v is not None and v > 1 and lower and r.value() is not None:
                    out.append(Poly.const(-(r.value() // v)))
                elif v is not None and v < -1 and not lower and r.value() is not None:
                    out.append(Poly.const(r.value() // -v))
        return out

    def lowers(self, a, b, depth, hyp):
        return self.bounds(a, b, depth, hyp, True)

    def uppers(self, a, b, depth, hyp):
        return self.bounds(a, b, depth, hyp, False)

    def bounds(self, a, b, depth, hyp, lower):
        out = self.from_facts(a, b, hyp, lower)
        if depth < 0 or a[0] != 'reg':
            return out
        d = self.fn.defs.get(a[1])
        if d is None:
            return out
        if d.op in ('srem', 'urem'):
            x, y = self.poly(d.ops[0]), self.poly(d.ops[1])
            if self.nonneg(y - Poly.const(1), d.block, depth - 1, ()):
                if lower:
                    out.append(Poly() if d.op == 'urem' or self.nonneg(x, d.block, depth - 1, hyp) else Poly.const(1) - y)
                else:
                    out.append(y - Poly.const(1))
        elif d.op in ('sdiv', 'udiv', 'ashr', 'lshr'):
            x, y = self.poly(d.ops[0]), self.poly(d.ops[1])
            k = y.value()
            if k is not None and self.nonneg(x, d.block, depth - 1, hyp):
                if lower:
                    out.append(Poly())
                else:
                    out.append(x)
                    n = k if d.op in ('sdiv', 'udiv') else 1 << k
                    if n > 0 and x.div(n) is not None:
                        out.append(x.div(n))
        elif d.op == 'and':
            m = self.poly(d.ops[1]).value()
            if m is not None and m >= 0:
                out.append(Poly() if lower else Poly.const(m))
        elif d.op in ('zext',) and d.x.get('from') in ('i8', 'i16', 'i1'):
            out.append(Poly() if lower else Poly.const((1 << int(d.x['from'][1:])) - 1))
        elif d.op == 'select':
            arms = []
            for o, truth in ((d.ops[1], True), (d.ops[2], False)):
                arms.append((self.poly(o), d.block, self.cond(d.ops[0], truth, 0, d.block)))
            out += self.merge(a, arms, depth, hyp, lower, False)
        elif d.op == 'phi':
            arms = [(self.poly(v), p, self.edge_facts(p, d.block)) for v, p in d.x['inc'] if v[0] != 'undef']
            out += self.merge(a, arms, depth, hyp, lower, True)
        return out

    def merge(self, a, arms, depth, hyp, lower, phi):
        """bounds common to all arms (inductively, for a phi)"""
        if depth < 1:
            return []
        key = (a, lower)
        if getattr(self, '_busy', None) is None:
            self._busy = set()
        if key in self._busy:
            return []
        memo = self.__dict__.setdefault('_memo', {})
        if not hyp and key in memo:
            return memo[key]
        self._busy.add(key)
        try:
            cands = []
            for p, blk, fs in arms:
                for c in self.bound_cands(p, blk, list(fs) + list(hyp), depth - 1, lower, set()):
                    if a not in c.atoms() and c not in cands:
                        cands.append(c)
            if lower and Poly() not in cands:
                cands.append(Poly())
            good = []
            for c in cands[:10]:
                h = (Poly.atom(a) - c) if lower else (c - Poly.atom(a))
                web = self.web(a) if phi else {a}
                hs = []
                for w in web:
                    hs.append((Poly.atom(w) - c) if lower else (c - Poly.atom(w)))
                if all(self.holds(w, c, lower, depth - 1, tuple(hs) + tuple(hyp)) for w in web):
                    good.append(c)
                elif len(web) > 1 and self.holds(a, c, lower, depth - 1, (h,) + tuple(hyp)):
                    good.append(c)
            if not hyp:
                memo[key] = good
            return good
        finally:
            self._busy.discard(key)

    def web(self, a):
        """phis connected with a through phi operands only"""
        out, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            d = self.fn.defs.get(x[1])
            if d is None or d.op not in ('phi', 'select'):
                continue
            out.add(x)
            for o in ([v for v, p in d.x['inc']] if d.op == 'phi' else d.ops[1:3]):
                p = self.poly(o)
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and c == 1 and m[0][0] == 'reg':
                        todo.append(m[0])
            if len(out) > 12:
                break
        return out

    def holds(self, w, c, lower, depth, hyp):
        d = self.fn.defs[w[1]]
        if d.op == 'phi':
            arms = [(self.poly(v), p, self.edge_facts(p, d.block)) for v, p in d.x['inc'] if v[0] != 'undef']
        elif d.op == 'select':
            arms = [(self.poly(o), d.block, self.cond(d.ops[0], truth, 0, d.block)) for o, truth in ((d.ops[1], True), (d.ops[2], False))]
        else:
            return False
        for p, blk, fs in arms:
            q = (p - c) if lower else (c - p)
            if not self.nonneg(q, blk, depth, tuple(fs) + tuple(hyp)):
                return False
        return True

    def bound_cands(self, p, blk, hyp, depth, lower, seen):
        """candidate bounds (over base atoms where possible) of a polynomial"""
        v = p.value()
        if v is not None:
            return [p]
        ssa = [a for a in p.atoms() if not self.is_base(a)]
        if not ssa:
            return [p]
        if depth < 0:
            return []
        a = ssa[0]
        if a in seen:
            return []
        seen = seen | {a}
        s = p.split(a)
        if s is None:
            return []
        c, r = s
        k = c.value()
        if k is None:
            return []
        lo = lower if k > 0 else not lower
        out = []
        bs = list(self.from_facts(a, blk, hyp, lo))
        d = self.fn.defs.get(a[1])
        if d is not None and d.op in ('phi', 'select'):
            for o in ([v for v, p in d.x['inc']] if d.op == 'phi' else d.ops[1:3]):
                q = self.poly(o)
                pb = dict((('%s' % (vv,)), pp) for vv, pp in d.x['inc']).get('%s' % (o,), blk) if d.op == 'phi' else d.block
                if a not in q.atoms():
                    bs += self.bound_cands(q, pb, [], depth - 1, lo, seen)
        elif d is not None:
            bs += self.bounds(a, blk, depth - 1, tuple(hyp), lo)
        for x in bs[:8]:
            e = c * x + r
            if e not in out:
                out += [z for z in self.bound_cands(e, blk, hyp, depth - 1, lower, seen)] if any(not self.is_base(y) for y in e.atoms()) else [e]
        return out

    # ---- refutation: values an expression certainly takes
    def attained(self, p, b, depth=3, up=True):
        """polynomials over base/free atoms that p is known to reach"""
        ssa = sorted((a for a in p.atoms() if not self.is_base(a)), key=repr)
        if not ssa:
            return [p]
        a = ssa[0]
        out = []
        s = p.split(a)
        if s is None:
            return []
        c, r = s
        for v in self.reach(a, b, depth):
            out += self.attained(c * v + r, b, depth)
            if len(out) > 40:
                break
        return out

    def counter(self, a):
        """(initial value, guard polynomial N with a < N) of a unit-step counting loop"""
        d = self.fn.defs.get(a[1])
        if d is None or d.op != 'phi':
            return None
        init, step = None, None
        for v, p in d.x['inc']:
            q = self.poly(v)
            if q == Poly.atom(a) + Poly.const(1):
                step = p
            elif a in q.atoms():
                return None
            elif init is not None and init != q:
                return None
            else:
                init = q
        if init is None or step is None:
            return None
        return init

    def reach(self, a, b, depth):
        """values atom a certainly takes at block b"""
        if depth < 0:
            return []
        d = self.fn.defs.get(a[1])
        if d is None:
            return []
        if self.arbitrary(d):
            return [Poly.atom(('free', a[1]))]
        if d.op == 'phi':
            init = self.counter(a)
            if init is not None:
                ub = self.from_facts(a, b, (), False)
                out = [init]
                if len(ub) == 1:
                    out.append(ub[0])
                return [z for y in out for z in self.attained(y, b, depth - 1)]
            out = []
            for v, p in d.x['inc']:
                if v[0] == 'undef':
                    continue
                for z in self.attained(self.poly(v), p, depth - 1):
                    if z not in out:
                        out.append(z)
            return out[:12]
        if d.op == 'select':
            out = []
            for o in d.ops[1:3]:
                for z in self.attained(self.poly(o), d.block, depth - 1):
                    if z not in out:
                        out.append(z)
            return out[:12]
        if d.op == 'srem':
            x, y = self.poly(d.ops[0]), self.poly(d.ops[1])
            xs = self.attained(x, d.block, depth - 1)
            out = []
            if any(any(z[0] == 'free' for z in q.atoms()) for q in xs):
                out = [y - Poly.const(1), Poly.const(1) - y]
            else:
                for q in xs:
                    out.append(Poly.atom(('rem', frozenset(q.items()), frozenset(y.items()))))
            return [z for q in out for z in self.attained(q, d.block, depth - 1)]
        return []

    def arbitrary(self, d):
        """a value the caller chooses freely: an element of an argument array, a float turned integer"""
        if d.op in ('fptosi', 'fptoui'):
            return True
        if d.op == 'load':
            a = self.addr(d.ops[0])
            return a is not None and a[0][0] in ('data', 'walk')
        return False

    def witness(self, conds, b, goal):
        """small concrete sizes for which all conds hold (facts at b) and one of goal polys is negative"""
        for e in goal:
            for att in self.attained(e, b, 6):
                env = self.solve(att, b)
                if env is not None:
                    return '%s = %s < 0 with %s' % (e, att.eval_rem(env) if hasattr(att, 'eval_rem') else ev(att, env), ', '.join(
                        '%s=%d' % (show(a), v) for a, v in sorted(env.items(), key=repr) if a[0] != 'rem'))
        return None

    def solve(self, p, b):
        atoms = set()
        leaf(p, atoms)
        base = sorted(atoms, key=repr)
        if len(base) > 5:
            return None
        doms = []
        for a in base:
            if a[0] == 'free':
                doms.append([0, 1, -1, 2, -2, 3, 5, -5, 7])
            elif a[0] == 'reg' or a[0] == '?' or a[0] in ('v', 'ld', 'j', 'op', 'poly') :
                return None
            else:
                lo, hi = self.ctx.lower(a), self.ctx.upper(a)
                vals = [x for x in (1, 2, 3, 4, 5, 0, -1, 100, -100, 10000, -10000, 1 << 20) if lo <= x <= hi]
                for x in (lo, hi):
                    if abs(x) < 1 << 40 and x not in vals:
                        vals.append(x)
                if a[0] in ('dim',):
                    vals = [x for x in vals if 0 <= x <= 5]
                doms.append(vals)
        for combo in itertools.product(*doms):
            env = dict(zip(base, combo))
            v = ev(p, env)
            if v is None or v >= 0:
                continue
            ok = True
            for f in self.facts(b):
                fa = set()
                leaf(f, fa)
                if fa <= set(env):
                    w = ev(f, env)
                    if w is None or w < 0:
                        ok = False
                        break
            if ok and self.free_ok(p, b, env):
                return env
        return None

    def free_ok(self, p, b, env):
        """free values must respect the tests made on them before b"""
        for a, v in env.items():
            if a[0] != 'free':
                continue
            r = ('reg', a[1])
            for f in self.facts(b):
                if r in f.atoms():
                    g = f.subst(r, Poly.const(v))
                    if g is None:
                        return False
                    fa = set()
                    leaf(g, fa)
                    w = ev(g, env) if fa <= set(env) else None
                    if w is None or w < 0:
                        return False
        return True

    # ---- obligations
    def check_range(self, e, n, b):
        """0 <= e < n at block b -> (verdict, text)"""
        lo = self.nonneg(e, b)
        hi = self.nonneg(n - Poly.const(1) - e, b)
        if lo and hi:
            return PROVED, ''
        goal = ([e] if not lo else []) + ([n - Poly.const(1) - e] if not hi else [])
        w = self.witness((), b, goal)
        if w:
            return REFUTED, 'index %s is not within 0..%s: %s' % (e, n - Poly.const(1), w)
        return UNDECIDED, 'index %s within 0..%s' % (e, n - Poly.const(1))

    def access(self, i):
        """-> None (nothing to show) or (verdict, kind, text)"""
        ptr = i.ops[0] if i.op == 'load' else i.ops[1]
        return self.check_ptr(ptr, i.ty, i.block, i.op == 'store')

    def check_ptr(self, ptr, ty, b, write=False):
        a = self.addr(ptr)
        if a is None:
            return UNDECIDED, 'address', 'an address the analysis cannot resolve'
        base, off = a
        sz = self.tysize(ty)
        k = base[0]
        if k in ('glob', 'alloca', 'ptr', 'shape', 'null', 'arg', 'addr', 'g'):
            if k == 'alloca':
                d = self.fn.defs[base[1]]
                n = self.tysize(d.x.get('alloc'))
                if n is not None and sz and not d.ops and not any(x[0] == 'unk' for x in off.atoms()):
                    v, t = self.check_range(off, Poly.const(n - sz + 1), b)
                    return v, 'local', t
            return None
        if k in ('data', 'walk'):
            bad = self.ctx.access_ok(base[1], write)
            if bad:
                return REFUTED, 'behaved', '%s %s' % (show(base[1]), bad)
        if k == 'data':
            return self.check_data(base[1], off, ty, b)
        if k == 'walk':
            return self.check_walk(base, off, ty, b)
        if k == 'heap':
            d = self.fn.defs[base[1]]
            args = d.x['args']
            n = self.poly(args[0])
            if self.cn(d) == 'calloc':
                n = n * self.poly(args[1])
            q, m = off.div(sz), n.div(sz)
            if q is not None and m is not None:
                v, t = self.check_range(q, m, b)
            else:
                v, t = self.check_range(off, n - Poly.const(sz - 1), b)
            return v, 'buffer', t
        return UNDECIDED, 'address', 'an address the analysis cannot resolve'

    def type_ok(self, a, ty, rest):
        """None if the element access agrees with the array's element type"""
        lay = self.ctx.layout(a)
        if lay is None:
            return REFUTED if self.ctx.st is not None and self.ctx.given(a) else UNDECIDED, 'the element type of %s was not checked' % show(a)
        t, n = lay
        if t != ty and not (ty in ('i8', 'i1') and t in ('i8', 'i1')):
            return REFUTED, 'accesses %s as %s, its elements are %s' % (show(a), ty, NPYNAME[self.ctx.tnum(a)])
        if rest is not None and not (0 <= rest and rest + TYSIZE[ty] <= n * TYSIZE[t] and rest % TYSIZE[t] == 0):
            return REFUTED, 'accesses bytes %d.. of an element of %s (%s)' % (rest, show(a), NPYNAME[self.ctx.tnum(a)])
        return None

    def check_data(self, a, off, ty, b):
        strides = [x for x in off.atoms() if x[0] == 'stride']
        if strides:
            rest = off
            idx = {}
            for s in strides:
                if s[1] != a:
                    return REFUTED, 'stride', 'an element of %s is addressed with the strides of %s' % (show(a), show(s[1]))
                sp = rest.split(s)
                if sp is None:
                    return UNDECIDED, 'address', 'a non-linear stride'
                idx[s[2]] = sp[0]
                rest = sp[1]
            rv = rest.value()
            if rv is None:
                return UNDECIDED, 'address', 'an offset within an element of %s' % show(a)
            bad = self.type_ok(a, ty, rv)
            if bad:
                return bad[0], 'type', bad[1]
            nd = self.ctx.nd(a)
            worst = PROVED, 'bounds', ''
            for k, e in sorted(idx.items(), key=repr):
                if k[0] == 'c':
                    if nd is None and not self.nonneg(self.ctx.poly(('nd', a)) - Poly.const(k[1] + 1), b):
                        return self.unranked(a, k)
                    if nd is not None and k[1] >= nd:
                        return REFUTED, 'rank', 'dimension %d of %s is used, it has rank %d' % (k[1], show(a), nd)
                v, t = self.check_range(e, self.ctx.poly(('dim', a, k)), b)
                if v != PROVED:
                    t = '%s, dimension %s: %s' % (show(a), k[1] if k[0] == 'c' else '?', t)
                    if v == REFUTED:
                        return v, 'bounds', t
                    worst = v, 'bounds', t
            return worst
        lay = self.ctx.layout(a)
        bad = self.type_ok(a, ty, None)
        if bad:
            return bad[0], 'type', bad[1]
        if not self.ctx.packed(a):
            if not off:
                return self.first(a, b)
            return (REFUTED if self.ctx.given(a) else UNDECIDED), 'contiguity', '%s is walked as packed memory, but was not checked to be contiguous' % show(a)
        nd = self.ctx.nd(a)
        if nd is None:
            return (REFUTED if self.ctx.given(a) else UNDECIDED), 'rank', 'the rank of %s was not checked' % show(a)
        n = Poly.const(lay[1])
        for k in range(nd):
            n = n * self.ctx.poly(('dim', a, ('c', k)))
        q = off.div(TYSIZE[ty])
        if q is None:
            return UNDECIDED, 'address', 'an unaligned offset into %s' % show(a)
        v, t = self.check_range(q, n, b)
        return v, 'bounds', '%s: %s' % (show(a), t)

    def first(self, a, b):
        if self.ctx.lower(('size', a)) >= 1:
            return PROVED, 'bounds', ''
        nd = self.ctx.nd(a)
        if nd is not None and all(self.nonneg(self.ctx.poly(('dim', a, ('c', k))) - Poly.const(1), b) for k in range(nd)):
            return PROVED, 'bounds', ''
        return UNDECIDED, 'bounds', 'the first element of %s' % show(a)

    def unranked(self, a, k):
        return (REFUTED if self.ctx.given(a) else UNDECIDED), 'rank', 'dimension %d of %s is used, its rank was not checked' % (k[1], show(a))

    def check_walk(self, base, off, ty, b):
        _, a, stride, head, blk, step, sa = base
        rest = off.value()
        if rest is None:
            return UNDECIDED, 'address', 'an offset within an element of %s' % show(a)
        if sa != a:
            return REFUTED, 'stride', 'an element of %s is addressed with the strides of %s' % (show(a), show(sa))
        bad = self.type_ok(a, ty, rest)
        if bad:
            return bad[0], 'type', bad[1]
        k = stride[2]
        e = Poly(dict(step))
        if k[0] != 'poly':
            return UNDECIDED, 'address', 'a walk over one dimension of %s' % show(a)
        j = Poly(dict(k[1]))
        c = None
        if len(j) == 1:
            (m, cf), = j.items()
            if len(m) == 1 and cf == 1 and m[0][0] == 'reg':
                c = m[0]
        init = self.counter(c) if c is not None and self.fn.defs[c[1]].op == 'phi' else None
        if init is None or init.value() != 0:
            return UNDECIDED, 'address', 'a walk over the dimensions of %s' % show(a)
        nd = self.ctx.poly(('nd', a))
        if not self.nonneg(nd - Poly.const(1) - j, blk):
            w = self.witness((), blk, [nd - Poly.const(1) - j])
            return (REFUTED if w else UNDECIDED), 'rank', 'dimensions of %s beyond its rank are used: %s' % (show(a), w)
        v, t = self.check_range(e, self.ctx.poly(('dim', a, k)), blk)
        if v != PROVED:
            return v, 'bounds', '%s, every dimension: %s' % (show(a), t)
        # the walk is complete where the element is used
        if b != blk and not self.nonneg(j - nd, b) and not self.nonneg(nd - Poly.const(1) - j, b):
            return UNDECIDED, 'bounds', 'the walk over %s is complete' % show(a)
        return PROVED, 'bounds', ''

    def divisors(self):
        for i in self.fn.insts():
            if i.op in ('srem', 'sdiv', 'urem', 'udiv') and i.ops[1][0] == 'reg':
                y = self.poly(i.ops[1])
                if y.value() is not None and y.value() != 0:
                    continue
                if self.nonneg(y - Poly.const(1), i.block) or self.nonneg(-y - Poly.const(1), i.block):
                    yield i, PROVED, ''
                    continue
                w = None
                for att in self.attained(y, i.block):
                    for g in (att - Poly.const(1),):
                        env = self.solve(g, i.block)
                        if env is not None and ev(att, env) == 0:
                            w = ', '.join('%s=%d' % (show(a), v) for a, v in sorted(env.items(), key=repr))
                yield i, (REFUTED if w else UNDECIDED), 'the divisor %s can be zero (%s)' % (y, w) if w else 'the divisor %s' % y


def leaf(p, out):
    for a in p.atoms():
        if a[0] == 'rem':
            leaf(Poly(dict(a[1])), out)
            leaf(Poly(dict(a[2])), out)
        else:
            out.add(a)


def ev(p, env):
    t = 0
    for m, c in p.items():
        for a in m:
            if a[0] == 'rem':
                x, y = ev(Poly(dict(a[1])), env), ev(Poly(dict(a[2])), env)
                if x is None or not y:
                    return None
                r = abs(x) % abs(y)
                c *= -r if x < 0 else r
            else:
                c *= env[a]
        t += c
    return t
