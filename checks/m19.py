"""M19: a CLEAN returns a model and the residual that belongs to it."""
import ast

from checks.m10 import Hooks, htypes
from sa import py
from sa.bounds import Bounds, Ctx, Poly, TYSIZE
from sa.capi import Ext, run as crun
from sa.ir import base_name
from sa.report import Result

RES, KER, MDL, AREA = range(4)          # the arguments of _deconv.clean, in the order Python passes them
COPY = {RES: 'residual', MDL: 'model'}


class Store:
    def __init__(self, **k):
        self.__dict__.update(k)


class Kernel:
    """the stores of one kernel, as changes of the model, of the residual, and of the copies kept of them"""

    def __init__(self, E, f, B, objs):
        self.E, self.f, self.B, self.objs = E, f, B, objs
        self.vals, self.unsure, self.bad = {}, [], []
        self.name = base_name(f.name)
        self.stores = []
        self.ndim = 0
        for i in f.insts():
            if i.op == 'store':
                t = i.text.strip().split()
                ty = t[2] if t[1] == 'volatile' else t[1]
                if ty in ('float', 'double', 'x86_fp80'):
                    self.store(i, ty)
            elif i.op in ('call', 'invoke'):
                g = E.m.functions.get(i.callee() or '')
                if g is not None and g.blocks and g.name in self.repo() and any(
                        o[0] == 'reg' and self.B.obj(o) in objs.values() for o in i.ops):
                    self.unsure.append('%s: a helper is handed the arrays' % E.m.where(i))
        self.roles()

    def repo(self):
        return {g.name for g in self.E.m.repo_defined()}

    # ---- values
    def base(self, p):
        a = self.B.addr(p)
        if a is None:
            return None, None
        b, off = a
        if b[0] == 'data':
            for k, o in self.objs.items():
                if b[1] == o:
                    return k, off
        return b, off

    def val(self, v):
        if v[0] == 'int':
            return Poly.const(v[1])
        if v[0] != 'reg':
            return Poly.atom(('lit', str(v)))
        if v[1] not in self.vals:
            self.vals[v[1]] = Poly.atom(('reg', v[1]))
            self.vals[v[1]] = self.mk(v[1])
        return self.vals[v[1]]

    def mk(self, reg):
        d = self.f.defs.get(reg)
        if d is None:
            return Poly.atom(('reg', reg))
        if d.op in ('fpext', 'fptrunc', 'bitcast', 'freeze'):
            return self.val(d.ops[0])
        if d.op == 'fneg':
            return -self.val(d.ops[0])
        if d.op in ('fadd', 'fsub', 'fmul'):
            a, b = self.val(d.ops[0]), self.val(d.ops[1])
            return a + b if d.op == 'fadd' else a - b if d.op == 'fsub' else a * b
        if d.op == 'call' and (d.callee() or '').startswith(('llvm.fmuladd', 'llvm.fma.')):
            a = [self.val(x) for x in (d.x.get('args') or d.ops)[:3]]
            return a[0] * a[1] + a[2]
        if d.op == 'load':
            b, off = self.base(d.ops[0])
            if b in (RES, KER, MDL) or isinstance(b, tuple) and b[0] == 'heap':
                return Poly.atom(('ld', b, off))
        return Poly.atom(('reg', reg))

    # ---- indices
    def decode(self, k, off, size):
        """offset in the data of array k -> (index along each axis, component)"""
        idx, c = {}, 0
        for m, n in off.items():
            s = [a for a in m if a[0] == 'stride']
            if m == ():
                c = n
            elif len(s) == 1 and s[0][1] == self.objs[k] and s[0][2][0] == 'c':
                l = list(m)
                l.remove(s[0])
                idx[s[0][2][1]] = idx.get(s[0][2][1], Poly()) + Poly({tuple(l): n})
            else:
                return None
        if c not in (0, size) or set(idx) - {0, 1}:
            return None
        return idx, c // size

    def dim(self, ax):
        return self.B.ctx.poly(('dim', self.objs[RES], ('c', ax)))

    def packed(self, idx, c, unit, size):
        p = idx.get(0, Poly())
        if self.ndim == 2:
            p = p * self.dim(1) + idx.get(1, Poly())
        return p * Poly.const(unit) + Poly.const(c * size)

    def loop(self, a):
        """(header, blocks) of the loop that the counter a belongs to"""
        d = self.f.defs.get(a[1]) if a[0] == 'reg' else None
        return (d.block, self.body(d.block)) if d is not None and d.op == 'phi' and self.B.counter(a) is not None else None

    def body(self, h):
        out, work = {h}, [b for b in self.f.blocks[h].pred if h in self.B.dom.get(b, ())]
        while work:
            b = work.pop()
            if b not in out:
                out.add(b)
                work += self.f.blocks[b].pred
        return out

    def headers_in(self, body):
        return [b for b in body if any(b in self.B.dom.get(p, ()) for p in self.f.blocks[b].pred)]

    def full(self, a, n, at):
        """None if the counter a of the loop around `at` runs over 0..n-1, else what is wrong ('?' if it cannot be told)"""
        h, body = self.loop(a)
        if self.B.counter(a) != Poly():
            return 'starts at %s' % self.B.counter(a) if self.B.counter(a).value() is not None else '?'
        ends = [b for b in body if any(s not in body for s in self.f.blocks[b].succ)]
        for b in ends:
            t = self.f.blocks[b].insts[-1]
            if b != h and not (b in body and self.f.blocks[b].succ and all(
                    s == h or s not in body for s in self.f.blocks[b].succ)):
                return 'is left early (%s)' % self.E.m.where(t)
            c = self.f.defs.get(t.ops[0][1]) if t.op == 'br' and t.ops and t.ops[0][0] == 'reg' else None
            if c is None or c.op != 'icmp':
                return '?'
            x, y = self.B.poly(c.ops[0]), self.B.poly(c.ops[1])
            p = c.x.get('pred')
            if p in ('sgt', 'ugt') and y == Poly.atom(a):
                x, y, p = y, x, 'slt'
            if b != h or x != Poly.atom(a) or p not in ('slt', 'ult', 'ne'):
                return '?'
            if y != n:
                return 'runs to %s, not to %s' % (y, n)
        inner = [x for x in self.headers_in(body) if x != h and at in self.body(x)]
        if inner:                               # the loops inside are reached every time; they are looked at themselves
            at = min(inner, key=lambda x: len(self.B.dom[x]))
        if at is not None:
            latches = [b for b in self.f.blocks[h].pred if b in body]
            if not all(at in self.B.dom.get(b, ()) for b in latches):
                return 'does not reach every element: the change is made under a condition'
        return None

    # ---- stores
    def store(self, i, ty):
        size = TYSIZE[ty]
        b, off = self.base(i.ops[1])
        if b is None or b == KER or b == AREA or isinstance(b, tuple) and b[0] != 'heap':
            if b is None:
                self.unsure.append('%s: a store whose place is not understood' % self.E.m.where(i))
            return
        v = self.val(i.ops[0])
        me = ('ld', b, off)
        d = v - Poly.atom(me) if v.get((me,)) == 1 else None
        lds = {a for a in v.atoms() if a[0] == 'ld'}
        s = Store(i=i, base=b, off=off, size=size, v=v, own=d is not None, delta=d, lds=lds, block=i.block)
        if b in (RES, MDL):
            dec = self.decode(b, off, size)
            if dec is None:
                self.unsure.append('%s: an index that is not understood' % self.E.m.where(i))
                return
            s.idx, s.c = dec
            self.ndim = max(self.ndim, len(s.idx))
        self.stores.append(s)

    def roles(self):
        self.role, self.unit = {}, {}
        comps = 1 + max([s.c for s in self.stores if s.base in (RES, MDL)] or [0])
        self.comps = comps
        for s in self.stores:
            if isinstance(s.base, tuple):
                src = {a[1] for a in s.lds if a[1] in (RES, MDL)}
                if len(src) == 1 and not s.own:
                    r = self.role.setdefault(s.base, src)
                    if r != src:
                        self.bad.append((s.i, 'copy', 'one copy is filled from the model and from the residual'))
                elif len(src) > 1:
                    self.unsure.append('%s: a copy of two arrays' % self.E.m.where(s.i))
        self.role = {k: next(iter(v)) for k, v in self.role.items()}

    def kind(self, b):
        return b if b in (RES, MDL) else self.role.get(b)

    def check(self):
        groups = self.all
        ups = [s for s in self.stores if self.kind(s.base) == MDL and s.own and s.delta]
        used = set()
        self.n_groups, self.n_ups = len(groups), len(ups)
        for g in groups:
            self.match(g, ups, used)
        for s in ups:
            if id(s) not in used:
                self.bad.append((s.i, 'pair', 'the model%s changes where the residual does not change by the kernel times the same step' %
                                 ('' if s.base == MDL else ' kept as a copy')))
        self.copies()
        self.peaks(groups)

    def groups(self):
        """changes of the residual by the kernel: one per loop"""
        out = {}
        for s in self.stores:
            if self.kind(s.base) != RES:
                continue
            kers = {a for a in s.lds if a[1] == KER}
            if not kers:
                continue
            own = ('ld', s.base, s.off)
            src = [a for a in s.lds if a[1] in (RES,) or a[1] == s.base]
            if len(src) != 1 or s.v.get((src[0],)) != 1:
                self.unsure.append('%s: a change that is not of the residual itself' % self.E.m.where(s.i))
                continue
            delta = s.v - Poly.atom(src[0])
            dec = self.decode(RES, src[0][2], s.size) if src[0][1] == RES else (s.idx, s.c) if s.base == RES else None
            if dec is None:
                self.unsure.append('%s: an index that is not understood' % self.E.m.where(s.i))
                continue
            idx, c = dec
            if s.base != RES and src[0] != own:
                if s.off != self.packed(idx, c, self.comps * s.size, s.size):
                    self.bad.append((s.i, 'copy', 'the copy kept of the residual is in another order than the residual'))
                    continue
            coef, kidx = {}, None
            for k in kers:
                kd = self.decode(KER, k[2], s.size)
                sp = delta.split(k)
                if kd is None or sp is None or any(a[0] == 'ld' and a[1] == KER for a in sp[0].atoms()):
                    coef = None
                    break
                if kidx is not None and kd[0] != kidx:
                    self.bad.append((s.i, 'kernel', 'two elements of the kernel are mixed'))
                    coef = None
                    break
                kidx = kd[0]
                coef[kd[1]] = sp[0]
                delta = sp[1]
            if coef is None:
                self.unsure.append('%s: a change that is not a multiple of the kernel' % self.E.m.where(s.i))
                continue
            if delta:
                self.bad.append((s.i, 'kernel', 'the residual changes by more than a multiple of the kernel'))
                continue
            out.setdefault((s.base, s.block), []).append(Store(s=s, idx=idx, c=c, coef=coef, kidx=kidx))
        return out

    def where_from(self, g):
        """the pixel the kernel is centred on, checking the indices: {axis: polynomial}"""
        one = g[0]
        A = {}
        for ax in range(self.ndim):
            e, n = one.idx.get(ax, Poly()), one.kidx.get(ax, Poly())
            d = self.f.defs.get(next(iter(e.atoms()))[1]) if len(e) == 1 and list(e.values()) == [1] and len(e.atoms()) == 1 and \
                next(iter(e.atoms()))[0] == 'reg' else None
            at = next(iter(n.atoms())) if len(n) == 1 and list(n.values()) == [1] and len(n.atoms()) == 1 else None
            if d is None or d.op not in ('srem', 'urem') or at is None or self.loop(at) is None:
                self.unsure.append('%s: the way the kernel wraps around is not understood' % self.E.m.where(one.s.i))
                return None
            total, m = self.B.poly(d.ops[0]), self.B.poly(d.ops[1])
            if m != self.dim(ax):
                self.bad.append((d, 'wrap', 'axis %d of the residual wraps at %s, not at its length' % (ax, m)))
                return None
            w = self.full(at, m, one.s.block)
            if w == '?':
                self.unsure.append('%s: a loop over the kernel that is not understood' % self.E.m.where(one.s.i))
                return None
            if w:
                self.bad.append((one.s.i, 'range', 'the residual is not changed everywhere: the loop over axis %d of the kernel %s' % (ax, w)))
                return None
            a = total - Poly.atom(at)
            if any(self.loop(x) for x in a.atoms() if x in {y for p in one.kidx.values() for y in p.atoms()}):
                self.bad.append((one.s.i, 'wrap', 'axis %d of the residual does not advance with the same axis of the kernel' % ax))
                return None
            A[ax] = a
        return A

    def outer(self, g):
        hs = [self.loop(next(iter(n.atoms())))[0] for n in g[0].kidx.values()]
        return next(h for h in hs if all(h in self.B.dom[k] for k in hs))

    def when_zero(self, b, step):
        for p in self.f.blocks[b].pred:
            t = self.f.blocks[p].insts[-1]
            c = self.f.defs.get(t.ops[0][1]) if t.op == 'br' and t.ops and t.ops[0][0] == 'reg' else None
            if c is not None and c.op == 'fcmp' and any(self.val(o) == step for o in c.ops):
                return True
        return False

    def between(self, a, h, body):
        """is every run of block a followed by the loop at h"""
        seen, work = set(), list(self.f.blocks[a].succ)
        while work:
            b = work.pop()
            if b == h or b in seen:
                continue
            if b == a or not self.f.blocks[b].succ and self.f.blocks[b].insts[-1].op == 'ret':
                return False
            seen.add(b)
            work += self.f.blocks[b].succ
        return True

    def after(self, h, body, a):
        """is every run of the loop at h followed by block a"""
        seen, work = set(), [s for b in body for s in self.f.blocks[b].succ if s not in body]
        while work:
            b = work.pop()
            if b == a or b in seen:
                continue
            if b == h or self.f.blocks[b].insts[-1].op == 'ret':
                return False
            seen.add(b)
            work += self.f.blocks[b].succ
        return True

    def related(self, a, h):
        body = self.body(h)
        if a in body:
            return False
        return a in self.B.dom[h] and self.between(a, h, body) or h in self.B.dom[a] and self.after(h, body, a)

    def match(self, key, ups, used):
        g = self.all[key]
        base, block = key
        if {x.c for x in g} != set(range(self.comps)):
            self.bad.append((g[0].s.i, 'component', 'only one of the real and imaginary parts of the residual is changed'))
            return
        A = self.where_from(g)
        if A is None:
            for s in ups:
                if s.base == MDL or self.kind(s.base) == MDL:
                    used.add(id(s))
            return
        g = sorted(g, key=lambda x: x.c)
        if any(x.idx != g[0].idx or x.kidx != g[0].kidx for x in g):
            self.bad.append((g[1].s.i, 'component', 'the real and imaginary parts are changed at different places'))
            return
        if self.comps == 1:
            S = [-g[0].coef.get(0, Poly())]
        else:
            S = [-g[0].coef.get(0, Poly()), g[0].coef.get(1, Poly())]
            if -g[1].coef.get(0, Poly()) != S[1] or -g[1].coef.get(1, Poly()) != S[0]:
                self.bad.append((g[1].s.i, 'product', 'the change of the residual is not the complex product of the kernel and one step'))
                return
        h = self.outer(g)
        self.centres.append((A, S, g))
        for c in range(self.comps):
            near = []
            for s in ups:
                if id(s) in used or (s.base == MDL) != (base == RES):
                    continue
                sc = s.c if s.base == MDL else (s.off.get((), 0) // s.size)
                same = (s.idx == {k: v for k, v in A.items()} if s.base == MDL else
                        s.off == self.packed(A, c, self.comps * s.size, s.size))
                if sc == c and same and s.delta == S[c]:
                    if self.related(s.block, h):
                        used.add(id(s))
                        break
                    if self.when_zero(s.block, S[c]):
                        self.unsure.append('%s: a change left out when the step is zero' % self.E.m.where(s.i))
                    near.append((s, 'one can happen without the other'))
                elif sc == c and s.delta == S[c] and self.related(s.block, h):
                    near.append((s, 'it is changed at another pixel than the one the kernel is moved to'))
                elif sc == c and same and self.related(s.block, h):
                    near.append((s, 'it is changed by another step'))
            else:
                self.bad.append((g[c].s.i, 'pair', 'the residual%s changes by the kernel times a step, the model does not change by that step%s' % (
                    '' if base == RES else ' kept as a copy', ': %s (%s)' % (near[0][1], self.E.m.where(near[0][0].i)) if near else '')))
                for s, _ in near:
                    used.add(id(s))

    def copies(self):
        """what is kept and put back is kept and put back of both, in the same order"""
        sets = {'kept': {RES: [], MDL: []}, 'put back': {RES: [], MDL: []}}
        for s in self.stores:
            if s.own:
                continue
            if not s.lds and s.i.ops[0][0] != 'reg':
                if not isinstance(s.base, tuple):
                    self.bad.append((s.i, 'overwrite', 'an element of the %s is set to a constant: what was there is lost to the other' % COPY[s.base]))
            elif isinstance(s.base, tuple):
                if s.base in self.role:
                    src = [a for a in s.lds if a[1] in (RES, MDL)]
                    sets['kept'][self.role[s.base]].append(s)
                    if len(src) == 1 and self.role[s.base] == MDL:
                        dec = self.decode(MDL, src[0][2], s.size)
                        if dec is None:
                            self.unsure.append('%s: a copy that is not understood' % self.E.m.where(s.i))
                        elif s.off != self.packed(dec[0], dec[1], self.comps * s.size, s.size):
                            self.bad.append((s.i, 'copy', 'the copy kept of the model is in another order than the model'))
                        else:
                            self.covered(s, dec[0], 'the model kept as a copy')
            else:
                src = [a for a in s.lds if isinstance(a[1], tuple)]
                if len(src) != 1 or s.v != Poly.atom(src[0]):
                    self.unsure.append('%s: a store to the %s that is not a change of it' % (self.E.m.where(s.i), COPY[s.base]))
                    continue
                if src[0][1] in self.role and self.role[src[0][1]] != s.base:
                    self.bad.append((s.i, 'copy', 'the copy of the %s is put back as the %s' % (COPY[self.role[src[0][1]]], COPY[s.base])))
                elif src[0][2] != self.packed(s.idx, s.c, self.comps * s.size, s.size):
                    self.bad.append((s.i, 'copy', 'the %s is put back in another order than it was kept' % COPY[s.base]))
                else:
                    self.covered(s, s.idx, 'the %s put back' % COPY[s.base])
                sets['put back'][s.base].append(s)
        for what, d in sets.items():
            for k, o in ((RES, MDL), (MDL, RES)):
                for s in d[k]:
                    self.n_copies += 1
                    if not any(t.block == s.block or self.together(s, t) for t in d[o]):
                        self.bad.append((s.i, 'copy', 'the %s is %s without the %s' % (COPY[k], what, COPY[o])))

    def together(self, s, t):
        hs = [self.top(x.block) for x in (s, t)]
        if None in hs:
            return False
        a, b = hs
        return a == b or a in self.B.dom[b] and self.after(a, self.body(a), b) or b in self.B.dom[a] and self.after(b, self.body(b), a)

    def top(self, b):
        """the outermost loop around b that is not the iteration itself: the header of the loop nest over pixels"""
        hs = [h for h in self.B.dom[b] if any(h in self.B.dom.get(p, ()) for p in self.f.blocks[h].pred) and b in self.body(h)]
        hs.sort(key=lambda h: -len(self.B.dom[h]))
        hs = hs[:self.ndim]
        return hs[-1] if hs else None

    def covered(self, s, idx, what):
        for ax, e in idx.items():
            at = next(iter(e.atoms())) if len(e) == 1 and list(e.values()) == [1] and len(e.atoms()) == 1 else None
            if at is None or self.loop(at) is None:
                d = self.f.defs.get(at[1]) if at is not None and at[0] == 'reg' else None
                if d is None or d.op != 'srem':
                    self.unsure.append('%s: a loop that is not understood' % self.E.m.where(s.i))
                continue
            w = self.full(at, self.dim(ax), s.block)
            if w and w != '?':
                self.bad.append((s.i, 'range', '%s is not all of it: the loop over axis %d %s' % (what, ax, w)))

    def peaks(self, groups):
        """the pixel a step is made at was found inside the area, and the step is made of the residual found there"""
        seen = set()
        for A, S, g in self.centres:
            regs = [next(iter(p.atoms())) for p in A.values() if len(p.atoms()) == 1]
            leaves = {}
            for ax, p in A.items():
                at = next(iter(p.atoms())) if len(p.atoms()) == 1 and len(p) == 1 else None
                if at is None or at[0] != 'reg':
                    return
                for blk, e in self.leaves(at[1]):
                    leaves.setdefault(blk, {})[ax] = e
            if any(e.value() is None and not self.wraps(e) for idx in leaves.values() for e in idx.values()):
                self.unsure.append('%s: the way the next pixel is found is not understood' % self.E.m.where(g[0].s.i))
                continue
            for blk, idx in leaves.items():
                if blk in seen or len(idx) != self.ndim or any(e.value() is not None for e in idx.values()):
                    continue
                seen.add(blk)
                self.n_peaks += 1
                ok, other = False, False
                for b in self.B.dom[blk] | {blk}:
                    t = self.f.blocks[b].insts[-1]
                    if t.op != 'br' or len(t.x.get('succ', ())) != 2 or not t.ops or t.ops[0][0] != 'reg':
                        continue
                    c = self.f.defs.get(t.ops[0][1])
                    for _ in range(6):          # a condition kept in a variable
                        if c is None or c.op not in ('trunc', 'zext', 'freeze') and not (
                                c.op == 'icmp' and c.x.get('pred') == 'ne' and c.ops[1] == ('int', 0) and self.flag(c.ops[0])):
                            break
                        c = self.f.defs.get(c.ops[0][1]) if c.ops[0][0] == 'reg' else None
                    if c is None or c.op != 'icmp':
                        continue
                    for o in c.ops:
                        x = self.f.defs.get(o[1]) if o[0] == 'reg' else None
                        while x is not None and x.op in ('sext', 'zext', 'trunc'):
                            x = self.f.defs.get(x.ops[0][1]) if x.ops[0][0] == 'reg' else None
                        if x is None or x.op != 'load':
                            continue
                        k, off = self.base(x.ops[0])
                        if k != AREA:
                            continue
                        dec = self.decode(AREA, off, 8)
                        yes = t.x['succ'][0] if c.x.get('pred') in ('ne', 'sgt', 'ugt') else t.x['succ'][1]
                        if dec is not None and dec[0] == idx:
                            if yes in self.B.dom[blk] or yes == blk:
                                ok = True
                            else:
                                other = 'outside'
                        elif dec is not None:
                            other = other or 'else'
                if not ok:
                    if self.areas():
                        i = self.f.blocks[blk].insts[-1]
                        self.bad.append((i, 'area', 'the pixel of the next step is taken without being %s' % (
                            'inside the area' if other != 'else' else 'the one whose area was tested')))

    def wraps(self, e):
        a = next(iter(e.atoms())) if len(e.atoms()) == 1 and len(e) == 1 else None
        d = self.f.defs.get(a[1]) if a is not None and a[0] == 'reg' else None
        return d is not None and (d.op in ('srem', 'urem') or self.loop(a) is not None)

    def flag(self, v):
        d = self.f.defs.get(v[1]) if v[0] == 'reg' else None
        return d is not None and d.op == 'zext' and ' i1 ' in d.text

    def areas(self):
        return any(i.op == 'load' and self.base(i.ops[0])[0] == AREA for i in self.f.insts())

    def leaves(self, reg, seen=None):
        seen = seen if seen is not None else set()
        d = self.f.defs.get(reg)
        if d is None or d.op != 'phi' or reg in seen:
            return
        seen.add(reg)
        for v, p in d.x['inc']:
            q = self.f.defs.get(v[1]) if v[0] == 'reg' else None
            if q is not None and q.op == 'phi':
                yield from self.leaves(v[1], seen)
            elif v[0] in ('reg', 'int'):
                yield p, self.B.poly(v)

    def run(self):
        self.centres, self.n_copies, self.n_peaks = [], 0, 0
        self.all = self.groups()
        self.check()


def run(tier):
    r = Result()
    r.rule('In every kernel behind _deconv.clean, each loop that changes the residual by a multiple of the kernel is decoded to (pixel, step): '
           'its indices wrap at the length of each axis, it covers the kernel, its complex product is one, and the model changes by that '
           'step at that pixel whenever the loop runs -- the step taken back and the copy kept of the best pair included. What is kept and '
           'put back is kept and put back of both, in the same order. The pixel of a step is one whose area was tested. In aipy/deconv.py '
           'the residual handed to the kernels, and the one each function reports, is the image less the convolution of the model that it '
           'is returned with, on every way to the return.')
    types = htypes()
    E = Ext('aipy._deconv', None)
    r.units += ['aipy._deconv:%s' % s for s in E.m.srcs]
    repo = {f.name for f in E.m.repo_defined()}
    done = set()
    for f in E.entries():
        if base_name(f.name) != 'clean':
            continue
        h = Hooks(E.m, f, None, types, repo, r)
        crun(h, E.m, relational=True)
        for (kn, _), (site, args, st) in h.kernels.items():
            k = E.m.functions[kn]
            if not k.blocks or kn in done:
                continue
            done.add(kn)
            objs = {n: ('obj', 'entry', n) for n in range(4)}
            if not {a for a in args if isinstance(a, tuple)} >= {objs[RES], objs[MDL], objs[KER]}:
                continue
            B = Bounds(k, {reg: a for (ty, reg), a in zip(k.params, args)}, Ctx(st, h))
            K = Kernel(E, k, B, objs)
            K.run()
            r.count('kernels')
            r.count('changes_of_the_residual', len(K.all))
            r.count('changes_of_the_model', K.n_ups)
            r.count('copied_elements', K.n_copies)
            r.count('pixels_chosen', K.n_peaks)
            if K.unsure:
                for u in K.unsure:
                    r.unsure(u)
                K.bad = [b for b in K.bad if b[1] not in ('pair', 'copy')]
            for i, kind, text in K.bad:
                r.add('D-' + kind, '%s/%s' % (K.name, text[:90]), E.m.where(i), text, ['in %s' % k.pretty().split('(')[0]])
    python_side(r)
    r.floor('kernels', 1)
    r.floor('python_ways_out', 2)
    r.assumptions = ['floating point rounding is left aside', 'image, kernel, model and area have the same shape (M10 shows that it is tested)']
    return r


# ---- the Python side: aipy/deconv.py
class Fun:
    """values of a function's names as sums of products of parameters and convolutions conv(x) = kernel * x"""

    def __init__(self, node, ker):
        self.node, self.ker = node, ker
        self.defs = {}
        for n in ast.walk(node):
            for t, v in self.targets(n):
                self.defs.setdefault(t, []).append(v)

    @staticmethod
    def targets(n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    yield t.id, n.value
                elif isinstance(t, (ast.Tuple, ast.List)):
                    vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [None] * len(t.elts)
                    for x, v in zip(t.elts, vs):
                        if isinstance(x, ast.Name):
                            yield x.id, v
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    yield t.value.id, None
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            yield n.target.id, None
        elif isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    yield x.id, None

    def one(self, name):
        d = self.defs.get(name, [])
        return d[0] if len(d) == 1 and d[0] is not None and name not in self.params() else None

    def params(self):
        return {a.arg for a in self.node.args.args}

    def ev(self, e, depth=0):
        """Poly over names and ('conv', Poly); None if not understood"""
        if isinstance(e, ast.Name):
            v = self.one(e.id)
            if v is not None and depth < 6:
                r = self.ev(v, depth + 1)
                if r is not None:
                    return r
            return Poly.atom(('n', e.id))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.ev(e.left, depth), self.ev(e.right, depth)
            return None if a is None or b is None else a + b if isinstance(e.op, ast.Add) else a - b
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.ev(e.operand, depth)
            return None if a is None else -a
        if isinstance(e, ast.Attribute) and e.attr == 'real':
            return self.ev(e.value, depth)
        if isinstance(e, ast.Call):
            n = py.callee_name(e)
            if n in ('astype', 'copy') and isinstance(e.func, ast.Attribute):
                return self.ev(e.func.value, depth)
            if n in ('zeros', 'zeros_like'):
                return Poly()
            if n in ('ifft', 'ifft2', 'ifftn', 'irfft2') and len(e.args) == 1 and isinstance(e.args[0], ast.BinOp) and \
                    isinstance(e.args[0].op, ast.Mult):
                fs = [self.hat(x) for x in (e.args[0].left, e.args[0].right)]
                if None in fs:
                    return None
                k = Poly.atom(('n', self.ker))
                if k in fs:
                    fs.remove(k)
                    return Poly() if fs[0] == Poly() else Poly.atom(('conv', fs[0]))
                return None
        return None

    def hat(self, e, depth=0):
        """the array whose transform e is"""
        if isinstance(e, ast.Name) and self.one(e.id) is not None and depth < 4:
            return self.hat(self.one(e.id), depth + 1)
        if isinstance(e, ast.Call) and py.callee_name(e) in ('fft', 'fft2', 'fftn', 'rfft2') and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.Name):
                return Poly.atom(('n', a.id)) if self.one(a.id) is None else self.ev(a)
            return self.ev(a)
        return None

    def residual(self, x, im='im'):
        """what the residual of the model x is"""
        return Poly.atom(('n', im)) - Poly.atom(('conv', x)) if x != Poly() else Poly.atom(('n', im))


class Walk:
    """is R the residual of X when the function returns"""

    def __init__(self, fn):
        self.args = [a.arg for a in fn.args.args]
        self.im, self.ker = self.args[:2]
        self.F = Fun(fn, self.ker)
        self.fn = fn
        self.found, self.unsure = [], []
        self.seen = 0

    def go(self):
        rets = [n for n in ast.walk(self.fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2 and
                isinstance(n.value.elts[0], ast.Name) and self.own(n)]
        if not rets:
            return
        self.X = rets[0].value.elts[0].id
        vs = [(n, v) for n in ast.walk(self.fn) for v in self.res_of(n)]
        if len(vs) != 1:
            if vs:
                self.unsure.append('%s: the residual is reported in more than one place' % self.fn.name)
            return
        self.at, self.V = vs[0]
        self.R = self.V.id if isinstance(self.V, ast.Name) and self.V.id not in self.args else None
        st = self.block(self.fn.body, [(Poly.atom(('n', self.X)), None, None, self.fn)])
        del st

    def own(self, n):
        return not any(isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not self.fn and n in set(ast.walk(f)) for f in ast.walk(self.fn))

    @staticmethod
    def res_of(n):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == 'res':
                    yield v
        elif isinstance(n, ast.keyword) and n.arg == 'res':
            yield n.value
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and \
                isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == 'res':
            yield n.value

    # a state: (value of X, value of R, belongs: True, False or None for unknown, node where that was settled)
    def block(self, body, sts):
        for n in body:
            sts = self.stmt(n, sts)
            if not sts:
                break
        return sts

    def dedup(self, sts):
        out = {}
        for s in sts:
            out.setdefault((s[0], s[1], s[2]), s)
        return list(out.values())[:24]

    def stmt(self, n, sts):
        if isinstance(n, ast.If):
            return self.dedup(self.block(n.body, sts) + self.block(n.orelse, sts))
        if isinstance(n, (ast.For, ast.While)):
            b = self.dedup(sts + self.block(n.body, sts))
            b = self.dedup(b + self.block(n.body, b))
            return self.block(n.orelse, b)
        if isinstance(n, ast.Try):
            s = self.block(n.body + n.orelse, sts)
            for h in n.handlers:
                s = s + self.block(h.body, sts)
            return self.dedup(self.block(n.finalbody, s))
        if isinstance(n, ast.With):
            return self.block(n.body, sts)
        if isinstance(n, ast.FunctionDef):
            return sts
        if isinstance(n, ast.Raise):
            return []
        if isinstance(n, ast.Return):
            v = n.value.elts[0] if isinstance(n.value, ast.Tuple) and n.value.elts else n.value
            if not (isinstance(v, ast.Name) and v.id == self.X):
                self.unsure.append('%s line %d: another model is returned' % (self.fn.name, n.lineno))
                return []
            self.seen += 1
            for x, r, ok, at in sts:
                if ok is False:
                    self.found.append(at)
                elif ok is None:
                    self.unsure.append('%s line %d: whether the residual belongs to the model is not understood' % (self.fn.name, n.lineno))
            return []
        new = {}
        for t, v in Fun.targets(n):
            if t in (self.X, self.R):
                new[t] = v
        here = self.at in set(ast.walk(n)) if self.R is None else False
        out = []
        for x, r, ok, at in sts:
            xn = Poly.atom(('n', self.X))
            if self.X in new:
                v = new[self.X]
                x = self.F.ev(v) if v is not None else None
                x = x if x is not None else Poly.atom(('?', self.X))
                if isinstance(v, ast.Call) and py.callee_name(v) == 'copy' and isinstance(v.func, ast.Attribute) and \
                        isinstance(v.func.value, ast.Name) and v.func.value.id == self.X:
                    x = xn
                elif self.R is not None and self.R in new:
                    pass
                elif r is not None:
                    ok, at = (True if r == self.F.residual(x) else None if x == Poly.atom(('?', self.X)) and self.R is not None and r == Poly.atom(('n', self.im)) else False), n
                else:
                    ok, at = (None if ok is None else False), n
                if self.R is None and ok is not None:
                    ok = False
            if self.R is not None and self.R in new:
                v = new[self.R]
                r = self.F.ev(v) if v is not None else None
                ok, at = (None if r is None else True if r in (self.F.residual(x, self.im), self.F.residual(xn, self.im)) else
                          None if x == Poly.atom(('?', self.X)) else False), n
            if here:
                r = self.F.ev(self.V)
                ok, at = (None if r is None else r == self.F.residual(xn, self.im)), n
            out.append((x, r, ok, at))
        return self.dedup(out)


def python_side(r):
    pr = py.project()
    for q, g in sorted(pr.fn.items()):
        if not q.split('.')[-2:-1] == ['deconv'] or not isinstance(g.node, ast.FunctionDef) or len(g.node.args.args) < 3:
            continue
        w = Walk(g.node)
        w.go()
        for u in w.unsure:
            r.unsure(u)
        r.count('python_ways_out', w.seen)
        seen = set()
        for n in w.found:
            if n.lineno not in seen and not w.unsure:
                seen.add(n.lineno)
                r.add('D-residual', g.node.name, 'aipy/deconv.py:%d' % n.lineno,
                      'the residual reported is not the image less the convolution of the model returned with the kernel', [])
