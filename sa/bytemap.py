"""Byte provenance: which byte of the source each byte of the destination of a
conversion loop comes from.  One generic turn of the outer loop is interpreted
over the domain {byte j of the source element, the sign of byte j, a constant,
unknown}; the steps of the pointers give the sizes of the elements."""
from sa.ir import regs_of

W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8}
Q = ('?',)


class Undecided(Exception):
    pass


def nbytes(ty):
    if ty in W:
        return W[ty]
    raise Undecided('type %s' % ty)


class Path:
    def __init__(self):
        self.env, self.mem, self.out, self.signs = {}, {}, {}, {}

    def copy(self):
        p = Path()
        p.env, p.mem, p.out, p.signs = dict(self.env), dict(self.mem), dict(self.out), dict(self.signs)
        return p


class ByteMap:
    """src, dst: parameter indices.  After run(): .out {byte: provenance}, .sstep, .dstep, .count ('n' parameter index or None)"""

    def __init__(self, fn, src, dst):
        self.fn, self.m = fn, fn.module
        self.src, self.dst = src, dst
        self.steps = 0

    def run(self):
        f = self.fn
        hdr, latch = self.outer()
        step = {}
        for turn in (0, 1):
            p = Path()
            for k, (ty, r) in enumerate(f.params):
                p.env[r] = ('p', k, 0, 0) if ty == 'ptr' else ('n', k)
            p = self.walk(f, f.entry, None, p, stop={hdr})
            if len(p) != 1 or p[0][0] != 'stop':
                raise Undecided('code before the loop')
            _, p, pred = p[0]
            init = {}
            phis = [i for i in f.blocks[hdr].insts if i.op == 'phi']
            for i in phis:
                for v, b in i.x['inc']:
                    if b == pred:
                        init[i.res] = self.val(p, v)
            for r, v in init.items():
                if v[0] == 'p':
                    p.env[r] = ('p', v[1], v[2], v[3] + step.get(r, 0))
                elif v[0] in ('b', 'n'):
                    p.env[r] = ('i', r)
                else:
                    raise Undecided('loop variable')
            self.init, self.phis = init, {i.res: i for i in phis}
            p.out, p.mem = {}, dict(p.mem)
            ends = []
            self.count = None
            for how, q, pr in self.walk(f, hdr, None, p, stop={hdr}, first=True):
                if how == 'stop':
                    ends.append((q, pr))
            if not ends:
                raise Undecided('no way round the loop')
            nxt = {}
            for q, pr in ends:
                for i in phis:
                    for v, b in i.x['inc']:
                        if b == pr:
                            nxt.setdefault(i.res, set()).add(self.val(q, v))
            step = {}
            for r, vs in nxt.items():
                v0 = init[r]
                if v0[0] == 'p':
                    if len(vs) != 1:
                        raise Undecided('a pointer moves by different amounts')
                    v = next(iter(vs))
                    b = p.env[r]
                    if v[0] != 'p' or v[1] != b[1] or v[3] != b[3]:
                        raise Undecided('how a pointer moves')
                    step[r] = v[2] - b[2]
            self.nxt = nxt
        outs = {}
        for k in {k for q, _ in ends for k in q.out}:
            vs = [(q.out.get(k, Q), q.signs) for q, _ in ends]
            outs[k] = self.merge(vs)
        base = min((k[0] for k in outs), default=0)
        coefs = {k[1] for k in outs}
        if len(coefs) != 1 or not outs:
            raise Undecided('no single destination step')
        self.dstep = coefs.pop()
        sc = {v[2] for v in outs.values() if v[0] in ('src', 'sgn')}
        if len(sc) != 1:
            raise Undecided('no single source step')
        self.sstep = sc.pop()
        self.base = base
        self.out = {k[0]: (v[:2] if v[0] in ('src', 'sgn') else v) for k, v in outs.items()}
        return self

    def outer(self):
        f = self.fn
        rpo = f.rpo()
        pos = {b: k for k, b in enumerate(rpo)}
        for b in rpo:
            back = [x for x in rpo if b in f.blocks[x].succ and pos[x] >= pos[b]]
            if back:
                return b, back
        raise Undecided('no loop')

    def merge(self, vs):
        vals = {v for v, s in vs}
        if len(vals) == 1:
            return vals.pop()
        # a choice by the sign of one byte between all ones and all zeros
        for j in {j for _, s in vs for j in s}:
            if all(j in s and v == ('k', 255 if s[j] else 0) for v, s in vs):
                return ('sgn',) + j
        return Q

    # ---- execution of blocks
    def walk(self, f, b, pred, p, stop, first=False, depth=0):
        """-> list of (how, path, predecessor) with how 'stop' | 'ret'"""
        res = []
        work = [(b, pred, p, first)]
        while work:
            b, pred, p, fresh = work.pop()
            if b in stop and not fresh:
                res.append(('stop', p, pred))
                continue
            self.steps += 1
            if self.steps > 4000:
                raise Undecided('too long')
            new = {}
            for i in f.blocks[b].insts:
                if i.op == 'phi' and not fresh:
                    for v, x in i.x['inc']:
                        if x == pred:
                            new[i.res] = self.val(p, v)
            p.env.update(new)
            for i in f.blocks[b].insts:
                if i.op == 'phi':
                    continue
                if i.op == 'br':
                    if len(i.x['succ']) == 1:
                        work.append((i.x['succ'][0], b, p, False))
                        break
                    c = self.val(p, i.ops[0])
                    t, e = i.x['succ']
                    if c[0] == 'b' and all(x[0] == 'k' for x in c[1]):
                        work.append((t if c[1][0][1] & 1 else e, b, p, False))
                    elif c[0] == 'sign':
                        for truth, tgt in ((True, t), (False, e)):
                            s = truth == c[2]
                            if p.signs.get(c[1], s) != s:
                                continue
                            q = p.copy()
                            q.signs[c[1]] = s
                            work.append((tgt, b, q, False))
                    elif c[0] == 'loop':
                        self.bound(f, c, t, e)
                        for tgt in (t, e):
                            work.append((tgt, b, p.copy(), False))
                    else:
                        for tgt in (t, e):
                            work.append((tgt, b, p.copy(), False))
                    break
                if i.op == 'ret':
                    if i.ops:
                        p.env['@ret'] = self.val(p, i.ops[0])
                    res.append(('ret', p, b))
                    break
                if i.op == 'unreachable':
                    break
                self.inst(f, p, i, depth)
        return res

    def bound(self, f, c, t, e):
        if self.count is None:
            self.count = c

    def val(self, p, v):
        k = v[0]
        if k == 'int':
            return ('b', tuple(('k', (v[1] >> 8 * n) & 255) for n in range(8)))
        if k == 'reg':
            return p.env.get(v[1], Q)
        if k == 'null':
            return ('b', (('k', 0),) * 8)
        if k == 'gep':
            return Q
        return Q

    def num(self, v):
        if v[0] == 'b' and all(x[0] == 'k' for x in v[1]):
            n = sum(x[1] << 8 * k for k, x in enumerate(v[1]))
            bits = 8 * len(v[1])
            return n - (1 << bits) if n >> (bits - 1) else n
        return None

    def fit(self, v, n):
        if v[0] != 'b':
            return (Q,) * n
        b = v[1]
        return b[:n] if len(b) >= n else b + (('k', 0),) * (n - len(b))

    def inst(self, f, p, i, depth):
        op = i.op
        g = lambda k: self.val(p, i.ops[k])
        if op == 'alloca':
            p.env[i.res] = ('p', ('loc', i.res, depth), 0, 0)
        elif op == 'getelementptr':
            a = g(0)
            if a[0] != 'p':
                p.env[i.res] = Q
                return
            off = self.offset(p, i)
            p.env[i.res] = Q if off is None else ('p', a[1], a[2] + off[0], a[3] + off[1])
        elif op == 'load':
            a = g(0)
            if i.ty == 'ptr':
                p.env[i.res] = p.mem.get(a + ('ptr',), Q)
                return
            p.env[i.res] = self.load(p, a, nbytes(i.ty))
        elif op == 'store':
            a = self.val(p, i.ops[1])
            v = self.val(p, i.ops[0])
            if i.ty == 'ptr':
                p.mem[a + ('ptr',)] = v
                return
            self.store(p, a, self.fit(v, nbytes(i.ty)))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            a = g(0)
            to = i.x.get('to') or i.x.get('ty2') or i.ty
            if a[0] in ('p', 'i', 'n', 'lin', 'sign', 'loop') or to == 'i1':
                p.env[i.res] = a
                return
            if a[0] != 'b':
                p.env[i.res] = Q
                return
            fr = self.srcw(f, i)
            n = W.get(to)
            b = self.fit(a, fr) if fr else a[1]
            if n is None:
                p.env[i.res] = Q
            elif n <= len(b):
                p.env[i.res] = ('b', b[:n])
            else:
                p.env[i.res] = ('b', b + (self.sign(b[-1]) if op == 'sext' else ('k', 0),) * (n - len(b)))
        elif op in ('add', 'or', 'and', 'shl', 'lshr', 'ashr', 'xor', 'sub', 'mul'):
            p.env[i.res] = self.arith(op, g(0), g(1), W.get(i.ty, 8))
        elif op == 'icmp':
            p.env[i.res] = self.icmp(i, g(0), g(1))
        elif op == 'select':
            c, a, b = g(0), g(1), g(2)
            if c[0] == 'sign':
                n = W.get(i.ty, 8)
                x, y = (a, b) if c[2] else (b, a)
                p.env[i.res] = ('b', tuple(u if u == v else ('sgn',) + c[1] if (u, v) == (('k', 255), ('k', 0)) else Q
                                           for u, v in zip(self.fit(x, n), self.fit(y, n))))
            elif self.num(c) is not None:
                p.env[i.res] = a if self.num(c) & 1 else b
            else:
                p.env[i.res] = a if a == b else Q
        elif op in ('call', 'invoke'):
            self.call(f, p, i, depth)
        elif i.res:
            p.env[i.res] = Q

    def srcw(self, f, i):
        v = i.ops[0]
        if v[0] == 'reg':
            d = f.defs.get(v[1])
            if d is not None and d.ty in W and d.op not in ('store',):
                return W[d.ty]
            for ty, r in f.params:
                if r == v[1]:
                    return W.get(ty)
        return None

    def sign(self, b):
        if b[0] == 'k':
            return ('k', 255 if b[1] & 128 else 0)
        if b[0] == 'src':
            return ('sgn',) + b[1:]
        if b[0] == 'sgn':
            return b
        return Q

    def load(self, p, a, n):
        if a[0] != 'p':
            return ('b', (Q,) * n)
        out = []
        for k in range(n):
            c = (a[1], a[2] + k, a[3])
            if c in p.mem:
                out.append(p.mem[c])
            elif a[1] == self.src:
                out.append(('src', a[2] + k, a[3]))
            else:
                out.append(Q)
        return ('b', tuple(out))

    def store(self, p, a, bs):
        if a[0] != 'p':
            raise Undecided('where a byte is stored')
        for k, b in enumerate(bs):
            p.mem[a[1], a[2] + k, a[3]] = b
            if a[1] == self.dst:
                p.out[a[2] + k, a[3]] = b
            elif a[1] == self.src:
                raise Undecided('the source is written to')

    def offset(self, p, i):
        off, coef = 0, 0
        ty = i.x.get('elem')
        for v in i.ops[1:]:
            size = self.size(ty)
            x = self.val(p, v)
            n = self.num(x)
            if n is not None:
                off += n * size
            elif x[0] == 'i' and self.unit(x[1]):
                coef += size
            elif x[0] == 'lin' and self.unit(x[1]):
                coef += size * x[2]
                off += size * x[3]
            else:
                return None
            ty = elem(ty)
        return off, coef

    def unit(self, r):
        """the loop counter starts at 0 and goes up by one"""
        v = self.init.get(r)
        if v is None or self.num(v) != 0:
            return False
        for x, b in self.phis[r].x['inc']:
            d = self.fn.defs.get(x[1]) if x[0] == 'reg' else None
            if d is not None and d.op == 'add' and ('reg', r) in d.ops and ('int', 1) in d.ops:
                return True
        return False

    def size(self, ty):
        if ty in W:
            return W[ty]
        if ty == 'ptr':
            return 8
        if ty and ty.startswith('['):
            n, t = ty[1:-1].split(' x ', 1)
            return int(n) * self.size(t.strip())
        raise Undecided('size of %s' % ty)

    def arith(self, op, a, b, n):
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                     'xor': lambda: x ^ y, 'shl': lambda: x << y, 'ashr': lambda: x >> y,
                     'lshr': lambda: (x & ((1 << 8 * n) - 1)) >> y}[op]()
            except ValueError:
                return Q
            return ('b', tuple(('k', (r >> 8 * k) & 255) for k in range(n)))
        for u, v, k in ((a, b, y), (b, a, x)):
            if u[0] in ('i', 'lin') and k is not None:
                r, c, o = (u[1], 1, 0) if u[0] == 'i' else u[1:]
                if op == 'add':
                    return ('lin', r, c, o + k)
                if op == 'sub' and u is a:
                    return ('lin', r, c, o - k)
                if op == 'mul':
                    return ('lin', r, c * k, o * k)
                if op == 'shl' and u is a:
                    return ('lin', r, c << k, o << k)
                if op == 'or' and c % 8 == 0 and 0 <= k < 8 and o % 8 == 0:
                    return ('lin', r, c, o + k)
        if a[0] != 'b' and b[0] != 'b':
            return Q
        p, q = self.fit(a, n), self.fit(b, n)
        if op == 'and':
            return ('b', tuple(self.band(s, t) for s, t in zip(p, q)))
        if op in ('or', 'add', 'xor'):
            r = []
            for s, t in zip(p, q):
                r.append(t if s == ('k', 0) else s if t == ('k', 0) else s if s == t and op == 'or' else Q)
            return ('b', tuple(r)) if op != 'add' or Q not in r else ('b', (Q,) * n)
        if op in ('shl', 'lshr', 'ashr') and y is not None and y % 8 == 0 and 0 <= y < 8 * n:
            k = y // 8
            if op == 'shl':
                return ('b', (('k', 0),) * k + p[:n - k])
            return ('b', p[k:] + ((self.sign(p[-1]) if op == 'ashr' else ('k', 0)),) * k)
        return ('b', (Q,) * n)

    def band(self, s, t):
        for u, v in ((s, t), (t, s)):
            if v == ('k', 255):
                return u
            if v == ('k', 0):
                return v
            if v == ('k', 128) and u[0] in ('src', 'sgn'):
                return ('sbit',) + u[1:]
        return Q

    def icmp(self, i, a, b):
        pred = i.x['pred']
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            u = (1 << 64) - 1
            r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                 'ult': x & u < y & u, 'ule': x & u <= y & u, 'ugt': x & u > y & u, 'uge': x & u >= y & u}[pred]
            return ('b', (('k', int(r)),))
        if a[0] == 'b' and y is not None:
            n = W.get(i.ty, len(a[1]))
            bs = self.fit(a, n)
            hot = [t for t in bs if t != ('k', 0)]
            if pred in ('eq', 'ne') and y == 0 and len(hot) == 1 and hot[0][0] == 'sbit':
                return ('sign', hot[0][1:], pred == 'ne')
            if pred in ('eq', 'ne') and y & 255 == 128 and len(hot) == 1 and hot[0][0] == 'sbit':
                return ('sign', hot[0][1:], pred == 'eq')
            top = bs[-1]
            if top[0] in ('src', 'sgn'):
                if (pred, y) in (('slt', 0), ('sle', -1)):
                    return ('sign', top[1:], True)
                if (pred, y) in (('sge', 0), ('sgt', -1)):
                    return ('sign', top[1:], False)
                if (pred, y) in (('ugt', 127), ('uge', 128)) and n == 1:
                    return ('sign', top[1:], True)
            if len(hot) == 1 and hot[0][0] == 'src' and hot[0] == bs[0] and n > 1:
                if (pred in ('sgt', 'ugt') and y == 127) or (pred in ('sge', 'uge') and y == 128):
                    return ('sign', hot[0][1:], True)
                if (pred in ('slt', 'ult') and y == 128) or (pred in ('sle', 'ule') and y == 127):
                    return ('sign', hot[0][1:], False)
        if a[0] in ('i', 'lin') or b[0] in ('i', 'lin'):
            return ('loop', pred, a, b)
        return Q

    def call(self, f, p, i, depth):
        n = i.callee() or ''
        args = [self.val(p, a) for a in i.x['args']]
        if n.startswith('llvm.bswap'):
            w = W.get(i.ty, 8)
            p.env[i.res] = ('b', tuple(reversed(self.fit(args[0], w))))
            return
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            k = self.num(args[2])
            if k is None or k > 64:
                raise Undecided('copies of unknown length')
            self.store(p, args[0], self.load(p, args[1], k)[1])
            if i.res:
                p.env[i.res] = args[0]
            return
        if n.startswith('llvm.'):
            return
        g = self.m.functions.get(n)
        if g is None or depth > 3:
            raise Undecided('a call of %s' % n)
        q = Path()
        q.mem, q.out, q.signs = p.mem, p.out, p.signs
        for (ty, r), a in zip(g.params, args):
            q.env[r] = a
        ends = self.walk(g, g.entry, None, q, stop=set(), depth=depth + 1)
        if len(ends) != 1:
            raise Undecided('%s has several ways' % n)
        e = ends[0][1]
        p.mem, p.out, p.signs = e.mem, e.out, e.signs
        if i.res:
            p.env[i.res] = e.env.get('@ret', Q)


def elem(ty):
    if ty and ty.startswith('['):
        return ty[1:-1].split(' x ', 1)[1].strip()
    return None
