"""Sparse conditional constant propagation over one IR function: which blocks
and edges are executable when some inputs are fixed to known constants.
Memory is not tracked (a load is unknown unless the caller binds it)."""
TOP = 'top'      # undefined so far
BOT = None       # not a constant


def _w(ty):
    try:
        return int(ty[1:])
    except Exception:
        return 64


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if bits > 1 and v >> (bits - 1) else v


def binop(op, a, b, bits):
    m = (1 << bits) - 1
    ua, ub = a & m, b & m
    try:
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'sdiv':
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif op == 'udiv':
            r = ua // ub
        elif op == 'srem':
            r = abs(a) % abs(b) * (-1 if a < 0 else 1)
        elif op == 'urem':
            r = ua % ub
        elif op == 'and':
            r = ua & ub
        elif op == 'or':
            r = ua | ub
        elif op == 'xor':
            r = ua ^ ub
        elif op == 'shl':
            r = ua << ub
        elif op == 'lshr':
            r = ua >> ub
        elif op == 'ashr':
            r = a >> ub
        else:
            return None
    except ZeroDivisionError:
        return None
    return wrap(r, bits)


def icmp(pred, a, b, bits):
    m = (1 << bits) - 1
    ua, ub = a & m, b & m
    return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pred])


class SCCP:
    def __init__(self, fn, params=None, bind=None, no_unwind=None, noreturn=None):
        """params: {reg: int}; bind(inst) -> int | None for any instruction the
        caller knows the value of; no_unwind(inst) -> True to ignore the unwind edge"""
        self.fn = fn
        self.val = {r: (params or {}).get(r, BOT) for _, r in fn.params}
        self.bind = bind
        self.no_unwind = no_unwind
        self.noreturn = noreturn or (lambda i: False)
        self.cut = {}
        self.edges = set()
        self.blocks = set()
        self.run()

    def get(self, v):
        if v[0] == 'int':
            return v[1]
        if v[0] == 'null':
            return 0
        if v[0] == 'reg':
            return self.val.get(v[1], TOP)
        if v[0] == 'undef':
            return TOP
        return BOT

    def run(self):
        fn = self.fn
        work = [(None, fn.entry)]
        uses = {}
        for i in fn.insts():
            for o in i.ops:
                if o[0] == 'reg':
                    uses.setdefault(o[1], []).append(i)
        ssa = []
        while work or ssa:
            while work:
                e = work.pop()
                if e in self.edges:
                    continue
                self.edges.add(e)
                b = e[1]
                first = b not in self.blocks
                self.blocks.add(b)
                for i in fn.blocks[b].insts:
                    if b in self.cut and i.idx > self.cut[b]:
                        break
                    if first and i.op in ('call', 'invoke') and self.noreturn(i):
                        self.cut[b] = i.idx
                        if i.op == 'invoke':
                            work.append((b, i.x['unwind']))
                        break
                    if i.op == 'phi' or first:
                        self.visit(i, work, ssa)
            while ssa:
                r = ssa.pop()
                for i in uses.get(r, ()):
                    if i.block in self.blocks and not (i.block in self.cut and i.idx >= self.cut[i.block]):
                        self.visit(i, work, ssa)

    def visit(self, i, work, ssa):
        b = i.block
        if i.op == 'br':
            if len(i.x['succ']) == 1:
                work.append((b, i.x['succ'][0]))
            else:
                c = self.get(i.ops[0])
                if c is TOP:
                    return
                if c is BOT:
                    for s in i.x['succ']:
                        work.append((b, s))
                else:
                    work.append((b, i.x['succ'][0 if c & 1 else 1]))
            return
        if i.op == 'switch':
            c = self.get(i.ops[0])
            if c is TOP:
                return
            if c is BOT:
                for s in i.x['succ']:
                    work.append((b, s))
            else:
                bits = _w(i.ty)
                for k, t in i.x['cases']:
                    if wrap(k, bits) == wrap(c, bits):
                        work.append((b, t))
                        break
                else:
                    work.append((b, i.x['default']))
            return
        if i.op == 'invoke':
            work.append((b, i.x['normal']))
            if not (self.no_unwind and self.no_unwind(i)):
                work.append((b, i.x['unwind']))
        if not i.res:
            return
        old = self.val.get(i.res, TOP)
        new = self.eval(i)
        if new is TOP or new == old and new is not BOT or old is BOT and i.res in self.val:
            return
        self.val[i.res] = new
        ssa.append(i.res)

    def eval(self, i):
        if self.bind:
            v = self.bind(i)
            if v is not None:
                return v
        if i.op == 'phi':
            r = TOP
            for v, p in i.x['inc']:
                if (p, i.block) not in self.edges:
                    continue
                c = self.get(v)
                if c is TOP:
                    continue
                if r is TOP:
                    r = c
                elif r != c:
                    return BOT
            return r
        if i.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if i.op in ('and', 'mul') and 0 in (a, b) and a is not BOT and b is not BOT or \
                    i.op in ('and', 'mul') and (a == 0 and a is not BOT or b == 0 and b is not BOT):
                return 0
            if a is TOP or b is TOP:
                return TOP
            if a is BOT or b is BOT:
                return BOT
            return binop(i.op, a, b, _w(i.ty))
        if i.op == 'icmp':
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if a is TOP or b is TOP:
                return TOP
            if a is BOT or b is BOT:
                return BOT
            return icmp(i.x['pred'], a, b, _w(i.ty) if i.ty.startswith('i') else 64)
        if i.op in ('sext', 'trunc', 'zext', 'freeze'):
            a = self.get(i.ops[0])
            if a is TOP or a is BOT:
                return a
            if i.op == 'zext':
                return a & ((1 << _w(i.x['from'])) - 1)
            return wrap(a, _w(i.ty))
        if i.op == 'select':
            c = self.get(i.ops[0])
            if c is TOP:
                return TOP
            if c is not BOT:
                return self.get(i.ops[1 if c & 1 else 2])
            a, b = self.get(i.ops[1]), self.get(i.ops[2])
            return a if a == b else BOT
        return BOT

    def insts(self):
        for b in self.fn.order:
            if b in self.blocks:
                for i in self.fn.blocks[b].insts:
                    if b in self.cut and i.idx > self.cut[b]:
                        break
                    yield i

    def const(self, v):
        c = self.get(v)
        return None if c is TOP or c is BOT else c
