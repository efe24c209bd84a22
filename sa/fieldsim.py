"""Path-sensitive propagation that names memory by struct field.

Locations of struct members are ('fa', object, struct, field), elements of
arrays ('el', array, index).  Two members of different name never alias
(members are only reached through their own name); members of the same name
do unless their objects are distinct elements of one array.  Calls forget the
members the callee may store to, transitively."""
import re

from sa.ir import AnalysisBroken
from sa.pathsim import RState, Sim, root, sub


def struct_fields(m):
    """{'%struct.X': [field names]} from the debug information"""
    tops = {}
    named = {}
    for k, v in m.meta.items():
        if 'DICompositeType(' in v and 'DW_TAG_structure_type' in v:
            n = re.search(r'name: "([^"]*)"', v)
            if n:
                named.setdefault(n.group(1), set()).add(k)
        elif 'DW_TAG_typedef' in v:
            n, b = re.search(r'name: "([^"]*)"', v), re.search(r'baseType: !(\d+)', v)
            if n and b:
                tops.setdefault(n.group(1), set()).add(b.group(1))
    out = {}
    for t in m.types:
        if not t.startswith('%struct.'):
            continue
        name = re.sub(r'\.\d+$', '', t[len('%struct.'):])
        got = set()
        for k in named.get(name, set()) | tops.get(name, set()):
            e = re.search(r'elements: !(\d+)', m.meta.get(k, ''))
            if not e or 'structure_type' not in m.meta[k]:
                continue
            fs = []
            for r in re.findall(r'!(\d+)', m.meta.get(e.group(1), '')):
                n = re.search(r'name: "([^"]*)"', m.meta.get(r, ''))
                fs.append(n.group(1) if n else '?')
            got.add(tuple(fs))
        width = top_elems(m.types[t])
        got = {g for g in got if len(g) == width}
        if len(got) == 1:
            out[t] = list(got.pop())
    return out


def top_elems(ty):
    ty = ty.strip()
    if not ty.startswith('{'):
        return -1
    d, n, any_ = 0, 1, False
    for c in ty[1:-1]:
        if c in '[{<(':
            d += 1
        elif c in ']}>)':
            d -= 1
        elif c == ',' and d == 0:
            n += 1
        if not c.isspace():
            any_ = True
    return n if any_ else 0


class Fields:
    """the structs of a module, and what each function may store"""

    def __init__(self, m):
        self.m = m
        self.names = struct_fields(m)
        self.eff = {}
        own = {}
        self.points = {f.name: self.pointees(f) for f in m.functions.values()}
        for f in m.functions.values():
            s = set()
            for i in f.insts():
                if i.op == 'store':
                    k = self.stored(f, i.ops[1])
                    if k:
                        s.add(k)
                elif i.op in ('call', 'invoke'):
                    # a member's address handed out may be stored to
                    for a in i.x['args']:
                        k = self.of(f, a)
                        if k:
                            s.add(k)
            own[f.name] = s
        self.eff = {n: set(s) for n, s in own.items()}
        changed = True
        while changed:
            changed = False
            for f in m.functions.values():
                s = self.eff[f.name]
                n = len(s)
                for i in f.calls():
                    s |= self.eff.get(i.callee(), set())
                changed = changed or len(s) != n

    def pointees(self, f):
        """what a function itself says a pointer points to"""
        out = {}
        for i in f.insts():
            if i.op == 'getelementptr' and i.ops[0][0] == 'reg' and i.x.get('elem') in self.names:
                out.setdefault(i.ops[0][1], set()).add(i.x['elem'])
        return out

    def stored(self, f, v):
        """the same for an address that is stored to: the first member of a struct has the address of the struct"""
        k = self.of(f, v)
        ty = None
        if k is not None:
            ty = member_type(self.m.types[k[0]], self.names[k[0]].index(k[1]))
            while ty.startswith('['):
                ty = element_type(ty)
        elif v[0] == 'reg' and len(self.points[f.name].get(v[1], ())) == 1:
            ty = next(iter(self.points[f.name][v[1]]))
        while ty in self.names:
            k = (ty, self.names[ty][0])
            ty = member_type(self.m.types[ty], 0)
        return k

    def type_at(self, t):
        """the type of what an address names, as far as its own form tells"""
        if t[0] == 'fa' and t[2] in self.names and t[3] in self.names[t[2]]:
            return member_type(self.m.types[t[2]], self.names[t[2]].index(t[3]))
        if t[0] == 'el':
            ty = self.type_at(t[1])
            return element_type(ty) if ty and ty.startswith('[') else ty
        return None

    def first(self, t):
        """the location a load or store at an address touches: down to the first member"""
        ty = self.type_at(t)
        while ty:
            if ty in self.names:
                t = ('fa', t, ty, self.names[ty][0])
                ty = member_type(self.m.types[ty], 0)
            elif ty.startswith('['):
                t = ('el', t, 0)
                ty = element_type(ty)
            else:
                break
        return t

    def down(self, t, want):
        """an address that is used as one of something its own form does not name: down to the first of those"""
        at, ty = t, self.type_at(t)
        while ty and ty != want:
            if ty in self.names:
                at = ('fa', at, ty, self.names[ty][0])
                ty = member_type(self.m.types[ty], 0)
            elif ty.startswith('['):
                at = ('el', at, 0)
                ty = element_type(ty)
            else:
                return t
        return at if ty else t

    def of(self, f, v):
        """(struct, field) an address names, or None"""
        for _ in range(6):
            if v[0] == 'gep':
                ety, idx, base = v[1], v[3:], v[2]
            elif v[0] == 'reg' and v[1] in f.defs and f.defs[v[1]].op == 'getelementptr':
                d = f.defs[v[1]]
                ety, idx, base = d.x.get('elem'), d.ops[1:], d.ops[0]
            else:
                return None
            if ety in self.names and len(idx) >= 2 and idx[1][0] == 'int':
                return self.path(ety, [x[1] if x[0] == 'int' else None for x in idx[1:]])
            if ety and ety.startswith('['):
                v = base
                continue
            return None
        return None

    def path(self, ety, idx):
        """the innermost named member of an index path"""
        key = None
        ty = ety
        for x in idx:
            if ty in self.names:
                if x is None or x >= len(self.names[ty]):
                    return key
                key = (ty, self.names[ty][x])
                ty = member_type(self.m.types[ty], x)
            elif ty.startswith('['):
                ty = re.sub(r'^\[\s*\d+\s*x\s*(.*)\]$', r'\1', ty).strip()
            else:
                return key
        return key


def member_type(ty, k):
    d, n, cur = 0, 0, ''
    for c in ty.strip()[1:-1]:
        if c in '[{<(':
            d += 1
        elif c in ']}>)':
            d -= 1
        if c == ',' and d == 0:
            if n == k:
                return cur.strip()
            n += 1
            cur = ''
        else:
            cur += c
    return cur.strip()


def element_type(ty):
    return re.sub(r'^\[\s*\d+\s*x\s*(.*)\]$', r'\1', ty).strip()


def fa(obj, struct, field):
    return ('fa', obj, '%struct.' + struct, field)


def base(t):
    """the object an address lies in"""
    while t[0] in ('fa', 'el', 'gep'):
        t = t[1]
    return t


def member(t):
    """the innermost member location an address lies in"""
    while t[0] in ('el', 'gep'):
        t = t[1]
    return t if t[0] == 'fa' else None


def distinct(a, b):
    """two objects that cannot be the same"""
    if a == b:
        return False
    if a[0] == 'el' and b[0] == 'el' and a[1] == b[1]:
        return True     # b and 1-b: different spellings of an index within one array
    if a[0] == b[0] == 'fa' and a[2] == b[2] and a[3] != b[3]:
        return True
    if a[0] == 'addr' or b[0] == 'addr':
        return base(a) != base(b)
    return False


class FState(RState):
    __slots__ = ()

    def narrow(self, p, a, b):
        ok = RState.narrow(self, p, a, b)
        if ok and p[0] == 'u' and a[0] not in ('c', '?') and b[0] not in ('c', '?'):
            if p in ('ugt', 'uge'):
                a, b, p = b, a, {'ugt': 'ult', 'uge': 'ule'}[p]
            self.con[('icmp', p, a, b)] = (1, 1, frozenset())
        return ok

    def le(self, a, b, strict=False):
        """a <= b (or a < b) is known"""
        if self.cmp('slt' if strict else 'sle', a, b) is True:
            return True
        for p in ('slt', 'ult') + (() if strict else ('sle', 'ule', 'eq')):
            if self.con.get(('icmp', p, a, b), (0,))[0] == 1:
                return True
        # the same inequality written another way: one known fact, and ranges, make up the difference
        want = lin(a)
        minus(want, lin(b))
        want[None] = want.get(None, 0) + strict
        if self.below(want):
            return True
        for t, (lo, hi, ne) in self.con.items():
            if t[0] == 'icmp' and lo == 1 and t[1] in ('slt', 'ult', 'sle', 'ule', 'eq'):
                f = lin(t[2])
                minus(f, lin(t[3]))
                f[None] = f.get(None, 0) + (t[1][1:] == 'lt')
                if not any(k in want for k in f if k is not None and f[k]):
                    continue
                for sign in (1, -1) if t[1] == 'eq' else (1,):
                    w = dict(want)
                    minus(w, {k: sign * n for k, n in f.items()})
                    if self.below(w):
                        return True
        return False

    def below(self, w):
        """a linear form is known to be at most 0"""
        n = w.get(None, 0)
        for t, k in w.items():
            if t is not None and k:
                lo, hi, ne = self.rng(t)
                n += k * (hi if k > 0 else lo)
        return n <= 0


def lin(t):
    """{atom: factor} with the constant under None"""
    if t[0] == 'c':
        return {None: t[1]}
    if t[0] == 'op' and t[1] in ('add', 'sub'):
        r = lin(t[2])
        q = lin(t[3])
        minus(r, q if t[1] == 'sub' else {k: -n for k, n in q.items()})
        return r
    if t[0] == 'op' and t[1] == 'mul' and t[3][0] == 'c':
        return {k: n * t[3][1] for k, n in lin(t[2]).items()}
    return {t: 1}


def minus(a, b):
    for k, n in b.items():
        a[k] = a.get(k, 0) - n


class FSim(Sim):
    deep = 14

    def __init__(self, fn, hooks, fields, **kw):
        self.fields = fields
        kw.setdefault('split', 60)
        Sim.__init__(self, fn, hooks, **kw)
        self.entered = set()
        self.points = fields.points.get(fn.name) or fields.pointees(fn)

    def inst(self, i, st, work):
        # the first member of a struct is addressed without a getelementptr
        if i.op in ('load', 'store'):
            v = i.ops[0 if i.op == 'load' else 1]
            if v[0] == 'reg':
                ty = self.points.get(v[1], ())
                o = self.term(st, v)
                loc = self.fields.first(o)
                if loc == o and len(ty) == 1:
                    ty = next(iter(ty))
                    if o[0] != 'fa' or o[2] != ty:
                        loc = ('fa', o, ty, self.fields.names[ty][0])
                if loc != o:
                    old = st.env.get(v[1])
                    st.env[v[1]] = loc
                    out = Sim.inst(self, i, st, work)
                    for s in out:
                        if old is None:
                            s.env.pop(v[1], None)
                        else:
                            s.env[v[1]] = old
                    return out
        return Sim.inst(self, i, st, work)

    def gep(self, st, b, ety, idx):
        ks = [st.value(x) if st.value(x) is not None else x for x in idx]
        ty = ety or ''
        loc = self.fields.down(b, ty)
        if ks and ks[0] != 0:
            loc = ('el', loc, ks[0])
        for k in ks[1:]:
            if ty in self.fields.m.types and ty.startswith('%') and self.fields.m.types[ty].strip().startswith('{'):
                names = self.fields.names.get(ty)
                if not isinstance(k, int):
                    return ('?', 'gep')
                loc = ('fa', loc, ty, names[k] if names and k < len(names) else k)
                ty = member_type(self.fields.m.types[ty], k)
            elif ty.startswith('['):
                loc = ('el', loc, k)
                ty = re.sub(r'^\[\s*\d+\s*x\s*(.*)\]$', r'\1', ty).strip()
            else:
                loc = ('el', loc, k)
        return loc

    cut = ()        # loop headers: one turn of each such loop, from any state, is what is followed

    def go(self, i, st, target, work):
        if self.dominates(target, i.block) and i.op in ('br', 'switch'):
            self.h.back(self, st, i, target)
            if target in self.cut:
                return
        elif target in self.cut:
            if target in self.entered:
                return
            self.entered.add(target)
            s = type(st)()
            s.env = {r: t for r, t in st.env.items() if t[0] in ('c', 'addr') or r in [p for _, p in self.fn.params]}
            for b in self.fn.order:
                for x in self.fn.blocks[b].insts:
                    if x.res and x.res not in s.env and self.dominates(b, target) and b != target:
                        s.env[x.res] = st.env.get(x.res, ('r', x.res))
            self.h.enter(self, s, st, target)
            work.append((target, None, s))
            return
        Sim.go(self, i, st, target, work)

    def loop_body(self, header):
        fn = self.fn
        pred = {}
        for x in fn.order:
            for y in fn.blocks[x].succ:
                pred.setdefault(y, []).append(x)
        body = {header}
        todo = [p for p in pred.get(header, ()) if self.dominates(header, p)]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += pred.get(x, ())
        return body

    def dominates(self, a, b):
        if not hasattr(self, '_dom'):
            fn = self.fn
            pred = {}
            for x in fn.order:
                for y in fn.blocks[x].succ:
                    pred.setdefault(y, []).append(x)
            full = set(fn.order)
            dom = {x: set(full) for x in fn.order}
            dom[fn.entry] = {fn.entry}
            ch = True
            while ch:
                ch = False
                for x in fn.rpo():
                    if x == fn.entry:
                        continue
                    ps = [dom[p] for p in pred.get(x, ())]
                    n = (set.intersection(*ps) if ps else set()) | {x}
                    if n != dom[x]:
                        dom[x] = n
                        ch = True
            self._dom = dom
        return a in self._dom[b]

    def phis(self, st, i, target):
        """what the phis of a block take from here: {register: (term now, term next)}"""
        out = {}
        for p in self.fn.blocks[target].insts:
            if p.op != 'phi':
                break
            for v, b in p.x['inc']:
                if b == i.block:
                    out[p.res] = (st.env.get(p.res, ('r', p.res)), self.term(st, v))
        return out

    def key(self, b, st):
        # forget what lies in objects nothing live leads to
        live = self.live[b]
        terms = set()
        for r in live:
            sub(st.env.get(r, ('r', r)), terms)
        for k in self.h.live_facts(st):
            sub(k, terms)
        mem, rest = {}, dict(st.mem)
        grew = True
        while grew:
            grew = False
            for l in list(rest):
                o = base(l)
                if o[0] in ('addr', 'g', 'arg') or o in terms:
                    mem[l] = rest.pop(l)
                    sub(mem[l], terms)
                    grew = True
        st.mem = mem
        return Sim.key(self, b, st)

    def about(self, t, terms):
        if t in terms:
            return True
        return t[0] in ('icmp', 'not', 'op') and any(self.about(x, terms) for x in t[1:] if isinstance(x, tuple))

    def kill_alias(self, st, loc):
        ml = member(loc)
        bl = base(loc)
        for l in list(st.mem):
            if l == loc:
                continue
            m2 = member(l)
            if ml is not None or m2 is not None:
                if ml is None or m2 is None or ml[2:] != m2[2:]:
                    continue
                if ml == m2:
                    # within one member: an array of elements
                    if self.same_el(l, loc):
                        del st.mem[l]
                elif not distinct(ml[1], m2[1]):
                    del st.mem[l]
                continue
            b2 = base(l)
            if b2 == bl:
                if self.same_el(l, loc):
                    del st.mem[l]
            elif b2[0] not in ('addr', 'g') and bl[0] not in ('addr', 'g') and not (b2[0] == bl[0] == 'arg'):
                del st.mem[l]

    def same_el(self, a, b):
        if a[0] == b[0] == 'el' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return a[2] == b[2]
        return True

    def havoc(self, st, i, args):
        c = i.callee()
        eff = self.fields.eff.get(c)
        known = c in self.mod.functions
        out = self.h.out_args(i)
        roots, mems = set(), set()
        for k, a in enumerate(args):
            if out is not None and k not in out:
                continue
            if a[0] in ('addr', 'fa', 'el', 'gep', 'g', 'arg'):
                roots.add(base(a))
                if member(a):
                    mems.add(member(a)[2:])
        for l in list(st.mem):
            ml = member(l)
            if ml is not None:
                if known and eff is not None:
                    if ml[2:] in eff or ml[2:] in mems:
                        del st.mem[l]
                elif ml[2:] in mems or c is None:
                    del st.mem[l]
                continue
            b = base(l)
            if b[0] in ('addr', 'arg'):      # out-arguments are the caller's own variables
                if b in roots:
                    del st.mem[l]
            elif known or b in roots or c is None:
                del st.mem[l]

    def havoc_to(self, st, ptr):
        b, mp = base(ptr), member(ptr)
        for l in list(st.mem):
            ml = member(l)
            if mp is not None:
                if ml == mp:
                    del st.mem[l]
            elif ml is None and base(l) == b:
                del st.mem[l]
