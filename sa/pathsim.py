"""Path-sensitive typestate propagation over one IR function.

The data-flow value at a program point is a set of abstract states.  A state
binds SSA registers and memory cells to terms, carries interval/inequality
facts about terms (refined at branches, so that correlated tests stay
correlated) and the client's own facts.  States are pruned to what is live and
deduplicated, so the propagation terminates; no path is ever executed and no
solver is consulted."""
import re

from sa.ir import AnalysisBroken, regs_of

INF = 1 << 70
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def C(n):
    return ('c', n)


class State:
    __slots__ = ('env', 'mem', 'con', 'facts', 'trail')
    relational = False      # remember relations between two non-constant terms

    def __init__(self):
        self.env, self.mem, self.con, self.facts, self.trail = {}, {}, {}, {}, ()

    def copy(self):
        s = type(self)()
        s.env, s.mem, s.con, s.facts, s.trail = dict(self.env), dict(self.mem), dict(self.con), dict(self.facts), self.trail
        return s

    # ---- constraints: term -> (lo, hi, frozenset(neq))
    def rng(self, t):
        if t[0] == 'c':
            return (t[1], t[1], frozenset())
        if t in self.con:
            return self.con[t]
        if t[0] == 'op' and t[1] == 'and' and t[3][0] == 'c' and t[3][1] >= 0:
            return (0, t[3][1], frozenset())
        if t[0] in ('icmp', 'not'):
            return (0, 1, frozenset())
        if t[0] in ('addr', 'g', 'gep') and nonnull(t):
            return (1, INF, frozenset())
        return (-INF, INF, frozenset())

    def value(self, t):
        lo, hi, ne = self.rng(t)
        return lo if lo == hi else None

    def truth(self, t):
        """True / False / None"""
        if t[0] == 'not':
            v = self.truth(t[1])
            return None if v is None else not v
        if t[0] == 'icmp':
            return self.cmp(t[1], t[2], t[3])
        lo, hi, ne = self.rng(t)
        if lo == hi:
            return lo != 0
        if lo > 0 or hi < 0 or 0 in ne:
            return True
        return None

    def cmp(self, p, a, b):
        if a == b and a[0] != '?':
            return p in ('eq', 'sle', 'sge', 'ule', 'uge')
        if p[0] == 'u':
            # only with known non-negative operands
            if self.rng(a)[0] >= 0 and self.rng(b)[0] >= 0:
                p = 's' + p[1:]
            else:
                return None
        al, ah, an = self.rng(a)
        bl, bh, bn = self.rng(b)
        if p == 'eq' or p == 'ne':
            r = None
            if al == ah and bl == bh:
                r = al == bl
            elif ah < bl or bh < al or (bl == bh and bl in an) or (al == ah and al in bn):
                r = False
            elif self.con.get(('icmp', 'eq', a, b), (0, 0, 0))[0] == 1 or self.con.get(('icmp', 'eq', b, a), (0, 0, 0))[0] == 1:
                r = True
            return None if r is None else (r if p == 'eq' else not r)
        if p == 'slt':
            return True if ah < bl else False if al >= bh else None
        if p == 'sle':
            return True if ah <= bl else False if al > bh else None
        if p == 'sgt':
            return True if al > bh else False if ah <= bl else None
        if p == 'sge':
            return True if al >= bh else False if ah < bl else None
        return None

    def assume(self, t, truth):
        """refine; False if contradictory"""
        v = self.truth(t)
        if v is not None:
            return v == truth
        if t[0] == 'not':
            return self.assume(t[1], not truth)
        if t[0] == 'icmp':
            p = t[1] if truth else NEG[t[1]]
            return self.narrow(p, t[2], t[3])
        return self.narrow('ne' if truth else 'eq', t, C(0))

    def narrow(self, p, a, b):
        # facts about a wrapped boolean
        if b[0] != 'c' and a[0] == 'c':
            a, b, p = b, a, SWAP[p]
        if a[0] in ('icmp', 'not') and b[0] == 'c':
            if p in ('eq', 'ne') and b[1] in (0, 1):
                return self.assume(a, (b[1] == 1) == (p == 'eq'))
        for x, y, q in ((a, b, p), (b, a, SWAP[p])):
            if x[0] == 'c' or x[0] == '?':
                continue
            lo, hi, ne = self.rng(x)
            yl, yh, yn = self.rng(y)
            if q == 'eq':
                lo, hi = max(lo, yl), min(hi, yh)
            elif q == 'ne':
                if yl == yh:
                    if lo == yl:
                        lo += 1
                    elif hi == yl:
                        hi -= 1
                    else:
                        ne = ne | {yl} if len(ne) < 8 else ne
            elif q == 'slt':
                hi = min(hi, yh - 1)
            elif q == 'sle':
                hi = min(hi, yh)
            elif q == 'sgt':
                lo = max(lo, yl + 1)
            elif q == 'sge':
                lo = max(lo, yl)
            elif q in ('ult', 'ule'):
                if yl == yh and yl >= 0:
                    # x unsigned below a small constant: non-negative and below
                    lo, hi = max(lo, 0), min(hi, yh - (q == 'ult'))
            elif q in ('ugt', 'uge'):
                if yl == yh == 0 and q == 'ugt':
                    ne = ne | {0}
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            self.con[x] = (lo, hi, frozenset(n for n in ne if lo < n < hi))
        if self.relational and a[0] not in ('c', '?') and b[0] not in ('c', '?') and p != 'ne':
            if p in ('sgt', 'sge'):
                a, b, p = b, a, SWAP[p]
            if p in ('eq', 'slt', 'sle'):
                self.con[('icmp', p, a, b)] = (1, 1, frozenset())
        return True


def nonnull(t):
    while t[0] == 'gep':
        if t[2] and t[2] != (0,) and any(x != 0 for x in t[2]):
            return True if t[1][0] in ('addr', 'g') else False
        t = t[1]
    return t[0] in ('addr', 'g')


def root(t):
    while t[0] == 'gep':
        t = t[1]
    return t


class RState(State):
    __slots__ = ()
    relational = True


class Hooks:
    """what a client overrides"""

    def call(self, sim, st, inst, args):
        """-> None (unknown result), or list of (state, result term | None, 'ret'|'unwind'|'stop')"""
        return None

    def ret(self, sim, st, inst, val):
        pass

    def load(self, sim, st, inst, loc):
        """-> term or None"""
        return None

    def store(self, sim, st, inst, loc, val):
        pass

    def resume(self, sim, st, inst):
        pass

    def branch(self, sim, st, cond, truth):
        pass

    def intcast(self, st, inst, term):
        """width changes of integers leave terms as they are, unless the client cares"""
        return term

    def may_unwind(self, inst):
        return False

    def live_facts(self, st):
        return st.facts

    derived = ()

    def special(self, sim, st, inst):
        """a term for an extractvalue / landingpad / intrinsic, or None"""
        return None

    def out_args(self, inst):
        """indices of pointer args the callee may write through; None = all"""
        return None


class Sim:
    deep = 4        # terms nested more deeply than this are not kept apart

    def __init__(self, fn, hooks, limit=60000, mod=None, split=12):
        self.fn, self.h, self.limit, self.split = fn, hooks, limit, split
        self.mod = mod or fn.module
        self.steps = 0
        self.states = 0
        self._live()

    # ---- liveness of registers at block entry
    def _live(self):
        fn = self.fn
        use, dfn = {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b].insts:
                if i.op != 'phi':
                    for r in inst_regs(i):
                        if r not in d:
                            u.add(r)
                if i.res:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        self.live = {b: set() for b in fn.order}
        changed = True
        order = fn.rpo()[::-1]
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in fn.blocks[b].succ:
                    out |= self.live[s]
                    for i in fn.blocks[s].insts:
                        if i.op == 'phi':
                            for v, p in i.x['inc']:
                                if p == b:
                                    out |= set(regs_of(v))
                n = use[b] | (out - dfn[b])
                if n != self.live[b]:
                    self.live[b] = n
                    changed = True
        # phi results are defined at entry: treat as live only when used later (handled by 'use')
        for b in fn.order:
            for i in fn.blocks[b].insts:
                if i.op == 'phi':
                    self.live[b].add(i.res)

    def term(self, st, v):
        k = v[0]
        if k == 'int':
            return C(v[1])
        if k == 'null':
            return C(0)
        if k == 'reg':
            return st.env.get(v[1], ('r', v[1]))
        if k == 'glob':
            return ('g', v[1])
        if k == 'gep':
            base = self.term(st, v[2])
            idx = [self.term(st, x) for x in v[3:]]
            return self.gep(st, base, v[1], idx)
        if k == 'float':
            return ('f', v[1])
        if k == 'undef':
            return ('u',)
        return ('?',) + tuple(map(str, v))

    def gep(self, st, base, ety, idx):
        """('gep', base, (elemtype, i0, i1...)) with constant indices as ints, others as terms"""
        ks = tuple(st.value(x) if st.value(x) is not None else x for x in idx)
        if all(k == 0 for k in ks if not isinstance(k, tuple)) and not any(isinstance(k, tuple) for k in ks):
            return base
        # normalise i8 geps of a constant and merge nested
        return ('gep', base, ks)

    def key(self, b, st):
        live = self.live[b]
        env = {r: t for r, t in st.env.items() if r in live}
        st.env = env
        terms = set()
        for t in env.values():
            sub(t, terms)
        for l, t in st.mem.items():
            sub(l, terms)
            sub(t, terms)
        facts = self.h.live_facts(st)
        for k, v in facts.items():
            sub(k, terms)
            sub(v, terms)
        con = {t: c for t, c in st.con.items() if t in terms or t[0] == 'icmp' and t[2] in terms and t[3] in terms
               or t[0] == 'r' and t[1] in live or self.h.derived and self.about(t, terms)}
        st.con = con
        return (frozenset(env.items()), frozenset(st.mem.items()), frozenset(con.items()), frozenset(facts.items()))

    def about(self, t, terms):
        """a derived term whose subject is still around"""
        if t[0] in ('icmp', 'not', 'op'):
            return any(self.about(x, terms) for x in t[1:] if isinstance(x, tuple))
        return t[0] in self.h.derived and t[1] in terms

    def run(self, init=None):
        st = init or State()
        for k, (ty, r) in enumerate(self.fn.params):
            st.env.setdefault(r, ('arg', k))
        work = [(self.fn.entry, None, st)]
        seen = {}
        joined = {}
        self.joins = 0
        while work:
            b, pred, st = work.pop()
            # phis
            blk = self.fn.blocks[b]
            new = {}
            for i in blk.insts:
                if i.op != 'phi':
                    break
                for v, p in i.x['inc']:
                    if p == pred:
                        new[i.res] = self.term(st, v)
            self.forget(st, [r for r in new])
            st.env.update(new)
            k = self.key(b, st)
            sb = seen.setdefault(b, set())
            if k in sb:
                continue
            sb.add(k)
            if len(sb) > self.split:
                # too many: one state per client typestate from here on
                fk = frozenset(self.h.live_facts(st).items())
                old = joined.get((b, fk))
                if old is not None:
                    st2 = self.join(b, old, st)
                    if st2 is None:
                        continue
                    st2.trail = old.trail
                    st = st2
                joined[b, fk] = st.copy()
                self.joins += 1
            self.states += 1
            if self.states > self.limit:
                raise AnalysisBroken('state limit reached in %s' % self.fn.name)
            self.block(b, st, work)
        return self

    def join(self, b, old, new):
        """None if new adds nothing to old"""
        s = type(old)()
        changed = False
        jcon = {}
        for r, t in old.env.items():
            t2 = new.env.get(r)
            if t2 == t:
                s.env[r] = t
            else:
                j = ('j', b, r)
                s.env[r] = j
                changed = changed or t != j
                l1, h1, n1 = old.rng(t)
                l2, h2, n2 = new.rng(t2) if t2 is not None else (-INF, INF, None)
                if t == j:      # widen
                    l3, h3 = l1 if l2 >= l1 else -INF, h1 if h2 <= h1 else INF
                    changed = changed or (l3, h3) != (l1, h1)
                else:
                    l3, h3 = min(l1, l2), max(h1, h2)
                jcon[j] = (l3, h3)
        for l, t in old.mem.items():
            if new.mem.get(l) == t:
                s.mem[l] = t
            else:
                changed = True
        for t, (lo, hi, ne) in old.con.items():
            l2, h2, n2 = new.rng(t)
            if (l2, h2) == (-INF, INF) and not n2:
                changed = True
                continue
            lo3 = lo if l2 >= lo else -INF
            hi3 = hi if h2 <= hi else INF
            ne3 = frozenset(x for x in ne if x in n2 or x < l2 or x > h2)
            if (lo3, hi3, ne3) != (lo, hi, ne):
                changed = True
            if (lo3, hi3) != (-INF, INF) or ne3:
                s.con[t] = (lo3, hi3, ne3)
        if old.relational:
            # relations that hold on both sides of a merged register, under its new name
            pairs = [(old.env[r], new.env[r], s.env[r]) for r in old.env if r in new.env and s.env[r][0] == 'j' and s.env[r][1] == b]
            for one, two, k in ((old, new, 0), (new, old, 1)):
                for f, c in one.con.items():
                    if f[0] != 'icmp' or c[0] != 1:
                        continue
                    for pr in pairs:
                        if pr[k][0] != 'c' and (f[2] == pr[k] or f[3] == pr[k]):
                            g = ('icmp', f[1]) + tuple(pr[1 - k] if x == pr[k] else x for x in f[2:])
                            h = ('icmp', f[1]) + tuple(pr[2] if x == pr[k] else x for x in f[2:])
                            if s.con.get(h, (0,))[0] != 1 and (two.truth(g) is True or two.con.get(g, (0,))[0] == 1):
                                s.con[h] = (1, 1, frozenset())
        for j, (lo, hi) in jcon.items():
            s.con.pop(j, None)
            if (lo, hi) != (-INF, INF):
                s.con[j] = (lo, hi, frozenset())
        s.facts = dict(old.facts)
        return s if changed else None

    def forget(self, st, regs):
        pass

    def fresh(self, st, term):
        """a new value for a term created by an instruction: what the previous one was called is renamed"""
        used = False
        for d in (st.env, st.mem, st.con, st.facts):
            for k, v in d.items():
                if occurs(term, k) or occurs(term, v):
                    used = True
                    break
            if used:
                break
        if used:
            old = ('old', term)
            f = lambda x: subst(x, term, old)
            for n in ('env', 'mem', 'con', 'facts'):
                d = getattr(st, n)
                setattr(st, n, {f(k): f(v) for k, v in d.items()})
        return term

    def block(self, b, st, work):
        blk = self.fn.blocks[b]
        states = [st]
        for i in blk.insts:
            if i.op == 'phi':
                continue
            nxt = []
            for s in states:
                nxt += self.inst(i, s, work)
            states = nxt
            if not states:
                return

    def trail(self, st, i):
        if len(st.trail) < 400:
            st.trail = st.trail + (i,)

    def go(self, i, st, target, work):
        if i.op in ('br', 'switch') and len(i.x['succ']) > 1 or i.op == 'invoke' and target == i.x['unwind']:
            self.trail(st, i)
        work.append((target, i.block, st))

    def inst(self, i, st, work):
        self.steps += 1
        op = i.op
        T = lambda v: self.term(st, v)
        if op == 'br':
            if len(i.x['succ']) == 1:
                self.go(i, st, i.x['succ'][0], work)
                return []
            c = T(i.ops[0])
            a, b = i.x['succ']
            for truth, tgt in ((True, a), (False, b)):
                s = st.copy()
                if s.assume(c, truth):
                    self.branch(s, c, truth)
                    self.go(i, s, tgt, work)
            return []
        if op == 'switch':
            c = T(i.ops[0])
            rest = st.copy()
            ok = True
            for k, tgt in i.x['cases']:
                s = st.copy()
                if s.assume(('icmp', 'eq', c, C(k)), True):
                    self.branch(s, ('icmp', 'eq', c, C(k)), True)
                    self.go(i, s, tgt, work)
                ok = ok and rest.assume(('icmp', 'eq', c, C(k)), False)
            if ok:
                self.go(i, rest, i.x['default'], work)
            return []
        if op == 'ret':
            self.h.ret(self, st, i, T(i.ops[0]) if i.ops else None)
            return []
        if op == 'resume':
            self.h.resume(self, st, i)
            return []
        if op == 'unreachable':
            return []
        if op == 'alloca':
            st.env[i.res] = ('addr', i.res)
            return [st]
        if op == 'load':
            loc = T(i.ops[0])
            v = self.h.load(self, st, i, loc)
            if v is None:
                v = st.mem.get(loc)
            if v is None:
                v = self.fresh(st, ('ld', i.res))
                if loc[0] != '?' and not occurs(loc, v):
                    st.mem[loc] = v
            st.env[i.res] = v
            return [st]
        if op == 'store':
            loc = T(i.ops[1])
            v = T(i.ops[0])
            self.h.store(self, st, i, loc, v)
            self.kill_alias(st, loc)
            st.mem[loc] = v
            return [st]
        if op == 'getelementptr':
            base = T(i.ops[0])
            st.env[i.res] = self.gep(st, base, i.x.get('elem'), [T(o) for o in i.ops[1:]])
            return [st]
        if op in ('bitcast', 'zext', 'sext', 'trunc', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            st.env[i.res] = self.h.intcast(st, i, T(i.ops[0]))
            return [st]
        if op in ('fpext', 'fptrunc', 'sitofp', 'fptosi', 'uitofp', 'fptoui'):
            a = T(i.ops[0])
            st.env[i.res] = ('cv', op, a) if depth(a) < 5 else self.fresh(st, ('v', i.res))
            return [st]
        if op == 'icmp':
            a, b = T(i.ops[0]), T(i.ops[1])
            t = ('icmp', i.x['pred'], a, b)
            v = st.truth(t)
            st.env[i.res] = t if v is None else C(int(v))
            return [st]
        if op == 'xor' and i.ops[1] == ('int', 1) and i.ty == 'i1':
            a = T(i.ops[0])
            st.env[i.res] = ('not', a) if a[0] != 'c' else C(1 - a[1])
            return [st]
        if op == 'select':
            c = T(i.ops[0])
            out = []
            for truth, o in ((True, i.ops[1]), (False, i.ops[2])):
                s = st.copy()
                if s.assume(c, truth):
                    self.branch(s, c, truth)
                    s.env[i.res] = self.term(s, o)
                    out.append(s)
            return out
        if op in ('call', 'invoke'):
            return self.call(i, st, work)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'xor'):
            a, b = T(i.ops[0]), T(i.ops[1])
            st.env[i.res] = self.arith(st, op, a, b, i)
            return [st]
        if op == 'extractvalue' or op == 'insertvalue' or op == 'landingpad':
            if i.res:
                st.env[i.res] = self.h.special(self, st, i) or self.fresh(st, ('v', i.res))
            return [st]
        if i.res:
            st.env[i.res] = self.fresh(st, ('v', i.res))
        return [st]

    def arith(self, st, op, a, b, i):
        from sa.sccp import binop
        if a[0] == 'c' and b[0] == 'c':
            r = binop(op, a[1], b[1], 64)
            if r is not None:
                return C(r)
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c':
            a, b = b, a
        if b == C(0) and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if op in ('and', 'mul') and b == C(0):
            return C(0)
        if depth(a) < self.deep and depth(b) < self.deep:
            if op == 'sub' and b[0] == 'c':
                op, b = 'add', C(-b[1])
            if op == 'add' and b[0] == 'c' and a[0] == 'op' and a[1] == 'add' and a[3][0] == 'c':
                b, a = C(b[1] + a[3][1]), a[2]
                if b == C(0):
                    return a
            t = ('op', op, a, b)
            if op in ('add',) and b[0] == 'c':
                lo, hi, ne = st.rng(a)
                if (lo, hi) != (-INF, INF):
                    st.con[t] = (lo + b[1] if lo > -INF else lo, hi + b[1] if hi < INF else hi, frozenset(n + b[1] for n in ne))
            return t
        return self.fresh(st, ('v', i.res))

    def branch(self, st, cond, truth):
        self.h.branch(self, st, cond, truth)

    def kill_alias(self, st, loc):
        r = root(loc)
        variable = any(isinstance(k, tuple) for k in loc[2]) if loc[0] == 'gep' else False
        for l in list(st.mem):
            if l == loc:
                continue
            lr = root(l)
            if lr == r:
                lv = any(isinstance(k, tuple) for k in l[2]) if l[0] == 'gep' else False
                if variable or lv:
                    del st.mem[l]
            elif lr[0] not in ('addr', 'g') and r[0] not in ('addr', 'g'):
                del st.mem[l]

    def havoc(self, st, i, args):
        """a call: memory other than private locals may change; pointer arguments may be written"""
        out = self.h.out_args(i)
        if out is None and i.callee() and i.callee() not in self.mod.functions:
            out = set(range(len(args)))     # an external function writes through its arguments only
        roots = set()
        for k, a in enumerate(args):
            if out is not None and k not in out:
                continue
            r = root(a)
            if r[0] == 'addr':
                roots.add(r)
        for l in list(st.mem):
            lr = root(l)
            if lr[0] == 'addr':
                if lr in roots:
                    del st.mem[l]
            elif out is None or any(root(args[k]) == lr for k in out if k < len(args)):
                del st.mem[l]

    def call(self, i, st, work):
        args = [self.term(st, a) for a in i.x['args']]
        if (i.callee() or '').startswith('llvm.'):
            n = i.callee()
            if n.startswith('llvm.memset') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                self.havoc_to(st, args[0])
                if n.startswith('llvm.memcpy') and args[1][0] == 'g' and args[0][0] == 'addr':
                    for k, x in enumerate(self.const_ints(args[1][1])):
                        st.mem[args[0] if k == 0 else ('gep', args[0], (0, k))] = C(x)
            v = None
            if i.res:
                v = self.h.special(self, st, i) or self.fresh(st, ('v', i.res))
            return self.after(i, [(st, v, 'ret')], work)
        outs = self.h.call(self, st, i, args)
        if outs is None:
            self.havoc(st, i, args)
            outs = [(st, None, 'ret')]
            if i.op == 'invoke' and self.h.may_unwind(i):
                outs.append((st.copy(), None, 'unwind'))
        return self.after(i, outs, work)

    def const_ints(self, name):
        """the elements of a constant integer array"""
        g = str(self.mod.globals.get(name) or '')
        m = re.search(r'\bconstant \[\s*\d+ x i\d+\s*\] \[([^\]]*)\]', g)
        return [int(x) for x in re.findall(r'i\d+ (-?\d+)', m.group(1))] if m else []

    def havoc_to(self, st, ptr):
        r = root(ptr)
        for l in list(st.mem):
            if root(l) == r:
                del st.mem[l]

    def after(self, i, outs, work):
        res = []
        for s, v, how in outs:
            if how == 'stop':
                continue
            if how == 'unwind':
                if i.op == 'invoke':
                    self.go(i, s, i.x['unwind'], work)
                else:
                    self.h.resume(self, s, i)
                continue
            if i.res:
                if v is None:
                    v = self.fresh(s, ('v', i.res))
                s.env[i.res] = v
            if i.op == 'invoke':
                self.go(i, s, i.x['normal'], work)
            else:
                res.append(s)
        return res


def sub(t, out):
    if isinstance(t, tuple):
        if t in out:
            return
        out.add(t)
        for x in t:
            if isinstance(x, tuple):
                sub(x, out)
    elif isinstance(t, frozenset):
        for x in t:
            sub(x, out)


def occurs(term, t):
    if not isinstance(t, (tuple, frozenset)):
        return False
    if t == term:
        return True
    return any(occurs(term, x) for x in t if isinstance(x, (tuple, frozenset)))


def subst(t, term, new):
    if not isinstance(t, tuple):
        return t
    if t == term:
        return new
    if t == new:
        return t
    return tuple(subst(x, term, new) if isinstance(x, tuple) else x for x in t)


def depth(t):
    d = 0
    for x in t:
        if isinstance(x, tuple):
            d = max(d, depth(x))
    return d + 1


def inst_regs(i):
    for o in i.ops:
        for r in regs_of(o):
            yield r
    if i.op in ('call', 'invoke'):
        for a in i.x['args']:
            for r in regs_of(a):
                yield r
        if i.x.get('calleev'):
            for r in regs_of(i.x['calleev']):
                yield r
