"""M03: no I/O status is ever dropped."""
from checks import m03py
from sa.ir import AnalysisBroken, base_name
from sa.native import native, strip
from sa.pathsim import C, Hooks, RState, Sim, root
from sa.report import Result

SYS = {'open', 'open64', 'lseek', 'lseek64', 'read', 'write', 'pread', 'pwrite', 'close', 'mkdir', 'rmdir', 'fsync', 'ftruncate'}
FULL = {'read': 2, 'write': 2, 'pread': 2, 'pwrite': 2}


def status_params(m):
    """{function: parameters through which it returns an I/O status}: what errno, or another status, is stored into"""
    out = {}
    errno = {}
    for f in m.functions.values():
        errno[f.name] = {c.res for c in f.calls('__errno_location') if c.res}
    changed = True
    while changed:
        changed = False
        for f in m.functions.values():
            ps = {r: k for k, (ty, r) in enumerate(f.params)}
            have = out.get(f.name, set())
            local = set()
            got = set()
            for i in f.calls():
                for k in out.get(i.callee(), ()):
                    if k < len(i.x['args']):
                        a = strip(f, i.x['args'][k])
                        if a[0] == 'reg' and a[1] in ps:
                            got.add(ps[a[1]])
                        elif a[0] == 'reg':
                            local.add(a[1])
            for i in f.insts():
                if i.op == 'store':
                    p = strip(f, i.ops[1])
                    if p[0] == 'reg' and p[1] in ps and origin(f, i.ops[0], errno[f.name], local):
                        got.add(ps[p[1]])
            if got - have:
                out[f.name] = have | got
                changed = True
    return out


def origin(f, v, errno, local, seen=None):
    """the value is errno, or a status kept in a local variable"""
    seen = set() if seen is None else seen
    v = strip(f, v)
    if v[0] != 'reg' or v[1] in seen:
        return False
    seen.add(v[1])
    d = f.defs.get(v[1])
    if d is None:
        return False
    if d.op == 'load':
        p = strip(f, d.ops[0])
        return p[0] == 'reg' and (p[1] in errno or p[1] in local)
    if d.op == 'phi':
        return any(origin(f, x, errno, local, seen) for x, b in d.x['inc'])
    if d.op == 'select':
        return any(origin(f, x, errno, local, seen) for x in d.ops[1:])
    return False


def ends(m, sp):
    """status routines that themselves, or through the status of another, may answer -1: end of data"""
    out = set()
    for f in m.functions.values():
        ps = {r for k, (ty, r) in enumerate(f.params) if k in sp.get(f.name, ())}
        if any(i.op == 'store' and strip(f, i.ops[1])[0] == 'reg' and strip(f, i.ops[1])[1] in ps and i.ops[0] == ('int', -1) for i in f.insts()):
            out.add(f.name)
    changed = True
    while changed:
        changed = False
        for f in m.functions.values():
            ps = {r for k, (ty, r) in enumerate(f.params) if k in sp.get(f.name, ())}
            if f.name not in out and any(c.callee() in out and any(strip(f, a)[0] == 'reg' and strip(f, a)[1] in ps for a in c.x['args'])
                                         for c in f.calls()):
                out.add(f.name)
                changed = True
    return out


def sign(st, t):
    lo, hi, ne = st.rng(t)
    return 'z' if lo == hi == 0 else 'm' if lo == hi == -1 else 'p' if lo > 0 else 'n' if hi < 0 else 'x' if 0 in ne else 'u'


class Status(Hooks):
    def __init__(self, n, f, sp, entry, eof=(), answers=None):
        self.n, self.m, self.f, self.sp, self.entry, self.eof = n, n.m, f, sp, entry, eof
        self.mine = sorted(sp.get(f.name, ()))
        self.found = {}
        self.sites = {}
        self.ids = {}
        self.answers = {} if answers is None else answers

    def answer(self, n):
        """what the routine returns, where that alone tells whether it failed: ({returned when it did not}, {returned when it did})"""
        if n not in self.answers:
            self.answers[n] = None          # a routine that calls itself
            f = self.m.functions.get(n)
            if f is not None and len(self.sp.get(n, ())) == 1 and any(i.op == 'ret' and i.ops for i in f.insts()):
                h = Answer(self.n, f, self.sp, False, self.eof, self.answers)
                st = RState()
                st.env[f.params[h.mine[0]][1]] = ('addr', 'param', h.mine[0])
                Sim(f, h, limit=200000, split=16).run(st)
                if h.ok and h.bad and not h.ok & h.bad - {'it'} and None not in h.ok | h.bad:
                    self.answers[n] = (h.ok, h.bad)
        return self.answers[n]

    def live_facts(self, st):
        d = dict(st.facts)
        for k in st.facts:
            if k[0] == 'pend':
                d[('class', k[1])] = sign(st, k[1])
        for k in self.mine:
            v = st.mem.get(('addr', 'param', k))
            d[('out', k)] = (v, sign(st, v)) if v is not None else None
        for l, v in st.mem.items():
            if ('pend', v) in st.facts:
                d[('at', l)] = v
        return d

    def site(self, i):
        return self.ids.setdefault(id(i), len(self.ids))

    def settle(self, st):
        for k in [k for k in st.facts if k[0] == 'pend']:
            what = st.facts[k]
            lo, hi, ne = st.rng(k[1])
            if what[0] in ('st', 'opt') and lo == hi == 0 or what[0] == 'sys' and lo >= 0:
                del st.facts[k]
            if what[0] == 'full' and st.truth(('icmp', 'eq', k[1], what[3])):
                del st.facts[k]

    def optional(self, i, args):
        """looking for an item whose name the caller chose: that it is not there is an answer"""
        return any(self.m.string(a) == 'read' for a in i.x['args']) and any(a[0] == 'arg' for a in args[1:])

    def hand(self, st, t):
        """the status goes to somebody else"""
        for w in [t] + ([t[2]] if t[0] in ('icmp',) else []):
            if w[0] == 'st':
                st.facts.pop(('pend', w), None)

    def renew(self, st, t):
        """the site is passed again: what it left pending stays so"""
        w = st.facts.pop(('pend', t), None)
        if w is not None:
            st.facts[('lost', w)] = st.rng(t)

    def call(self, sim, st, i, args):
        n = i.callee()
        if self.n.stops(i, [st.value(a) for a in args]):
            return [(st, None, 'stop')]
        if n == '__errno_location':
            return [(st, ('errnop',), 'ret')]
        self.settle(st)
        if n in SYS and i.res:
            t = ('sys', self.site(i))
            self.renew(st, t)
            sim.havoc(st, i, args)
            t = sim.fresh(st, t)
            st.con.pop(t, None)
            self.sites[id(i)] = n
            st.facts[('pend', t)] = ('sys', n, self.m.where(i))
            if n in FULL:
                st.facts[('pend', t)] = ('full', n, self.m.where(i), args[FULL[n]])
            return [(st, t, 'ret')]
        ks = [k for k in self.sp.get(n, ()) if k < len(args)]
        if not ks:
            for a in args:
                if n not in self.n.mu and not (n or '').startswith('llvm.'):
                    self.hand(st, a)
            return None
        olds = []
        for k in ks:
            t = ('st', self.site(i), k)
            self.renew(st, t)
        sim.havoc(st, i, args)
        for k in ks:
            t = sim.fresh(st, ('st', self.site(i), k))
            st.con.pop(t, None)
            sim.kill_alias(st, args[k])
            st.mem[args[k]] = t
            st.facts[('pend', t)] = ('opt' if self.optional(i, args) else 'st', base_name(n), self.m.where(i))
            self.sites[id(i)] = base_name(n)
        out = []
        both = self.answer(n) if i.res and len(ks) == 1 else None
        if both:
            ok, t = st.copy(), ('st', self.site(i), ks[0])
            ok.facts.pop(('pend', t), None)
            ok.con[t] = (0, 0, frozenset())
            st.con[t] = (-(1 << 31), (1 << 31) - 1, frozenset([0]))
            for s, vals in ((ok, both[0]), (st, both[1])):
                vals = sorted(vals, key=str)
                out += [(s if k == 0 else s.copy(), t if v == 'it' else C(v), 'ret') for k, v in enumerate(vals)]
        else:
            out = [(st, None, 'ret')]
        if i.op == 'invoke' and self.n_may_throw(n):
            out.append((st.copy(), None, 'unwind'))
        return out

    def n_may_throw(self, n):
        return True

    def may_unwind(self, i):
        return False

    def out_args(self, i):
        return set(range(len(i.x['args'])))

    def load(self, sim, st, i, loc):
        if loc == ('errnop',):
            t = ('errno',)
            st.con[t] = (1, 1 << 20, frozenset())
            return t
        return None

    def store(self, sim, st, i, loc, val):
        if root(loc)[0] != 'addr':
            self.hand(st, val)

    def resume(self, sim, st, i):
        pass

    def ret(self, sim, st, i, val):
        self.settle(st)
        pend = {('pend', k[1]): v for k, v in st.facts.items() if k[0] == 'pend'}
        lost = [(k[1], v) for k, v in st.facts.items() if k[0] == 'lost']
        if not pend and not lost:
            return
        out = [st.mem.get(('addr', 'param', k)) for k in self.mine]
        if any(v is not None and st.truth(v) is True for v in out):
            return
        if i.ops and i.ty == 'ptr' and val is not None and st.truth(val) is False:
            return
        for k, w in pend.items():
            t = k[1]
            if t in out or val == t:
                continue
            if val is not None and val[0] in ('icmp', 'not') and t in flat(val):
                continue
            lo, hi, ne = st.rng(t)
            known = st.truth(t)
            if w[0] != 'sys' and lo == hi == -1:
                continue
            if w[0] == 'opt' and known is True:
                continue        # an item that need not exist
            if w[0] == 'st' and known is True and w[1] in self.eof and val is not None and lo <= -1 <= hi and -1 not in ne \
                    and not any(v is not None and t in flat(v) for v in [val] + out):
                self.note(w, 'merged', st, i)
                continue
            if w[0] == 'st' and known is True and val is not None and not self.entry:
                continue
            self.note(w, 'nonzero' if known is True else 'unseen', st, i)
        for w, (lo, hi, ne) in lost:
            self.note(w, 'lost', st, i)

    def note(self, w, how, st, i):
        self.found.setdefault((w[2], how), (w, how, st, i))


class Answer(Status):
    """the values a routine returns after it failed, and after it did not"""

    def __init__(self, *a):
        Status.__init__(self, *a)
        self.ok, self.bad = set(), set()

    def ret(self, sim, st, i, val):
        self.settle(st)
        out = st.mem.get(('addr', 'param', self.mine[0]))
        given = out is not None and out[0] in ('st', 'errno', 'c')
        known = st.truth(out) if out is not None else None
        v = val[1] if val is not None and val[0] == 'c' else None
        if not given and known is True:
            return          # it had failed before
        fails = succeeds = v
        if given and val == out:
            fails = succeeds = 'it'
        elif out is not None and val is not None and v is None:
            fails, succeeds = self.under(st, val, out, True), self.under(st, val, out, False)
        if given and known is not False:
            self.bad.add(fails)
        if not given or known is not True:
            self.ok.add(succeeds)


    def under(self, st, val, out, nonzero):
        """a comparison, given that the status is zero or not"""
        s = st.copy()
        if val[0] not in ('icmp', 'not') or not s.assume(out, nonzero):
            return None
        v = s.truth(val)
        return None if v is None else int(v)


def flat(t):
    out = set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            out.add(x)
            work += list(x)
    return out


def run(tier):
    r = Result()
    n = native()
    m = n.m
    sp = status_params(m)
    if len(sp) < 5:
        raise AnalysisBroken('the status protocol is not recognised (%d routines)' % len(sp))
    seen = n.reach(n.eps)
    answers = {}
    eof = {base_name(x) for x in ends(m, sp)}
    r.counts['status_routines'] = len([f for f in sp if f in seen])
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None or not any(c.callee() in sp or c.callee() in SYS for c in f.calls()):
            continue
        h = Status(n, f, sp, name in n.eps, eof, answers)
        s = Sim(f, h, limit=200000, split=16)
        st = RState()
        for k in h.mine:
            st.env[f.params[k][1]] = ('addr', 'param', k)
        s.run(st)
        r.count('functions_followed')
        r.count('status_sites', len(h.sites))
        for (where, how), (w, how, st, i) in sorted(h.found.items(), key=lambda x: str(x[0])):
            fn = base_name(name)
            if how == 'merged':
                msg = '%s answers the end of the data and a failure of %s alike' % (fn, w[1])
            elif how == 'nonzero':
                msg = '%s goes on to report success although %s failed' % (fn, w[1])
            elif w[0] == 'full':
                msg = '%s does not notice a %s of fewer bytes than asked for' % (fn, w[1])
            else:
                msg = '%s never looks at the status %s returns' % (fn, w[1])
            r.add('S-' + how, '%s/%s' % (fn, w[1]), where, msg, [m.where(x) for x in st.trail[-6:]] + ['returns at ' + m.where(i)])
    r.rule('Every path of every function reachable from Python that uses a status-returning routine or system call is followed: on each return, every '
           'status obtained on the way is known to be zero (or end-of-file), is handed on, or the function itself reports failure.')
    r.floor('status_sites', 40)
    m03py.run(r)
    return r
