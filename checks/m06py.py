"""M06, Python layer: what UV._wrhd writes is what UV._rdhd reads, element by element.

Loops are summarised: a variable that each pass advances becomes an induction variable, a list that each pass extends a repeated segment.  From the
summary the offset, type and element of every access follow as functions of the pass number; they are compared over one period of the guards."""
import ast

from sa import absint, py
from sa.absint import C, isc
from sa.absint import Interp, GaveUp

SIZE = {'i': 4, 'j': 2, 'r': 4, 'd': 8, 'c': 8, 'l': 8}
HEAD = {'i': 4, 'j': 4, 'r': 4, 'd': 8, 'c': 8, 'l': 8, 'b': 4}
N = 13      # passes compared: two periods of every guard modulus that occurs (1, 2, 3, 4, 6) and one more
IO = ('IOError', 'OSError', 'EnvironmentError', 'Exception')


class Loop:
    def __init__(self, seq, conc):
        self.seq, self.conc = seq, conc
        self.init, self.paths, self.exits = {}, [], []


class HI(Interp):
    """the interpreter with loops summarised and the native item calls modelled"""

    def __init__(self, **k):
        Interp.__init__(self, **k)
        self.loops = {}
        self.calls = {}
        self.ends = True

    # ---------------------------------------------------------------- native calls
    def apply(self, fv, a, kws, st, f, depth, n):
        nm = fv[1].split('.')[-1] if fv[0] == 'ext' else fv[2] if fv[0] == 'at' else ''
        mod = fv[0] == 'ext' and '_miriad.' in fv[1] or fv[0] == 'at' and fv[1] in (('ext', 'aipy._miriad'), ('mod', 'aipy._miriad'))
        if fv[0] == 'bm':
            nm, mod = fv[2].split('.')[-1], False
        if mod and nm in ('hread', 'hwrite', 'hread_init', 'hwrite_init', 'hdaccess'):
            self.n += 1
            i = self.n
            fa = [self.freeze(st, x) for x in a]
            if kws:
                raise GaveUp('keywords for %s' % nm)
            st.eff.append((nm, i, tuple(fa), n.lineno, f.qual))
            if nm == 'hread':
                out = [(('tup', (('rd', i), ('rdn', i))), st)]
                if self.ends:
                    s2 = st.copy()
                    s2.eff[-1] = ('hread-end', i, tuple(fa), n.lineno, f.qual)
                    out += self.raise_('IOError', s2)
                return out
            if nm == 'hread_init':
                return [(('tup', (('tag', i), ('head',))), st)]
            if nm == 'hwrite':
                return [(('wrn', i), st)]
            if nm == 'hwrite_init':
                return [(('head',), st)]
            return [(C(None), st)]
        if nm == 'haccess' and fv[0] in ('at', 'bm') and len(a) == 2:
            h = ('item', self.freeze(st, a[0]), self.freeze(st, a[1]))
            st.eff.append(('haccess', h, n.lineno))
            out = [(h, st)]
            if self.missing:
                out += self.raise_('IOError', st.copy())
            return out
        return Interp.apply(self, fv, a, kws, st, f, depth, n)

    missing = False

    def builtin(self, name, a, kws, st, f, depth, n):
        if name in ('sorted', 'reversed', 'set', 'builtins.sorted', 'builtins.reversed', 'builtins.set') and len(a) == 1 and self.kinds.get(a[0]) == 'seq':
            raise Wrong('the value in another order (%s)' % name)
        return Interp.builtin(self, name, a, kws, st, f, depth, n)

    def items(self, t, st, f, depth):
        h = self.heap(st, t)
        if h and h[0] == 'list' and len(h[1]) == 1 and h[1][0][0] == 'seg' and self.kinds.get(h[1][0][1]) == 'seq':
            t = h[1][0][1]          # list(value)
        if t[0] == 'it' and t[2][0] == 'sl' and self.kinds.get(t[1]) == 'seq':
            return [([self.element(t, st)], st)]
        if self.kinds.get(t) == 'seq':
            return [([('it', t, self.index(t, st))], st)]
        return Interp.items(self, t, st, f, depth)

    # ---------------------------------------------------------------- loops
    def stmt1(self, n, st, f, depth):
        if isinstance(n, ast.While):
            return self.ivloop(n, st, f, depth, None, None)
        return Interp.stmt1(self, n, st, f, depth)

    def loop(self, n, st, f, depth):
        out = []
        for v, s in self.ev(n.iter, st, f, depth):
            if v == 'EXC':
                out.append(('raise', s.conds.pop('#exc', '?'), s))
                continue
            if self.concrete(s, v) and not any(x[0] == 'seg' for x in (self.heap(s, v) or (0, ()))[1] if isinstance(x, tuple)):
                out += Interp.loop(self, ast.copy_location(ast.For(target=n.target, iter=ast.copy_location(_Term(v), n), body=n.body, orelse=n.orelse), n), s, f, depth)
                continue
            for els, s1 in self.items(v, s, f, depth):
                if len(els) != 1:
                    raise GaveUp('loop over %s' % (v,))
                out += self.ivloop(n, s1, f, depth, els[0], n.target)
        return out

    def ev(self, n, st, f, depth):
        if isinstance(n, _Term):
            return [(n.t, st)]
        return Interp.ev(self, n, st, f, depth)

    def ivloop(self, n, st, f, depth, el, target):
        """one pass over the body with the loop's variables symbolic; twice, to know which variables and lists it changes"""
        L = ('L', n.lineno, len(self.loops))
        names = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names = sorted(x for x in names if x in st.env)
        probe = st.copy()
        keep = len(self.loops)
        lists = set()
        changed = set()
        for k, v, s in self.passes(n, probe, f, depth, el, target, L, set(names), set()):
            for r, h in s.heap.items():
                if r in st.heap and h[0] == 'list' and h[1] != st.heap[r][1]:
                    lists.add(r)
            changed |= {x for x in names if s.env.get(x) != ('iv', L, x)}
        for x in [x for x in self.loops if x[2] >= keep]:
            self.loops.pop(x)
        lp = Loop(el, target)
        self.loops[L] = lp
        lp.init = {x: st.env[x] for x in changed}
        start = len(st.eff)
        out = []
        for k, v, s in self.passes(n, st.copy(), f, depth, el, target, L, changed, lists):
            if k in ('next', 'continue'):
                new = {r: s.heap[r][1][len(st.heap[r][1]) + 1:] for r in lists}
                lp.paths.append((dict(s.conds), s.eff[start:], {x: s.env.get(x) for x in changed}, new))
            else:
                s.eff[start:start] = [('loop', L)]
                out.append(('next', None, s) if k == 'break' else (k, v, s))
                lp.exits.append(k)
        end = st
        infinite = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
        if not infinite:
            for x in changed:
                end.env[x] = ('ivx', L, x)
            for x in names:
                if x not in changed and x in end.env:
                    pass
            for r in lists:
                end.heap[r] = (end.heap[r][0], end.heap[r][1] + [('seg', ('rep', L, r))]) + tuple(end.heap[r][2:])
            end.eff.append(('loop', L))
            if n.orelse:
                out += self.block(n.orelse, end, f, depth)
            else:
                out.append(('next', None, end))
        return out

    def passes(self, n, st, f, depth, el, target, L, changed, lists):
        for x in changed:
            st.env[x] = ('iv', L, x)
        for r in lists:
            st.heap[r] = (st.heap[r][0], st.heap[r][1] + [('seg', ('rep', L, r))]) + tuple(st.heap[r][2:])
        res = []
        if el is not None:
            old = st.idx
            st.idx = old + tuple(x for x in self.indices(el) if x not in old)
            for s in self.assign(target, el, st, f, depth):
                for k, v, s2 in self.block(n.body, s, f, depth):
                    s2.idx = old
                    res.append((k, v, s2))
            return res
        for b, s in self.test(n.test, st, f, depth):
            if b == 'EXC':
                res.append(('raise', '?', s))
            elif b:
                res += self.block(n.body, s, f, depth)
        return res


class _Term(ast.expr):
    def __init__(self, t):
        ast.expr.__init__(self)
        self.t = t


class Unknown(Exception):
    pass


def num(t, b):
    """the value of a term under a binding of its symbols"""
    if t in b:
        return b[t]
    if isc(t, int, bool):
        return int(t[1])
    if t[0] == 'lin':
        d, c = absint.lin_of(t)
        return sum(num(k, b) * v for k, v in d.items()) + c
    if t[0] == 'idx' and ('idx',) in b:
        return b[('idx',)]
    if t[0] == 'op':
        x, y = num(t[2], b), num(t[3], b)
        try:
            return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Mod': lambda: x % y, 'FloorDiv': lambda: x // y}[t[1]]()
        except (KeyError, ZeroDivisionError):
            raise Unknown(t)
    raise Unknown(t)


CMP = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
       'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}


def holds(conds, b):
    """False if a condition is known not to hold; conditions on other things do not count"""
    for t, v in conds.items():
        if t == '#exc':
            continue
        try:
            if t[0] == 'cmp' and t[1] in CMP:
                x = CMP[t[1]](num(t[2], b), num(t[3], b))
            else:
                x = bool(num(t, b))
        except Unknown:
            continue
        if x != v:
            return False
    return True


def const(t):
    return t[1] if isc(t, str) else None


def elem(t, b, vals):
    """which element of the value a term is: its number, or None for the whole"""
    if t == vals:
        return 'all'
    if t[0] == 'it' and t[1] == vals:
        return num(t[2], b)
    if t[0] == 'it' and t[1][0] == 'it' and t[1][1] == vals and t[1][2][0] == 'sl':
        lo, hi, st = t[1][2][1:]
        if isc(st, int) and st != C(1):
            raise Wrong('every %d. element of the value' % st[1])
        if isc(hi, int):
            raise Wrong('part of the value ([...:%d])' % hi[1])
        if st not in (C(None), C(1)) or hi != C(None):
            raise Unknown(t)
        return (0 if lo == C(None) else num(lo, b)) + num(t[2], b)
    if t == ('len', vals):
        raise Wrong('the number of elements')
    raise Unknown(t)


class Wrong(Exception):
    pass


class Layout:
    """accesses in order: (offset, type, what); head: the mark written/asked for"""

    def __init__(self, it, text, size):
        self.it, self.text, self.size = it, text, size
        self.acc = []
        self.head = None
        self.el = {}            # read call and pass -> access number
        self.items = set()
        self.lines = []

    def run(self, eff, b, pass_=()):
        for e in eff:
            if e[0] == 'haccess':
                self.items.add(e[1])
            elif e[0] in ('hread_init', 'hwrite_init'):
                self.items.add(e[2][0])
                self.head = const(e[2][1]) if e[0] == 'hwrite_init' else '?'
                if e[0] == 'hwrite_init' and self.head is None:
                    raise Unknown('type mark')
                b[('head',)] = HEAD.get(self.head if e[0] == 'hwrite_init' else self.size, 4)
            elif e[0] in ('hread', 'hwrite'):
                self.access(e, b, pass_)
            elif e[0] == 'loop':
                self.over(self.it.loops[e[1]], e[1], b, pass_)

    def access(self, e, b, pass_):
        nm, i, a, line, qual = e
        rd = nm == 'hread'
        off, ty = num(a[1], b), const(a[2 if rd else 3])
        if ty is None:
            raise Unknown('type')
        self.items.add(a[0])
        k = len(self.acc)
        n = (k % 3 + 1) if ty == 'a' else SIZE.get(ty)
        if n is None:
            raise Unknown('type %r' % ty)
        what = None
        if not rd:
            what = elem(a[2], b, self.text)
        self.acc.append((off, ty, what))
        self.lines.append(line)
        self.el[(i, pass_)] = k
        b[('rdn' if rd else 'wrn', i)] = n

    def over(self, lp, L, b, pass_):
        env = dict(lp.init)
        cur = {x: num(v, b) if not isinstance(v, int) else v for x, v in env.items() if self.numeric(v, b)}
        self.order = getattr(self, 'order', {})
        reps = self.order.setdefault(L, [])
        for k in range(N):
            b2 = dict(b)
            b2[('idx',)] = k
            for x, v in cur.items():
                b2[('iv', L, x)] = v
            live = [p for p in lp.paths if holds(p[0], b2)]
            sigs = {tuple((e[0],) + tuple(e[2]) for e in p[1] if e[0] in ('hread', 'hwrite')) for p in live}
            if not live:
                return
            if len(sigs) > 1:
                raise Unknown('which accesses a pass makes')
            p = live[0]
            self.run(p[1], b2, pass_ + (k,))
            for x in list(cur):
                v = p[2].get(x)
                if v is None or not self.numeric(v, b2):
                    cur.pop(x)
                else:
                    cur[x] = num(v, b2)
            reps.append([(r, [(x, pass_ + (k,)) for x in new]) for r, new in p[3].items()])
        for x, v in cur.items():
            b[('ivx', L, x)] = b[('iv', L, x)] = v      # after the last full pass; a pass that is left early starts there

    def numeric(self, v, b):
        try:
            num(v, b)
            return True
        except Unknown:
            return False


def find(t, pred):
    if isinstance(t, tuple):
        if t and pred(t):
            return t
        for x in t:
            r = find(x, pred) if isinstance(x, tuple) else None
            if r is not None:
                return r
    return None


TABLE = ('it', ('g', 'aipy.miriad', 'itemtable'))
NARROW = {'d': ('float32', 'float16', 'single', 'half', 'f', 'f4', 'int', 'int32', 'int64'), 'r': ('float16', 'half', 'int', 'int32', 'int64'),
          'c': ('float', 'float32', 'float64', 'double', 'int'), 'i': ('int8', 'int16', 'short', 'float32', 'float16', 'bool')}
ALTER = ('strip', 'rstrip', 'lstrip', 'replace', 'upper', 'lower', 'title', 'split', 'splitlines', 'expandtabs', 'translate', 'capitalize')
UTF8 = ('utf-8', 'utf8', 'UTF-8', 'UTF8', 'U8', 'utf_8')


class Check:
    def __init__(self, r):
        self.r = r
        self.pr = py.project()
        self.uv = self.pr.mods['aipy.miriad'].classes['UV']
        self.me = ('p', 'uv')
        self.wr, self.rd = self.pr.method(self.uv, '_wrhd'), self.pr.method(self.uv, '_rdhd')

    def where(self, f):
        return 'aipy/miriad.py:%d' % f.node.lineno

    def interp(self, name, ty, kinds=None):
        it = HI(types={self.me: self.uv}, kinds=kinds)
        st = absint.St()
        st.over[TABLE + (C(name),)] = C(ty)
        return it, st

    def outs(self, it, f, args, st, what):
        outs = it.call_func(f, args, (), st)
        live = [o for o in outs if o.kind == 'return']
        if not live:
            raise Unknown('no way through %s' % what)
        if it.vague:
            raise Unknown(it.vague[0])
        return live

    def written(self, name, ty, kind):
        val = ('p', 'value')
        it, st = self.interp(name, ty, {val: kind})
        res = []
        for o in self.outs(it, self.wr, [self.me, C(name), val], st, '_wrhd(%r)' % name):
            lay = Layout(it, val, ty)
            lay.run(o.st.eff, {})
            res.append(lay)
            self.r.count('ways')
        if len({(x.head, tuple(x.acc), tuple(sorted(x.items))) for x in res}) != 1:
            raise Unknown('several ways through _wrhd(%r)' % name)
        return res[0]

    def read(self, name, ty):
        it, st = self.interp(name, ty)
        res = []
        for o in self.outs(it, self.rd, [self.me, C(name)], st, '_rdhd(%r)' % name):
            lay = Layout(it, None, ty)
            lay.run(o.st.eff, {})
            self.r.count('ways')
            res.append((lay, it.freeze(o.st, o.value), o.st.conds))
        return res

    # ---------------------------------------------------------------- what is returned
    def sequence(self, t, lay):
        """the accesses whose values a list holds, in order"""
        if t[0] != 'list':
            raise Unknown('what is returned')
        out = []
        for x in t[1]:
            if x[0] == 'seg' and x[1][0] == 'rep':
                for one in lay.order.get(x[1][1], []):
                    for r, els in one:
                        if r == x[1][2]:
                            out += [self.access(y, lay, p) for y, p in els]
            else:
                out.append(self.access(x, lay, ()))
        return out

    def access(self, t, lay, p):
        if t[0] == 'call' and t[1] == ('ext', 'str') and len(t[2]) > 1 or t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'decode':
            raise Wrong('text is decoded piece by piece: a character of several bytes cannot be read back')
        if t[0] == 'it' and t[1][0] == 'rd' and t[2][0] == 'sl' and t[2][1] in (C(None), C(0)) and t[2][2] in (('rdn', t[1][1]), C(None)):
            t = t[1]
        if t[0] != 'rd' or (t[1], p) not in lay.el:
            raise Unknown('an element of what is returned')
        return lay.el[(t[1], p)]

    def returned(self, name, ty, lay, v, conds):
        """(which accesses, in order; only the first?)"""
        if ty == 'a':
            if v[0] == 'it' and v[2] == C(0) and conds.get(('cmp', 'Eq', ('len', v[1]), C(1))) is True:
                v = v[1]            # the only character of a text is the text
            if v[0] == 'call' and v[1][0] == 'ext' and len(v[2]) == 1 and any(
                    b is False and t[0] == 'cmp' and t[2] == ('call', ('ext', 'type'), (v[2][0],), ()) and t[3] in (('ext', 'str'), ('ext', 'builtins.str'))
                    for t, b in conds.items() if t != '#exc'):
                return None, False  # decoded text is a str
            v = self.untext(name, v, conds)
        if v[0] == 'call' and v[1][0] == 'ext' and v[1][1].split('.')[-1] in ('array', 'asarray', 'list', 'tuple') and len(v[2]) == 1:
            dt = dict(v[3]).get('dtype')
            if dt is not None and ty in NARROW and (dt[1].split('.')[-1] if dt[0] == 'ext' else dt[1] if isc(dt, str) else None) in NARROW[ty]:
                raise Wrong('values of type %r are returned as %s' % (ty, dt[1]))
            if v[3]:
                raise Unknown('the type of what is returned')
            v = v[2][0]
        if v[0] == 'it' and v[1][0] == 'rep':
            v = ('it', ('list', (('seg', v[1]),)), v[2])
        if v[0] == 'it' and isc(v[2], int) and v[1][0] in ('list', 'tup'):
            seq = self.sequence(('list', v[1][1]), lay)
            one = [t for t, b in conds.items() if t != '#exc' and find(t, lambda x: x[0] == 'len')]
            if not one:
                raise Wrong('only element %d of the item is returned, however many there are' % v[2][1])
            for t in one:
                # what the number of elements may be
                ln = find(t, lambda x: x[0] == 'len')
                try:
                    num(t[2] if t[0] == 'cmp' else t, {ln: 1}), num(t[3] if t[0] == 'cmp' else t, {ln: 1})
                except Unknown:
                    raise Unknown('when only one element is returned')
                n = [k for k in range(1, 6) if holds({t: conds[t]}, {ln: k})]
                if n and n[-1] > 1:
                    raise Wrong('only element %d is returned of an item of %d' % (v[2][1], n[-1]))
                if n != [1]:
                    raise Unknown('when only one element is returned')
            return [seq[v[2][1]]], True
        if v[0] == 'rd':
            return [self.access(v, lay, ())], False
        return self.sequence(v, lay), False

    def untext(self, name, v, conds):
        for _ in range(8):
            if v[0] == 'call' and v[1][0] == 'at' and v[1][2] == 'join' and isc(v[1][1]):
                if v[1][1][1]:
                    raise Wrong('the pieces are joined by %r' % v[1][1][1])
                return v[2][0]
            if v[0] == 'call' and v[1][0] == 'at' and v[1][2] == 'decode' or v[0] == 'call' and v[1] in (('ext', 'str'), ('ext', 'builtins.str')):
                args = v[2] if v[1][0] == 'at' else v[2][1:]
                kws = dict(v[3])
                enc = args[0] if args else kws.get('encoding', C('utf-8'))
                err = args[1] if len(args) > 1 else kws.get('errors', C('strict'))
                if isc(enc, str) and enc[1] not in UTF8:
                    raise Wrong('text is written in UTF-8 and read as %s' % enc[1])
                if isc(err, str) and err[1] not in ('strict', 'surrogateescape'):
                    raise Wrong('bytes that are not text are dropped or replaced (%r)' % err[1])
                v = v[1][1] if v[1][0] == 'at' else v[2][0]
                continue
            if v[0] == 'call' and v[1][0] == 'at' and v[1][2] in ALTER:
                raise Wrong('%s() changes the text read' % v[1][2])
            if v[0] == 'it' and v[2][0] == 'sl':
                tag = [t for t, b in conds.items() if b and find(t, lambda x: x[:1] == ('at',) and x[2] == 'startswith')]
                if not tag:
                    raise Wrong('part of the text is cut off, whatever it is')
                t = find(tag[0], lambda x: x[0] == 'call' and x[1][0] == 'at' and x[1][2] == 'startswith')
                if not (t and isc(t[2][0], bytes) and 0 in t[2][0][1]):
                    raise Wrong('text that starts with %r is cut' % (t[2][0][1] if t and isc(t[2][0]) else '?',))
                if v[2][1] != C(len(t[2][0][1])) or v[2][2] != C(None):
                    raise Wrong('the mark at the start of the text is not what is cut off')
                v = v[1]
                continue
            break
        if v[0] == 'fmt' or v[0] == 'list':
            raise Unknown('what is returned for text')
        return v

    # ---------------------------------------------------------------- comparison
    def pair(self, name, ty, kind):
        W = self.written(name, ty, kind)
        self.r.count('layouts')
        tag = '%s:%s' % (name, kind)
        if W.items != {('item', C(name), C('write'))}:
            self.bad(self.wr, 'item', tag, 'writing %r uses %s' % (name, self.show(W.items)))
            return
        many = kind == 'seq'
        for k, (off, t, what) in enumerate(W.acc):
            if what == 'all' and not many:
                what = k if k == 0 else -1
            if what != k:
                self.bad(self.wr, 'order', tag, 'value %d written to %r is %s' % (k, name, 'element %s of the value' % what if what != 'all' else 'the whole value'))
                return
            if ty != '?' and t != ty:
                self.bad(self.wr, 'type', tag, 'element %d of %r, an item of type %r, is written as %r' % (k, name, ty, t))
                return
        if many and len(W.acc) < N or not many and len(W.acc) != 1:
            self.bad(self.wr, 'dropped', tag, 'only %d elements of a longer value are written to %r' % (len(W.acc), name))
            return
        for R, v, conds in self.read(name, ty):
            if R.items != {('item', C(name), C('read'))}:
                self.bad(self.rd, 'item', tag, 'reading %r uses %s' % (name, self.show(R.items)))
                return
            if (W.head is None) != (R.head is None):
                self.bad(self.rd, 'mark', tag, 'the type mark of %r is %s' % (name, 'written and not read' if W.head else 'read and not written'))
                return
            if W.head not in (None, ty):
                self.bad(self.wr, 'mark', tag, '%r, an item of type %r, is marked as %r' % (name, ty, W.head))
                return
            n = min(len(W.acc), len(R.acc))
            if n < min(len(W.acc), N):
                self.bad(self.rd, 'short', tag, 'only %d elements of %r are read' % (n, name))
                return
            for k in range(n):
                if W.acc[k][:2] != R.acc[k][:2]:
                    self.bad(self.rd, 'layout', tag, 'element %d of %r is written at byte %d as %r and read at byte %d as %r' % (
                        (k, name) + W.acc[k][:2] + R.acc[k][:2]))
                    return
            try:
                seq, first = self.returned(name, ty, R, v, conds)
            except Wrong as e:
                self.bad(self.rd, 'value', tag, 'reading %r: %s' % (name, e))
                return
            if seq is None:
                continue
            want = list(range(len(R.acc)))
            if first:
                want = want[:1]
            if seq != want:
                self.bad(self.rd, 'value', tag, 'reading %r gives the elements in the order %s..., not as they were written' % (name, seq[:6]))
                return

    def bad(self, f, rule, tag, text):
        self.r.add('P-' + rule, tag, self.where(f), text)

    def show(self, items):
        return ', '.join('%s opened for %s' % (x[1][1] if isc(x[1]) else '?', x[2][1] if isc(x[2]) else '?') if x[0] == 'item' else 'another handle' for x in sorted(items)) or 'no item'

    # ---------------------------------------------------------------- uv[name]
    def dispatch(self):
        name, val = ('p', 'name'), ('p', 'value')
        for meth, args, var, hdr in (('__getitem__', [name], '_rdvr', '_rdhd'), ('__setitem__', [name, val], '_wrvr', '_wrhd')):
            f = self.pr.method(self.uv, meth)
            for known in (True, False):
                it = DI(types={self.me: self.uv}, stop=lambda m: m.name in ('_rdhd', '_wrhd', '_rdhd_special', '_wrhd_special'))
                it.known = known
                outs = [o for o in it.call_func(f, [self.me] + args, (), absint.St())]
                for o in outs:
                    if o.kind == 'raise':
                        continue
                    self.r.count('ways')
                    calls = [(e[1][2].split('.')[-1], tuple(it.freeze(o.st, x) for x in e[2])) for e in o.st.eff
                             if e[0] == 'call' and e[1][0] in ('at', 'bm') and e[1][2].split('.')[-1] in ('_rdvr', '_wrvr', '_rdhd', '_wrhd')]
                    vt = ('it', ('at', self.me, 'vartable'), name)
                    want = (var, (name, vt) + tuple(args[1:])) if known else (hdr, tuple(args))
                    ctx = '%s/%s' % (meth, 'variable' if known else 'item')
                    if [c[0] for c in calls] == [want[0]] and calls[0] != want:
                        self.r.add('P-dispatch', ctx, self.where(f), '%s of a %s calls %s with other arguments than the name%s' % (
                            meth, 'variable' if known else 'header item', want[0], ', its type in the table and the value' if known else ' and the value'))
                    elif calls != [want]:
                        self.r.add('P-dispatch', ctx, self.where(f), '%s of a %s calls %s instead of %s' % (
                            meth, 'variable' if known else 'header item', ', '.join(c[0] for c in calls) or 'nothing', want[0]))
                    elif meth == '__getitem__':
                        v = it.freeze(o.st, o.value)
                        if not (v[0] == 'call' and v[1][0] in ('at', 'bm') and v[1][2].split('.')[-1] == want[0]):
                            self.r.unsure('uv[name]: what is done to what %s gives' % want[0])


class DI(Interp):
    """looking a name up in vartable succeeds for variables and raises KeyError for others"""
    known = True

    def getitem(self, b, k, st, f, depth):
        if b == ('at', ('p', 'uv'), 'vartable') and not self.known:
            return self.raise_('KeyError', st)
        return Interp.getitem(self, b, k, st, f, depth)

    def cmp(self, op, a, b, st):
        vt = ('at', ('p', 'uv'), 'vartable')
        if op in ('In', 'NotIn') and (b == vt or b == ('call', ('at', vt, 'keys'), (), ()) or
                                      b[0] == 'call' and b[1][0] in ('bm', 'at') and b[1][2].split('.')[-1] == 'vars'):
            return C(self.known == (op == 'In'))
        return Interp.cmp(self, op, a, b, st)

    def meth(self, b, name, a, kws, st, f, depth, n):
        if b == ('at', ('p', 'uv'), 'vartable') and name == 'get' and a:
            return [(('it', b, a[0]) if self.known else a[1] if len(a) > 1 else C(None), st)]
        return Interp.meth(self, b, name, a, kws, st, f, depth, n)


def table():
    for n in ast.walk(py.project().mods['aipy.miriad'].tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'itemtable' for t in n.targets) and isinstance(n.value, ast.Dict):
            return {k.value: v.value for k, v in zip(n.value.keys, n.value.values) if isinstance(k, ast.Constant) and isinstance(v, ast.Constant)}
    return {}


def run(r):
    r.rule('Python layer: loops of _wrhd and _rdhd are summarised by induction variables; offset, type and element of each access follow per pass and are '
           'the same on both sides, over one period of every guard; what is returned is what was read, in order; uv[name] reads and sets the same thing.')
    tab = table()
    if not tab:
        r.unsure('the table of header items')
        return
    c = Check(r)
    for name, ty in sorted(tab.items()):
        kinds = ('seq',) if ty in ('a', '?') else ('seq', 'scalar')
        if len(ty) > 1:
            r.unsure('%s: an item of several types' % name)
            continue
        for kind in kinds:
            r.count('items')
            try:
                c.pair(name, ty, kind)
            except Wrong as e:
                c.bad(c.wr, 'order', '%s:%s' % (name, kind), 'a value written to %r is %s' % (name, e))
            except (Unknown, GaveUp, absint.Raised) as e:
                r.unsure('%s (%s): %s' % (name, kind, e))
    c.dispatch()
    r.floor('items', 20)
    r.floor('ways', 8)
