"""An abstract interpreter for Python functions over access paths.

Values are terms (tuples): a path from a parameter (self._phsoff[-2]), a constant, an operation on other terms, or a reference to an object made
by the code followed (dict, list).  Dictionaries a scenario supplies are closed: which keys they hold is known.  Nothing is executed: calls into
the project are followed in the same domain, all others stay symbolic.  A loop over a sequence whose elements are not known is followed for one
element that stands for any of them."""
import ast
import builtins

from sa import py

LIMIT = 4000


class GaveUp(Exception):
    pass


class St:
    __slots__ = ('frames', 'heap', 'over', 'conds', 'eff', 'idx')

    def __init__(self):
        self.frames, self.heap, self.over, self.conds, self.eff, self.idx = [{}], {}, {}, {}, [], ()

    def copy(self):
        s = St()
        s.frames = [dict(f) for f in self.frames]
        s.heap = {k: (v[0], dict(v[1]) if isinstance(v[1], dict) else list(v[1]), v[2]) for k, v in self.heap.items()}
        s.over, s.conds, s.eff, s.idx = dict(self.over), dict(self.conds), list(self.eff), self.idx
        return s

    @property
    def env(self):
        return self.frames[-1]


def C(v):
    return ('c', v)


def isc(t, *types):
    return isinstance(t, tuple) and t[:1] == ('c',) and (not types or isinstance(t[1], types))


NUM = (int,)


def lin_of(t):
    """(dict term->coef, const) of an integer-like term"""
    if isc(t) and isinstance(t[1], int) and not isinstance(t[1], bool):
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if len(d) == 1 and c == 0:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=repr)), c)


def intlike(t):
    return (isc(t, int) and not isinstance(t[1], bool)) or t[0] in ('lin', 'idx', 'len', 'int', 'trunc')


def fmt(parts):
    out = []
    for p in parts:
        if isc(p, str):
            p = p[1]
        elif not isinstance(p, str) and p[0] == 'fmt':
            for q in p[1]:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if p == '':
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return C('')
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    return ('fmt', tuple(out))


def strparts(t):
    if isc(t, str):
        return (t[1],) if t[1] else ()
    if t[0] == 'fmt':
        return t[1]
    return (t,)


def differ(a, b):
    """True when two key terms are certainly different, False when the same, None when it is not known"""
    if a == b:
        return False
    if isc(a) and isc(b):
        return a[1] != b[1]
    pa, pb = strparts(a), strparts(b)
    if (a[0] == 'fmt' or b[0] == 'fmt') and pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str) and not (x.startswith(y) or y.startswith(x)):
            return True
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str) and not (x.endswith(y) or y.endswith(x)):
            return True
        if isc(a, str) and isinstance(pb[0], str) and not a[1].startswith(pb[0]):
            return True
        if isc(b, str) and isinstance(pa[0], str) and not b[1].startswith(pa[0]):
            return True
        if a[0] == 'fmt' and b[0] == 'fmt' and pa[-1] == pb[-1] and pa[:-1] != pb[:-1] and \
                all(isinstance(x, str) for x in pa[:-1] + pb[:-1]):
            return True
    return None


def subterm(t, s):
    """s occurs in t"""
    if t == s:
        return True
    if isinstance(t, tuple):
        return any(subterm(x, s) for x in t if isinstance(x, tuple))
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


class Out:
    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st


class Interp:
    """types: term -> Class for parameters whose class is given; stop(func) -> True keeps a call to func symbolic"""

    def __init__(self, types=None, stop=None, kinds=None, given=()):
        self.pr = py.project()
        self.types = dict(types or {})
        self.stop = stop or (lambda f: False)
        self.kinds = kinds or {}
        self.given = given          # values that are known not to be None
        self.n = 0
        self.steps = 0
        self.vague = []
        self.twice = False          # follow a loop over an unknown sequence for two elements, not one

    # ------------------------------------------------------------ objects
    def new(self, st, kind, content, closed=True):
        self.n += 1
        st.heap[self.n] = (kind, content, closed)
        return ('ref', self.n)

    def heap(self, st, t):
        return st.heap.get(t[1]) if t[0] == 'ref' else None

    def freeze(self, st, t, depth=0):
        """a term without references, for comparing results"""
        if not isinstance(t, tuple) or depth > 12:
            return t
        if t and t[0] == 'ref':
            h = st.heap[t[1]]
            if h[0] == 'dict':
                return ('dict', tuple(sorted(((self.freeze(st, k, depth + 1), self.freeze(st, v, depth + 1)) for k, v in h[1].items()), key=repr)))
            return (h[0], tuple(self.freeze(st, v, depth + 1) for v in h[1]))
        return tuple(self.freeze(st, x, depth + 1) if isinstance(x, tuple) else x for x in t)

    # ------------------------------------------------------------ running
    def call_func(self, f, args, kws, st, depth=0):
        """follow a project function: list of Out"""
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > len(pos):
            if not a.vararg:
                raise GaveUp('too many arguments for %s' % f.qual)
            env[a.vararg.arg] = self.new(st, 'list', list(args[len(pos):]))
        elif a.vararg:
            env[a.vararg.arg] = self.new(st, 'list', [])
        extra = {}
        for k, v in kws:
            if k is None:
                raise GaveUp('** call of %s' % f.qual)
            if k in pos or k in f.kwonly:
                env[k] = v
            else:
                extra[C(k)] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, 'dict', extra)
        todo = [(st, env)]
        for n in pos + f.kwonly:
            nxt = []
            for s, e in todo:
                if n in e:
                    nxt.append((s, e))
                    continue
                if n not in f.defaults:
                    e = dict(e)
                    e[n] = ('p', '%s.%s' % (f.qual, n))
                    nxt.append((s, e))
                    continue
                s.frames.append({'#mod': f.mod})
                for v, s2 in self.ev(f.defaults[n], s, f, depth + 1):
                    s2.frames.pop()
                    e2 = dict(e)
                    e2[n] = v
                    nxt.append((s2, e2))
            todo = nxt
        outs = []
        for s, e in todo:
            s.frames.append(e)
            for kind, val, s2 in self.block(f.node.body, s, f, depth + 1):
                s2.frames.pop()
                if kind == 'next':
                    kind, val = 'return', C(None)
                outs.append(Out(kind, val, s2))
        return outs

    def block(self, stmts, st, f, depth):
        """list of (kind, value, state); kind: next return raise break continue"""
        live = [st]
        done = []
        for n in stmts:
            nxt = []
            for s in live:
                self.steps += 1
                if self.steps > 60000:
                    raise GaveUp('too much to follow')
                for kind, val, s2 in self.stmt(n, s, f, depth):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        done.append((kind, val, s2))
            live = nxt
            if len(live) + len(done) > LIMIT:
                raise GaveUp('too many paths')
            if not live:
                break
        return done + [('next', None, s) for s in live]

    def exprs(self, nodes, st, f, depth):
        """evaluate several: list of (list of terms, state) and raising ones as (exception term, state) in .exc"""
        todo = [([], st)]
        for n in nodes:
            nxt = []
            for vs, s in todo:
                if vs and vs[-1] == 'EXC':
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.ev(n, s, f, depth):
                    nxt.append((vs + [v], s2))
            todo = nxt
        return todo

    def stmt(self, n, st, f, depth):
        try:
            return self.stmt1(n, st, f, depth)
        except Raised as e:
            return [('raise', e.what, e.st)]

    def stmt1(self, n, st, f, depth):
        if isinstance(n, ast.Expr):
            return self.wrap(self.ev(n.value, st, f, depth), lambda v, s: [('next', None, s)])
        if isinstance(n, ast.Assign):
            def fin(v, s):
                res = [s]
                for t in n.targets:
                    res = [s3 for s2 in res for s3 in self.assign(t, v, s2, f, depth)]
                return [('next', None, s) for s in res]
            return self.wrap(self.ev(n.value, st, f, depth), fin)
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [('next', None, st)]
            return self.wrap(self.ev(n.value, st, f, depth), lambda v, s: [('next', None, x) for x in self.assign(n.target, v, s, f, depth)])
        if isinstance(n, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)

            def fin(v, s):
                out = []
                for w, s2 in self.ev(load, s, f, depth):
                    if w == 'EXC':
                        out.append(('raise', s2.conds.pop('#exc', '?'), s2))
                        continue
                    h = self.heap(s2, w)
                    if h and h[0] == 'list' and isinstance(n.op, ast.Add):
                        for it, s3 in self.items(v, s2, f, depth):
                            s3.heap[w[1]][1].extend(it)
                            out.append(('next', None, s3))
                        continue
                    r = self.binop(type(n.op).__name__, w, v)
                    s2.eff.append(('aug', w, v, n.lineno, f.qual))
                    for s3 in self.assign(n.target, r, s2, f, depth):
                        out.append(('next', None, s3))
                return out
            return self.wrap(self.ev(n.value, st, f, depth), fin)
        if isinstance(n, ast.Return):
            if n.value is None:
                return [('return', C(None), st)]
            return self.wrap(self.ev(n.value, st, f, depth), lambda v, s: [('return', v, s)])
        if isinstance(n, ast.If):
            out = []
            for b, s in self.test(n.test, st, f, depth):
                if b == 'EXC':
                    out.append(('raise', s.conds.pop('#exc', '?'), s))
                else:
                    out += self.block(n.body if b else n.orelse, s, f, depth)
            return out
        if isinstance(n, ast.Assert):
            out = []
            for b, s in self.test(n.test, st, f, depth):
                if b == 'EXC' or not b:
                    out.append(('raise', 'AssertionError', s))
                else:
                    out.append(('next', None, s))
            return out
        if isinstance(n, ast.For):
            return self.loop(n, st, f, depth)
        if isinstance(n, ast.While):
            out = []
            for b, s in self.test(n.test, st, f, depth):
                if b == 'EXC':
                    out.append(('raise', '?', s))
                elif not b:
                    out.append(('next', None, s))
                else:
                    self.vague.append('while loop in %s' % f.qual)
                    for k, v, s2 in self.block(n.body, s, f, depth):
                        out.append(('next', None, s2) if k in ('next', 'break', 'continue') else (k, v, s2))
            return out
        if isinstance(n, ast.Try):
            out = []
            for k, v, s in self.block(n.body, st, f, depth):
                if k == 'raise':
                    for h in n.handlers:
                        names = self.handler_names(h)
                        if names is None or v in names or 'Exception' in names or 'LookupError' in names and v in ('KeyError', 'IndexError'):
                            if h.name:
                                s.env[h.name] = ('exc', v)
                            out += self.block(h.body, s, f, depth)
                            break
                    else:
                        out.append((k, v, s))
                elif k == 'next' and n.orelse:
                    out += self.block(n.orelse, s, f, depth)
                else:
                    out.append((k, v, s))
            if n.finalbody:
                fin = []
                for k, v, s in out:
                    for k2, v2, s2 in self.block(n.finalbody, s, f, depth):
                        fin.append((k, v, s2) if k2 == 'next' else (k2, v2, s2))
                out = fin
            return out
        if isinstance(n, ast.Raise):
            what = '?'
            if n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                what = py.dotted(e) or '?'
            return [('raise', what, st)]
        if isinstance(n, ast.Pass) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [('next', None, st)]
        if isinstance(n, ast.Break):
            return [('break', None, st)]
        if isinstance(n, ast.Continue):
            return [('continue', None, st)]
        if isinstance(n, ast.Delete):
            return self.delete(n, st, f, depth)
        if isinstance(n, ast.FunctionDef):
            st.env[n.name] = ('closure', f.qual + '.' + n.name)
            return [('next', None, st)]
        if isinstance(n, ast.With):
            out = [('next', None, st)]
            for item in n.items:
                nxt = []
                for _, _, s in out:
                    for v, s2 in self.ev(item.context_expr, s, f, depth):
                        if v == 'EXC':
                            nxt.append(('raise', '?', s2))
                            continue
                        res = self.assign(item.optional_vars, ('call', ('enter',), (v,), ()), s2, f, depth) if item.optional_vars else [s2]
                        nxt += [('next', None, x) for x in res]
                out = nxt
            return [y for k, v, s in out for y in (self.block(n.body, s, f, depth) if k == 'next' else [(k, v, s)])]
        self.vague.append('%s in %s' % (type(n).__name__, f.qual))
        return [('next', None, st)]

    def wrap(self, res, fin):
        out = []
        for v, s in res:
            if v == 'EXC':
                out.append(('raise', s.conds.pop('#exc', '?'), s))
            else:
                out += fin(v, s)
        return out

    def delete(self, n, st, f, depth):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript):
                    for (b, k), s2 in self.exprs([t.value, t.slice], s, f, depth):
                        h = self.heap(s2, b)
                        if h and h[0] == 'dict':
                            h[1].pop(k, None)
                        s2.eff.append(('del', b, k, n.lineno, f.qual))
                        nxt.append(s2)
                else:
                    if isinstance(t, ast.Name):
                        s.env.pop(t.id, None)
                    nxt.append(s)
            states = nxt
        return [('next', None, s) for s in states]

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {(py.dotted(t) or '?').split('.')[-1] for t in ts}

    # ------------------------------------------------------------ loops
    def items(self, t, st, f, depth):
        """list of (list of element terms, state) for iterating over t; an abstract sequence gives one element"""
        h = self.heap(st, t)
        if h:
            if h[0] == 'dict':
                return [(list(h[1]), st)]
            return [(list(h[1]), st)]
        if t[0] == 'tup':
            return [(list(t[1]), st)]
        if isc(t, str):
            return [([C(x) for x in t[1]], st)]
        if isc(t) or intlike(t) or self.kinds.get(t) == 'scalar':
            raise Raised('TypeError', st)
        if t[0] == 'mapped':            # ('mapped', seqterm, element)
            return [([t[2]], st)]
        if t[0] == 'seg':
            return [([('segel', t)], st)]
        cls = self.types.get(t)
        m = self.pr.method(cls, '__iter__') if cls else None
        if m and depth < 12:
            out = []
            for o in self.call_func(m, [t], (), st, depth):
                if o.kind == 'return':
                    out += self.items(o.value, o.st, f, depth)
            return out
        return [([self.element(t, st)], st)]

    def concrete(self, st, t):
        return t[0] in ('ref', 'tup') or isc(t, str)

    def element(self, t, st):
        if t[0] == 'iter':
            return self.element(t[1], st)
        if self.kinds.get(t) == 'seq':
            return ('seg', t)
        return ('it', t, self.index(t, st))

    def index(self, t, st):
        i = ('idx', t)
        k = 0
        while i in st.idx:
            k += 1
            i = ('idx', t, k)
        return i

    def loop(self, n, st, f, depth):
        out = []
        for v, s in self.ev(n.iter, st, f, depth):
            if v == 'EXC':
                out.append(('raise', s.conds.pop('#exc', '?'), s))
                continue
            for els, s1 in self.items(v, s, f, depth):
                live = [s1]
                if self.twice and len(els) == 1 and not self.concrete(s1, v):
                    els = [els[0], subst(els[0], {x: ('idx', x[1], 'next') for x in self.indices(els[0])})]
                for e in els:
                    nxt = []
                    for s2 in live:
                        old = s2.idx
                        ix = {x for x in self.indices(e)} - set(old)
                        s2.idx = old + tuple(ix)
                        for s3 in self.assign(n.target, e, s2, f, depth):
                            for k, val, s4 in self.block(n.body, s3, f, depth):
                                s4.idx = old
                                if k in ('next', 'continue'):
                                    nxt.append(s4)
                                elif k == 'break':
                                    out.append(('next', None, s4))
                                else:
                                    out.append((k, val, s4))
                    live = nxt
                for s2 in live:
                    if n.orelse:
                        out += self.block(n.orelse, s2, f, depth)
                    else:
                        out.append(('next', None, s2))
        return out

    def indices(self, t):
        if isinstance(t, tuple):
            if t and t[0] == 'idx':
                yield t
            for x in t:
                if isinstance(x, tuple):
                    yield from self.indices(x)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, f, depth):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            h = self.heap(st, v)
            if v[0] == 'tup':
                vs = list(v[1])
            elif h and h[0] == 'list':
                vs = list(h[1])
            else:
                vs = [self.item(v, C(i), st) for i in range(len(t.elts))]
            if len(vs) != len(t.elts):
                self.vague.append('unpacking in %s' % f.qual)
                vs = [self.item(v, C(i), st) for i in range(len(t.elts))]
            states = [st]
            for x, y in zip(t.elts, vs):
                states = [s2 for s in states for s2 in self.assign(x, y, s, f, depth)]
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, ('rest', v), st, f, depth)
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st, f, depth):
                if b == 'EXC':
                    raise Raised(s.conds.pop('#exc', '?'), s)
                self.store_attr(b, t.attr, v, s, t.lineno, f)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for vs, s in self.exprs([t.value, t.slice], st, f, depth):
                if vs[-1] == 'EXC':
                    raise Raised(s.conds.pop('#exc', '?'), s)
                b, k = vs
                h = self.heap(s, b)
                if h and h[0] == 'dict':
                    h[1][k] = v
                elif h and h[0] == 'list' and isc(k, int) and -len(h[1]) <= k[1] < len(h[1]):
                    h[1][k[1]] = v
                else:
                    loc = self.loc(('it', b, k))
                    s.over[loc] = v
                s.eff.append(('store', self.loc(('it', b, k)), v, t.lineno, f.qual))
                out.append(s)
            return out
        self.vague.append('target %s in %s' % (type(t).__name__, f.qual))
        return [st]

    def store_attr(self, b, name, v, st, line, f):
        loc = ('at', b, name)
        # elements of what was there before are gone
        for k in [k for k in st.over if k != loc and subterm(k, loc)]:
            del st.over[k]
        st.over[loc] = v
        st.eff.append(('store', loc, v, line, f.qual))

    def loc(self, t):
        """index from the front where the length says so"""
        if t[0] == 'it':
            b, k = t[1], t[2]
            d, c = lin_of(k)
            ln = ('len', b)
            if d.get(ln) in (1, -1):
                # -len(b)+x is element x; len(b)-n is element -n
                d = dict(d)
                d[ln] = 0
                return ('it', b, mk_lin(d, c))
        return t

    # ------------------------------------------------------------ expressions
    def test(self, n, st, f, depth):
        """list of (truth, state)"""
        if isinstance(n, ast.BoolOp):
            todo = [(None, st)]
            done = []
            for v in n.values:
                nxt = []
                for _, s in todo:
                    for b, s2 in self.test(v, s, f, depth):
                        if b == 'EXC' or b != isinstance(n.op, ast.And):
                            done.append((b, s2))
                        else:
                            nxt.append((b, s2))
                todo = nxt
            return done + todo
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(b if b == 'EXC' else not b, s) for b, s in self.test(n.operand, st, f, depth)]
        out = []
        for v, s in self.ev(n, st, f, depth):
            if v == 'EXC':
                out.append(('EXC', s))
            else:
                out += self.truth(v, s)
        return out

    def truth(self, v, st):
        if isc(v):
            return [(bool(v[1]), st)]
        h = self.heap(st, v)
        if h and h[2]:
            return [(bool(h[1]), st)]
        if v[0] == 'tup':
            return [(bool(v[1]), st)]
        if v[0] in ('fmt', 'bm', 'fn', 'cls', 'mod'):
            return [(True, st)]
        if v[0] == 'op' and v[1] == 'BitOr':
            out = []
            for b, s in self.truth(v[2], st):
                if b:
                    out.append((True, s))
                else:
                    out += self.truth(v[3], s)
            return out
        if v[0] == 'call' and v[1] == ('ext', 'bool') and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        if v[0] == 'un' and v[1] == 'Not':
            return [(not b, s) for b, s in self.truth(v[2], st)]
        if v in st.conds:
            return [(st.conds[v], st)]
        neg = {'Eq': 'NotEq', 'NotEq': 'Eq', 'In': 'NotIn', 'NotIn': 'In', 'Is': 'IsNot', 'IsNot': 'Is',
               'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE', 'LtE': 'Gt'}
        if v[0] == 'cmp':
            w = ('cmp', neg[v[1]], v[2], v[3])
            if w in st.conds:
                return [(not st.conds[w], st)]
        s2 = st.copy()
        st.conds[v] = True
        s2.conds[v] = False
        return [(True, st), (False, s2)]

    def raise_(self, what, st):
        st.conds['#exc'] = what
        return [('EXC', st)]

    def ev(self, n, st, f, depth):
        """list of (term, state); a raising outcome is ('EXC', state) with the exception name in state.conds['#exc']"""
        if isinstance(n, ast.Constant):
            return [(C(n.value), st)]
        if isinstance(n, ast.Name):
            return [(self.name(n, st, f), st)]
        if isinstance(n, ast.Attribute):
            r = self.pr.resolve(f.mod, n) if py.dotted(n) and py.dotted(n).split('.')[0] not in st.env else None
            if r is not None:
                return [(self.wrap_global(r), st)]
            return self.bind(self.ev(n.value, st, f, depth), lambda b, s: self.attr(b, n.attr, s, f, depth))
        if isinstance(n, ast.Subscript):
            out = []
            for vs, s in self.exprs([n.value, n.slice], st, f, depth):
                if vs[-1] == 'EXC':
                    out.append(('EXC', s))
                else:
                    out += self.getitem(vs[0], vs[1], s, f, depth)
            return out
        if isinstance(n, ast.Slice):
            parts = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
            return [(('sl',) + tuple(vs) if vs[-1] != 'EXC' else 'EXC', s) for vs, s in self.exprs(parts, st, f, depth)]
        if isinstance(n, (ast.Tuple,)):
            return [(('tup', tuple(vs)) if not vs or vs[-1] != 'EXC' else 'EXC', s) for vs, s in self.exprs(n.elts, st, f, depth)]
        if isinstance(n, (ast.List, ast.Set)):
            return [(self.new(s, 'list', vs) if not vs or vs[-1] != 'EXC' else 'EXC', s) for vs, s in self.exprs(n.elts, st, f, depth)]
        if isinstance(n, ast.Dict):
            if any(k is None for k in n.keys):
                return self.dict_star(n, st, f, depth)
            out = []
            for vs, s in self.exprs(n.keys + n.values, st, f, depth):
                if vs and vs[-1] == 'EXC':
                    out.append(('EXC', s))
                    continue
                k = len(n.keys)
                out.append((self.new(s, 'dict', dict(zip(vs[:k], vs[k:]))), s))
            return out
        if isinstance(n, ast.BinOp):
            op = type(n.op).__name__
            out = []
            for vs, s in self.exprs([n.left, n.right], st, f, depth):
                if vs[-1] == 'EXC':
                    out.append(('EXC', s))
                    continue
                a, b = vs
                if op == 'Mod' and (isc(a, str)):
                    out.append((self.percent(a[1], b, s), s))
                    continue
                ha, hb = self.heap(s, a), self.heap(s, b)
                if op == 'Add' and ha and hb and ha[0] == hb[0] == 'list':
                    out.append((self.new(s, 'list', ha[1] + hb[1]), s))
                    continue
                out.append((self.binop(op, a, b), s))
            return out
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return [(C(b) if b != 'EXC' else b, s) for b, s in self.test(n, st, f, depth)]
            return self.bind(self.ev(n.operand, st, f, depth), lambda v, s: [(self.unop(type(n.op).__name__, v), s)])
        if isinstance(n, ast.BoolOp):
            return self.boolop(n, st, f, depth)
        if isinstance(n, ast.Compare):
            return self.compare(n, st, f, depth)
        if isinstance(n, ast.IfExp):
            out = []
            for b, s in self.test(n.test, st, f, depth):
                out += [('EXC', s)] if b == 'EXC' else self.ev(n.body if b else n.orelse, s, f, depth)
            return out
        if isinstance(n, ast.Call):
            return self.call(n, st, f, depth)
        if isinstance(n, ast.JoinedStr):
            todo = [([], st)]
            for x in n.values:
                nxt = []
                for ps, s in todo:
                    if isinstance(x, ast.Constant):
                        nxt.append((ps + [x.value], s))
                    else:
                        for v, s2 in self.ev(x.value, s, f, depth):
                            nxt.append((ps + [self.strof(v)], s2))
                todo = nxt
            return [(fmt(ps), s) for ps, s in todo]
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comp(n, st, f, depth)
        if isinstance(n, ast.Lambda):
            return [(('lambda', ast.unparse(n)), st)]
        if isinstance(n, ast.Starred):
            return self.ev(n.value, st, f, depth)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            out = []
            for v, s in self.ev(n.value, st, f, depth) if n.value is not None else [(C(None), st)]:
                if v != 'EXC':
                    s.eff.append(('yield' if isinstance(n, ast.Yield) else 'yieldfrom', v, n.lineno, f.qual))
                    v = ('sent', n.lineno)
                out.append((v, s))
            return out
        self.vague.append('%s in %s' % (type(n).__name__, f.qual))
        return [(('?', ast.dump(n)), st)]

    def dict_star(self, n, st, f, depth):
        todo = [({}, st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for d, s in todo:
                for vs, s2 in self.exprs(([k] if k is not None else []) + [v], s, f, depth):
                    if vs[-1] == 'EXC':
                        continue
                    d2 = dict(d)
                    if k is not None:
                        d2[vs[0]] = vs[1]
                    else:
                        h = self.heap(s2, vs[0])
                        if h and h[0] == 'dict':
                            d2.update(h[1])
                        else:
                            d2[('all', vs[0])] = vs[0]
                    nxt.append((d2, s2))
            todo = nxt
        return [(self.new(s, 'dict', d), s) for d, s in todo]

    def bind(self, res, fn):
        out = []
        for v, s in res:
            out += [('EXC', s)] if v == 'EXC' else fn(v, s)
        return out

    def name(self, n, st, f):
        if n.id in st.env:
            return st.env[n.id]
        for fr in reversed(st.frames[:-1]):
            if f.outer is not None and n.id in fr and '#mod' not in fr:
                return fr[n.id]
        r = self.pr.resolve(f.mod, n)
        if r is None:
            return ('g', f.mod.name, n.id)
        return self.wrap_global(r)

    def wrap_global(self, r):
        if isinstance(r, py.Func):
            return ('fn', r.qual)
        if isinstance(r, py.Class):
            return ('cls', r.qual)
        if isinstance(r, py.Module):
            return ('mod', r.name)
        if r[0] == 'global':
            return ('g', r[1].name, r[2])
        return ('ext', r[1])

    def cls_of(self, q):
        m, c = q.rsplit('.', 1)
        mod = self.pr.mods.get(m) or self.pr.scripts.get(m)
        return mod.classes.get(c) if mod else None

    def attr(self, b, name, st, f, depth):
        loc = ('at', b, name)
        if loc in st.over:
            return [(st.over[loc], st)]
        cls = self.types.get(b)
        if cls:
            m = self.pr.method(cls, name)
            if m:
                if m.prop:
                    return [(o.value if o.kind == 'return' else 'EXC', o.st) for o in self.call_func(m, [b], (), st, depth)]
                return [(('bm', b, m.qual), st)]
        if b[0] == 'super':
            for k in self.pr.mro(b[2])[1:]:
                if name in k.methods:
                    return [(('bm', b[1], k.methods[name].qual), st)]
            return [(('at', b, name), st)]
        if b[0] == 'cls':
            c = self.cls_of(b[1])
            m = self.pr.method(c, name) if c else None
            if m:
                return [(('fn', m.qual), st)]
        if name in ('real', 'imag'):
            r = self.part(b, name)
            if r is not None:
                return [(r, st)]
        return [(loc, st)]

    def part(self, t, which):
        """real or imaginary part of a + b*1j"""
        if t[0] == 'op' and t[1] in ('Add', 'Sub'):
            for x, y, flip in ((t[2], t[3], t[1] == 'Sub'), (t[3], t[2], False)):
                im = self.imag_of(y)
                if im is not None and self.imag_of(x) is None and not (flip and which == 'imag'):
                    return x if which == 'real' else im
        return None

    def imag_of(self, t):
        if t[0] == 'op' and t[1] == 'Mult':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if isc(y, complex) and y[1] == 1j:
                    return x
        return None

    def item(self, b, k, st):
        loc = self.loc(('it', b, k))
        if loc in st.over:
            return st.over[loc]
        h = self.heap(st, b)
        if h and h[0] == 'list' and isc(k, int) and -len(h[1]) <= k[1] < len(h[1]) and not any(x[0] == 'seg' for x in h[1]):
            return h[1][k[1]]
        if b[0] == 'tup' and isc(k, int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        if b[0] == 'mapped':
            ix = [x for x in self.indices(b[2])]
            if ix:
                return subst(b[2], {ix[0]: k})
        return loc

    def seglen(self, items):
        d, c = {}, 0
        for x in items:
            if x[0] == 'seg':
                d[('len', x[1])] = d.get(('len', x[1]), 0) + 1
            else:
                c += 1
        return mk_lin(d, c)

    def getitem(self, b, k, st, f, depth):
        h = self.heap(st, b)
        if h and h[0] == 'dict':
            if k in h[1]:
                st.eff.append(('lookup', b, k))
                return [(h[1][k], st)]
            if h[2]:
                st.eff.append(('lookup', b, k))
                maybe = [x for x in h[1] if differ(x, k) is None]
                if maybe:
                    self.vague.append('key %s' % (k,))
                return self.raise_('KeyError', st)
        if h and h[0] == 'list' and any(x[0] == 'seg' for x in h[1]):
            return [(self.seg_get(h[1], k, st), st)]
        if h and h[0] == 'list' and k[0] == 'sl' and all(x == C(None) or isc(x, int) for x in k[1:]):
            s = slice(*[x[1] for x in k[1:]])
            return [(self.new(st, 'list', h[1][s]), st)]
        if isc(b, str) and (isc(k, int) or k[0] == 'sl' and all(isc(x) for x in k[1:])):
            try:
                return [(C(b[1][k[1] if isc(k) else slice(*[x[1] for x in k[1:]])]), st)]
            except IndexError:
                return self.raise_('IndexError', st)
        if b[0] == 'fmt' and k[0] == 'sl' and isc(k[1], int) and k[2] == C(None) and k[3] == C(None) and k[1][1] >= 0:
            p = b[1]
            if isinstance(p[0], str) and len(p[0]) >= k[1][1]:
                return [(fmt([p[0][k[1][1]:]] + list(p[1:])), st)]
        if k[0] == 'sl' and k[1:] == (C(None), C(None), C(-1)) and b[0] in ('at', 'it', 'p'):
            return [(('mapped', b, ('it', b, mk_lin({('idx', b): -1}, -1))), st)]
        if b[0] == 'fmt' and k[0] == 'sl' and isc(k[1], int) and isc(k[2], int) and k[3] == C(None) and len(b[1]) == 2 and \
                isinstance(b[1][0], str) and len(b[1][0]) == k[1][1] < k[2][1] and b[1][1][0] == 'str':
            return [(('fmt', (('str', ('trunc', b[1][1][1], k[2][1] - k[1][1])),)), st)]
        if b[0] == 'fmt' and k[0] == 'sl' and k[1] in (C(None), C(0)) and isc(k[2], int) and k[3] == C(None):
            p = b[1]
            if isinstance(p[0], str) and len(p[0]) >= k[2][1] >= 0:
                return [(C(p[0][:k[2][1]]), st)]
        if b[0] == 'fmt' and isc(k, int) and isinstance(b[1][0], str) and 0 <= k[1] < len(b[1][0]):
            return [(C(b[1][0][k[1]]), st)]
        if b[0] == 'fmt' and isc(k, int) and len(b[1]) == 2 and isinstance(b[1][0], str) and len(b[1][0]) == k[1] and b[1][1][0] == 'str':
            return [(('fmt', (('str', ('trunc', b[1][1][1], 1)),)), st)]
        cls = self.types.get(b)
        m = self.pr.method(cls, '__getitem__') if cls else None
        if m and depth < 12 and not self.stop(m):
            return [(o.value if o.kind == 'return' else 'EXC', o.st) for o in self.call_func(m, [b, k], (), st, depth)]
        return [(self.item(b, k, st), st)]

    def seg_get(self, items, k, st):
        """element or slice of a list made of single values and whole sequences of unknown length"""
        cuts = [self.seglen(items[:i]) for i in range(len(items) + 1)]
        if k[0] == 'sl' and k[3] in (C(None), C(1)):
            lo = C(0) if k[1] == C(None) else k[1]
            hi = cuts[-1] if k[2] == C(None) else k[2]
            if lo in cuts and hi in cuts:
                i, j = cuts.index(lo), len(cuts) - 1 - cuts[::-1].index(hi)
                part = items[i:j]
                if len(part) == 1 and part[0][0] == 'seg':
                    return part[0][1]
                return self.new(st, 'list', part)
        elif k in cuts[:-1]:
            x = items[cuts.index(k)]
            return ('it', x[1], C(0)) if x[0] == 'seg' else x
        return ('it', ('tup', tuple(items)), k)

    def strof(self, v):
        if isc(v):
            return str(v[1])
        if v[0] == 'fmt':
            return v
        return ('str', v) if v[0] != 'str' else v

    def percent(self, text, b, st):
        args = list(b[1]) if b[0] == 'tup' else [b]
        parts = []
        i = 0
        rest = text
        while '%' in rest:
            p, rest = rest.split('%', 1)
            parts.append(p)
            if rest[:1] == '%':
                parts.append('%')
                rest = rest[1:]
                continue
            if rest[:1] in ('d', 's', 'i') and i < len(args):
                parts.append(self.strof(args[i]))
                i += 1
                rest = rest[1:]
            else:
                return ('op', 'Mod', C(text), b)
        return fmt(parts + [rest])

    def binop(self, op, a, b):
        if isc(a) and isc(b):
            try:
                x, y = a[1], b[1]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                     'Div': lambda: x / y, 'Pow': lambda: x ** y if abs(y) < 64 else None, 'BitOr': lambda: x | y, 'BitAnd': lambda: x & y}.get(op)
                if r is not None:
                    v = r()
                    if v is not None:
                        return C(v)
            except Exception:
                pass
        if op == 'Add' and (isc(a, str) or isc(b, str) or a[0] == 'fmt' or b[0] == 'fmt'):
            return fmt([a if a[0] in ('c', 'fmt', 'str') else ('str', a), b if b[0] in ('c', 'fmt', 'str') else ('str', b)])
        if op in ('Add', 'Sub') and (intlike(a) or intlike(b)) and not isc(a, float, complex) and not isc(b, float, complex):
            d, c = lin_of(a)
            e, g = lin_of(b)
            s = 1 if op == 'Add' else -1
            for k, v in e.items():
                d[k] = d.get(k, 0) + s * v
            return mk_lin(d, c + s * g)
        return ('op', op, a, b)

    def unop(self, op, v):
        if op == 'USub':
            if isc(v, int, float, complex):
                return C(-v[1])
            if intlike(v):
                d, c = lin_of(v)
                return mk_lin({k: -x for k, x in d.items()}, -c)
        if op == 'Not' and isc(v):
            return C(not v[1])
        return ('un', op, v)

    def boolop(self, n, st, f, depth):
        todo = [(None, st)]
        done = []
        for i, x in enumerate(n.values):
            nxt = []
            for _, s in todo:
                for v, s2 in self.ev(x, s, f, depth):
                    if v == 'EXC' or i == len(n.values) - 1:
                        done.append((v, s2))
                        continue
                    for b, s3 in self.truth(v, s2):
                        if b == isinstance(n.op, ast.And):
                            nxt.append((v, s3))
                        else:
                            done.append((v if not isinstance(n.op, ast.And) or isc(v) else C(False), s3))
            todo = nxt
        return done

    def compare(self, n, st, f, depth):
        out = []
        for vs, s in self.exprs([n.left] + n.comparators, st, f, depth):
            if vs[-1] == 'EXC':
                out.append(('EXC', s))
                continue
            if len(n.ops) > 1:
                out.append((('cmpchain', ast.unparse(n), tuple(vs)), s))
                continue
            op = type(n.ops[0]).__name__
            out.append((self.cmp(op, vs[0], vs[1], s), s))
        return out

    def cmp(self, op, a, b, st):
        if op in ('In', 'NotIn'):
            while b[0] == 'call' and b[1][0] == 'ext' and b[1][1].split('.')[-1] in ('set', 'frozenset', 'list', 'tuple', 'sorted') and len(b[2]) == 1 and not b[3]:
                b = b[2][0]
            if b[0] == 'call' and b[1][0] == 'at' and b[1][2] == 'keys' and not b[2]:
                b = b[1][1]
            h = self.heap(st, b)
            if h and h[2] and not any(x[0] == 'seg' for x in h[1]):
                st.eff.append(('lookup', b, a))
                ds = [differ(x, a) for x in h[1]]
                if False in ds:
                    return C(op == 'In')
                if all(ds):
                    return C(op != 'In')
            if b[0] == 'tup':
                ds = [differ(x, a) for x in b[1]]
                if False in ds:
                    return C(op == 'In')
                if all(ds):
                    return C(op != 'In')
            if a[0] == 'it' and a[1] == b and a[2][:2] == ('idx', b):
                return C(op == 'In')
            if isc(a, str) and isc(b, str):
                return C((a[1] in b[1]) == (op == 'In'))
        if op in ('Eq', 'NotEq'):
            d = differ(a, b)
            if d is not None:
                return C(d == (op == 'NotEq'))
        if op in ('Is', 'IsNot'):
            if a == b:
                return C(op == 'Is')
            if C(None) in (a, b):
                o = b if a == C(None) else a
                if isc(o) or o[0] in ('len', 'ref', 'tup', 'fmt', 'bm', 'fn', 'cls', 'mod', 'mapped', 'lin', 'idx'):
                    return C(op == 'IsNot')
                if o in self.given:
                    return C(op == 'IsNot')
        if op in ('Eq', 'NotEq', 'Is', 'IsNot') and a[0] == 'type' or b[0] == 'type':
            ta, tb = self.typeval(a), self.typeval(b)
            if ta and tb:
                return C((ta == tb) == (op in ('Eq', 'Is')))
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            d = self.sign(a, b)
            if d is not None:
                lo, hi = d
                if op in ('Lt', 'GtE') and (hi < 0 or lo >= 0):
                    return C((hi < 0) == (op == 'Lt'))
                if op in ('Gt', 'LtE') and (lo > 0 or hi <= 0):
                    return C((lo > 0) == (op == 'Gt'))
        if op in ('Lt', 'LtE', 'Gt', 'GtE') and isc(a) and isc(b):
            try:
                return C({'Lt': a[1] < b[1], 'LtE': a[1] <= b[1], 'Gt': a[1] > b[1], 'GtE': a[1] >= b[1]}[op])
            except TypeError:
                pass
        return ('cmp', op, a, b)

    def sign(self, a, b):
        """bounds of a - b for lengths and indices: 0 <= index < length"""
        d, c = lin_of(a)
        e, g = lin_of(b)
        for k, v in e.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        c -= g
        inf = float('inf')
        if any(k[0] not in ('len', 'idx') for k in d):
            return None
        lo = hi = c
        for k in [k for k in d if k[0] == 'idx']:
            v = d.pop(k)
            ln = ('len', k[1])
            w = d.get(ln, 0)
            m = min(abs(v), abs(w)) if v * w < 0 else 0
            # v*(index - length): index - length lies in [-length, -1]
            if m:
                d[ln] = w + (m if v > 0 else -m)
                if v > 0:
                    hi -= m
                    lo = -inf
                else:
                    lo += m
                    hi = inf
                v = v - m if v > 0 else v + m
            if v > 0:
                hi = inf
            elif v < 0:
                lo = -inf
        for k, v in d.items():
            if v > 0:
                hi = inf
            elif v < 0:
                lo = -inf
        return lo, hi

    def typeval(self, t):
        if t[0] == 'type':
            return t[1]
        if t[0] == 'ext' and t[1] in ('dict', 'list', 'str', 'int', 'float', 'tuple', 'set'):
            return t[1]
        return None

    def comp(self, n, st, f, depth):
        if len(n.generators) != 1:
            return [(('comp', ast.unparse(n)), st)]
        g = n.generators[0]
        out = []
        for v, s in self.ev(g.iter, st, f, depth):
            if v == 'EXC':
                out.append((v, s))
                continue
            for els, s1 in self.items(v, s, f, depth):
                concrete = self.concrete(s1, v)
                saved = dict(s1.env)
                vals, cur = [], s1
                for e in els:
                    res = self.assign(g.target, e, cur, f, depth)
                    cur = res[0]
                    keep = True
                    for c in g.ifs:
                        ts = self.test(c, cur, f, depth)
                        keep = keep and ts[0][0] is True
                        cur = ts[0][1]
                        if len(ts) > 1:
                            self.vague.append('filter in %s' % f.qual)
                    if not keep:
                        continue
                    nodes = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                    rs = self.exprs(nodes, cur, f, depth)
                    if not rs or rs[0][0][-1] == 'EXC':
                        self.vague.append('comprehension in %s' % f.qual)
                        continue
                    vals.append(rs[0][0])
                    cur = rs[0][1]
                cur.frames[-1] = {**{k: x for k, x in cur.env.items() if k in saved}, **saved}
                if isinstance(n, ast.DictComp):
                    out.append((self.new(cur, 'dict', {a: b for a, b in vals}, True), cur))
                elif concrete or not vals:
                    out.append((self.new(cur, 'list', [x[0] for x in vals]), cur))
                else:
                    out.append((('mapped', v, vals[0][0]), cur))
        return out

    # ------------------------------------------------------------ calls
    def call(self, n, st, f, depth):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            sf = st.env.get(f.params[0]) if f.params else None
            if f.cls and sf is not None:
                return [(('super', sf, f.cls), st)]
        fnode = n.func
        args = list(n.args)
        star = any(isinstance(a, ast.Starred) for a in args)
        for fv, s0 in self.ev(fnode, st, f, depth):
            if fv == 'EXC':
                out.append((fv, s0))
                continue
            for vs, s in self.exprs(args + [k.value for k in n.keywords], s0, f, depth):
                if vs and vs[-1] == 'EXC':
                    out.append(('EXC', s))
                    continue
                a = vs[:len(args)]
                if star:
                    flat = []
                    for node, v in zip(args, a):
                        if isinstance(node, ast.Starred):
                            h = self.heap(s, v)
                            if h and h[0] == 'list':
                                flat += h[1]
                            elif v[0] == 'tup':
                                flat += v[1]
                            else:
                                flat.append(('star', v))
                        else:
                            flat.append(v)
                    a = flat
                kws = []
                for k, v in zip(n.keywords, vs[len(args):]):
                    h = self.heap(s, v)
                    if k.arg is None and h and h[0] == 'dict' and all(isc(x, str) for x in h[1]):
                        kws += [(x[1], y) for x, y in h[1].items()]
                    else:
                        kws.append((k.arg, v))
                out += self.apply(fv, a, tuple(kws), s, f, depth, n)
        return out

    def apply(self, fv, a, kws, st, f, depth, n):
        if fv[0] == 'bm':
            m = self.pr.fn.get(fv[2])
            if m is not None and depth < 14 and not self.stop(m):
                args = a if m.static else [fv[1]] + list(a)
                st.eff.append(('enter', m.qual, tuple(args), n.lineno, f.qual))
                return self.outs(self.call_func(m, args, kws, st, depth), m)
        if fv[0] == 'fn':
            m = self.pr.fn.get(fv[1])
            if m is not None and depth < 14 and not self.stop(m) and not any(x[0] == 'star' for x in a) and not any(k is None for k, _ in kws):
                st.eff.append(('enter', m.qual, tuple(a), n.lineno, f.qual))
                return self.outs(self.call_func(m, a, kws, st, depth), m)
        if fv[0] == 'closure':
            m = self.pr.fn.get(fv[1])
            if m is not None and depth < 14:
                return self.outs(self.call_func(m, a, kws, st, depth), m)
        if fv[0] == 'ext':
            r = self.builtin(fv[1], a, kws, st, f, depth, n)
            if r is not None:
                return r
        if fv[0] == 'at':
            r = self.meth(fv[1], fv[2], a, kws, st, f, depth, n)
            if r is not None:
                return r
        fa = tuple(self.freeze(st, x) for x in a)
        t = ('call', fv, fa, tuple((k, self.freeze(st, v)) for k, v in kws))
        st.eff.append(('call', fv, tuple(a), kws, n.lineno, f.qual))
        return [(t, st)]

    def outs(self, os_, m):
        res = []
        for o in os_:
            o.st.eff.append(('leave', m.qual))
            if o.kind == 'return':
                res.append((o.value, o.st))
            else:
                o.st.conds['#exc'] = o.value
                res.append(('EXC', o.st))
        return res

    def seqterm(self, t, st):
        """length term of something iterable"""
        h = self.heap(st, t)
        if h:
            return self.seglen(h[1]) if h[0] == 'list' else C(len(h[1]))
        if t[0] == 'tup':
            return C(len(t[1]))
        if isc(t, str):
            return C(len(t[1]))
        if t[0] == 'mapped':
            return ('len', t[1])
        if t[0] == 'iter':
            return self.seqterm(t[1], st)
        return ('len', t)

    def builtin(self, name, a, kws, st, f, depth, n):
        if name.startswith('builtins.'):
            name = name[9:]
        one = a[0] if len(a) == 1 and not kws else None
        if name == 'len' and one is not None:
            if self.kinds.get(one) == 'scalar':
                return self.raise_('TypeError', st)
            cls = self.types.get(one)
            m = self.pr.method(cls, '__len__') if cls else None
            if m:
                return self.outs(self.call_func(m, [one], (), st, depth), m)
            return [(self.seqterm(one, st), st)]
        if name == 'iter' and one is not None:
            return [(one, st)]
        if name in ('list', 'tuple', 'sorted', 'set', 'reversed') and len(a) == 1:
            x = a[0]
            if self.kinds.get(x) == 'scalar':
                return self.raise_('TypeError', st)
            if self.kinds.get(x) == 'seq':
                return [(self.new(st, 'list', [('seg', x)]), st)]
            h = self.heap(st, x)
            if h or x[0] == 'tup':
                it = list(h[1]) if h else list(x[1])
                if name == 'reversed':
                    it = it[::-1]
                if name == 'sorted' and all(isc(y, str) for y in it):
                    it = sorted(it, key=lambda y: y[1])
                return [(self.new(st, 'list', it), st)]
            if x[0] == 'mapped':
                return [(x, st)]
            if name == 'reversed':
                return [(('mapped', x, ('it', x, mk_lin({('idx', x): -1}, -1))), st)]
            return [(('call', ('ext', name), (x,), ()), st)]
        if name in ('list', 'dict', 'set') and not a:
            if name == 'dict':
                return [(self.new(st, 'dict', {C(k): v for k, v in kws if k}), st)]
            return [(self.new(st, 'list', []), st)]
        if name == 'dict' and len(a) == 1:
            h = self.heap(st, a[0])
            if h and h[0] == 'dict':
                return [(self.new(st, 'dict', {**h[1], **{C(k): v for k, v in kws if k}}, h[2]), st)]
            if h and h[0] == 'list' and all(x[0] == 'tup' and len(x[1]) == 2 for x in h[1]):
                return [(self.new(st, 'dict', {**dict(x[1] for x in h[1]), **{C(k): v for k, v in kws if k}}), st)]
        if name == 'str' and one is not None:
            s = self.strof(one)
            return [(C(s) if isinstance(s, str) else (s if s[0] == 'fmt' else fmt([s])), st)]
        if name == 'int' and one is not None:
            if isc(one, str):
                try:
                    return [(C(int(one[1])), st)]
                except ValueError:
                    return self.raise_('ValueError', st)
            if isc(one, int):
                return [(one, st)]
            if one[0] == 'fmt' and len(one[1]) == 1 and not isinstance(one[1][0], str) and one[1][0][0] == 'str':
                return [(one[1][0][1], st)]
            if intlike(one):
                return [(one, st)]
            return [(('int', one), st)]
        if name in ('any', 'all') and one is not None and self.concrete(st, one):
            todo, out = [st], []
            for e in self.items(one, st, f, depth)[0][0]:
                nxt = []
                for s in todo:
                    for b, s2 in self.truth(e, s):
                        if b == (name == 'any'):
                            out.append((C(b), s2))
                        else:
                            nxt.append(s2)
                todo = nxt
            return out + [(C(name == 'all'), s) for s in todo]
        if name.split('.')[-1] in ('real', 'imag') and one is not None:
            return self.attr(one, name.split('.')[-1], st, f, depth)
        if name == 'bool' and one is not None:
            return [(C(b), s) for b, s in self.truth(one, st)]
        if name == 'type' and one is not None:
            h = self.heap(st, one)
            if h:
                return [(('type', h[0]), st)]
            if isc(one):
                return [(('type', type(one[1]).__name__), st)]
            if one[0] == 'fmt':
                return [(('type', 'str'), st)]
            if one[0] == 'tup' or intlike(one):
                return [(('type', 'tuple' if one[0] == 'tup' else 'int'), st)]
            if self.kinds.get(one) in ('scalar', 'seq'):
                return [(('type', {'scalar': 'float', 'seq': 'list'}[self.kinds[one]]), st)]
            return None
        if name == 'isinstance' and len(a) == 2:
            h = self.heap(st, a[0])
            k = h[0] if h else type(a[0][1]).__name__ if isc(a[0]) else 'str' if a[0][0] == 'fmt' else \
                {'scalar': 'float', 'seq': 'list'}.get(self.kinds.get(a[0]))
            ts = a[1][1] if a[1][0] == 'tup' else (a[1],)
            names = [self.typeval(t) for t in ts]
            if k and all(names):
                return [(C(k in names), st)]
            return None
        if name == 'getattr' and len(a) >= 2 and isc(a[1], str):
            return self.attr(a[0], a[1][1], st, f, depth)
        if name == 'setattr' and len(a) == 3 and isc(a[1], str):
            self.store_attr(a[0], a[1][1], a[2], st, n.lineno, f)
            return [(C(None), st)]
        if name == 'range' and a:
            if all(isc(x, int) for x in a):
                r = range(*[x[1] for x in a])
                if len(r) <= 64:
                    return [(self.new(st, 'list', [C(i) for i in r]), st)]
            if len(a) == 1:
                if a[0][0] == 'len':
                    return [(('mapped', a[0][1], self.index(a[0][1], st)), st)]
                return [(('mapped', ('call', ('ext', 'range'), tuple(a), ()), self.index(('call', ('ext', 'range'), tuple(a), ()), st)), st)]
            return None
        if name == 'enumerate' and len(a) == 1:
            out = []
            for els, s in self.items(a[0], st, f, depth):
                if self.concrete(s, a[0]):
                    out.append((self.new(s, 'list', [('tup', (C(i), e)) for i, e in enumerate(els)]), s))
                else:
                    base = self.base_seq(els[0], a[0])
                    out.append((('mapped', base, ('tup', (self.index(base, s), els[0]))), s))
            return out
        if name == 'zip' and a:
            lists = []
            conc = True
            for x in a:
                r = self.items(x, st, f, depth)
                if len(r) != 1:
                    return None
                conc = conc and self.concrete(st, x)
                lists.append(r[0][0])
            if conc:
                return [(self.new(st, 'list', [('tup', t) for t in zip(*lists)]), st)]
            return [(('mapped', a[0], ('tup', tuple(l[0] for l in lists))), st)]
        if name == 'map' and len(a) == 2:
            out = []
            for els, s in self.items(a[1], st, f, depth):
                vals = []
                for e in els:
                    r = self.apply(a[0], [e], (), s, f, depth, n)
                    if len(r) != 1:
                        return None
                    vals.append(r[0][0])
                    s = r[0][1]
                if self.concrete(s, a[1]):
                    out.append((self.new(s, 'list', vals), s))
                else:
                    out.append((('mapped', a[1][1] if a[1][0] == 'mapped' else a[1], vals[0]), s))
            return out
        return None

    def base_seq(self, el, t):
        for i in self.indices(el):
            return i[1]
        return t

    def meth(self, b, name, a, kws, st, f, depth, n):
        h = self.heap(st, b)
        if h and h[0] == 'dict':
            d = h[1]
            if name == 'get' and a:
                st.eff.append(('lookup', b, a[0]))
                if a[0] in d:
                    return [(d[a[0]], st)]
                if h[2] and all(differ(x, a[0]) for x in d):
                    return [(a[1] if len(a) > 1 else C(None), st)]
                return None
            if name in ('keys', '__iter__'):
                return [(self.new(st, 'list', list(d)), st)]
            if name == 'values':
                return [(self.new(st, 'list', list(d.values())), st)]
            if name == 'items':
                return [(self.new(st, 'list', [('tup', (k, v)) for k, v in d.items()]), st)]
            if name == 'copy':
                return [(self.new(st, 'dict', dict(d), h[2]), st)]
            if name == 'update' and len(a) == 1:
                g = self.heap(st, a[0])
                if g and g[0] == 'dict':
                    d.update(g[1])
                else:
                    d[('all', a[0])] = a[0]
                for k, v in kws:
                    d[C(k)] = v
                return [(C(None), st)]
            if name == 'update' and not a:
                for k, v in kws:
                    d[C(k)] = v
                return [(C(None), st)]
            if name in ('pop', 'setdefault') and a:
                st.eff.append(('lookup', b, a[0]))
                if a[0] in d:
                    v = d[a[0]]
                    if name == 'pop':
                        del d[a[0]]
                        st.eff.append(('del', b, a[0], n.lineno, f.qual))
                    return [(v, st)]
                if h[2]:
                    if name == 'setdefault':
                        d[a[0]] = a[1] if len(a) > 1 else C(None)
                        return [(d[a[0]], st)]
                    if len(a) > 1:
                        return [(a[1], st)]
                    return self.raise_('KeyError', st)
        if h and h[0] == 'list':
            if name == 'append' and len(a) == 1:
                h[1].append(a[0])
                return [(C(None), st)]
            if name == 'extend' and len(a) == 1:
                out = []
                for els, s in self.items(a[0], st, f, depth):
                    s.heap[b[1]][1].extend(els)
                    out.append((C(None), s))
                return out
            if name == 'copy':
                return [(self.new(st, 'list', list(h[1])), st)]
        if name == 'startswith' and len(a) == 1 and isc(a[0], str):
            if isc(b, str):
                return [(C(b[1].startswith(a[0][1])), st)]
            if b[0] == 'fmt':
                p = b[1][0]
                if isinstance(p, str):
                    if p.startswith(a[0][1]):
                        return [(C(True), st)]
                    if not a[0][1].startswith(p):
                        return [(C(False), st)]
                elif p[0] == 'str' and intlike(p[1]) and not (a[0][1][:1].isdigit() or a[0][1][:1] == '-'):
                    return [(C(False), st)]
        if name == 'replace' and b[0] == 'fmt' and len(a) == 2 and isc(a[0], str) and isc(a[1], str) and a[0][1] and \
                not any(c.isdigit() or c == '-' for c in a[0][1]) and all(isinstance(x, str) or x[0] == 'str' and intlike(x[1]) for x in b[1]):
            return [(fmt([x.replace(a[0][1], a[1][1]) if isinstance(x, str) else x for x in b[1]]), st)]
        if name == 'format' and isc(b, str):
            t = self.brace(b[1], a, dict((k, v) for k, v in kws if k))
            if t is not None:
                return [(t, st)]
        if isc(b, str) and all(isc(x) for x in a) and name in ('upper', 'lower', 'strip', 'split', 'replace', 'endswith', 'join'):
            try:
                r = getattr(b[1], name)(*[x[1] for x in a])
                if isinstance(r, list):
                    return [(self.new(st, 'list', [C(x) for x in r]), st)]
                return [(C(r), st)]
            except Exception:
                return None
        if name in ('__iter__', 'keys', 'iterkeys') and not a and b[0] in ('at', 'it', 'p'):
            return [(b, st)]
        if name == '__getitem__' and len(a) == 1:
            return self.getitem(b, a[0], st, f, depth)
        if name == '__len__' and not a:
            return [(self.seqterm(b, st), st)]
        if name.startswith('set_') and name != 'set_params' and len(a) == 1 and b not in self.types:
            st.over[('prop', b, name[4:])] = a[0]
            st.eff.append(('store', ('prop', b, name[4:]), a[0], n.lineno, f.qual))
            return [(C(None), st)]
        if name.startswith('get_') and name != 'get_params' and not a and not kws and b not in self.types:
            p = ('prop', b, name[4:])
            return [(st.over.get(p, p), st)]
        return None

    def brace(self, text, a, kw):
        parts = []
        i = 0
        rest = text
        while '{' in rest:
            p, rest = rest.split('{', 1)
            parts.append(p)
            if '}' not in rest:
                return None
            name, rest = rest.split('}', 1)
            if name == '':
                v = a[i] if i < len(a) else None
                i += 1
            elif name.isdigit():
                v = a[int(name)] if int(name) < len(a) else None
            else:
                v = kw.get(name)
            if v is None:
                return None
            parts.append(self.strof(v))
        return fmt(parts + [rest])


class Raised(Exception):
    def __init__(self, what, st):
        Exception.__init__(self, what)
        self.what, self.st = what, st
