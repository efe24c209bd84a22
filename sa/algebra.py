"""Normal forms of the arithmetic in absint terms.

A term extracted by sa/absint.py is rewritten into a polynomial with rational
coefficients over atoms: parameters and attributes (read as elementwise
arrays), pi, I (I*I = -1), square roots (sqrt(P)**2 = P), sines and cosines
(sin**2 = 1 - cos**2, arguments reduced by sign and by multiples of pi/2,
sin/cos of an arctan2 resolved), exponentials, and opaque functions of
normalised arguments.  Powers may be negative.  A list, tuple or numpy array
built from one is a vector of such values; arithmetic is elementwise.

Two values are equal when their normal forms are.  Anything the rewriting does
not understand becomes an `opaque` atom; `odd(v)` says whether a value has
one, and a check may only report a difference between values without one.
"""
from fractions import Fraction as Fr

ONE = ()


class Odd(Exception):
    """The rewriting cannot follow the term."""


class P:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {m: c for m, c in (d or {}).items() if c != 0}

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show(self)


class V:
    """values along the first axis"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def key(self):
        return ('V',) + tuple(x.key() for x in self.v)

    def __eq__(self, o):
        return isinstance(o, V) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return '[' + ', '.join(map(repr, self.v)) + ']'


def unkey(k):
    if k and k[0] == 'V':
        return V(unkey(x) for x in k[1:])
    return P(dict(k))


def num(c):
    return P({ONE: Fr(c)})


def atom(a):
    return P({((a, 1),): Fr(1)})


PI = atom(('pi',))
I = atom(('I',))


def show_atom(a):
    h = a[0]
    if h in ('pi', 'I'):
        return h
    if h == 'sym':
        return a[1]
    if h in ('sin', 'cos', 'exp', 'sqrt', 'conj'):
        return '%s(%s)' % (h, show(unkey(a[1])) if h != 'conj' else show_atom(a[1]))
    if h == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show(unkey(k)) for k in a[2]))
    if h == 'opaque':
        return '<%s>' % short(a[1])
    if h == 'it':
        return '%s[%s]' % (show_atom(a[1]), a[2])
    if h == 'where':
        return 'where(..., %s, %s)' % (show(unkey(a[2])), show(unkey(a[3])))
    return short(a)


def short(t, n=60):
    s = repr(t)
    return s if len(s) <= n else s[:n] + '..'


def show(p, n=160):
    if isinstance(p, V):
        return repr(p)
    out = []
    for m, c in sorted(p.d.items(), key=repr):
        f = [show_atom(a) + ('' if e == 1 else '^%s' % e) for a, e in m]
        cs = '' if c == 1 and f else '-' if c == -1 and f else str(c) + ('*' if f else '')
        out.append(cs + '*'.join(f))
    s = ' + '.join(out).replace('+ -', '- ') or '0'
    return s if len(s) <= n else s[:n] + '..'


# ------------------------------------------------------------- arithmetic
def lift(f, a, b):
    if isinstance(a, V) and isinstance(b, V):
        if len(a.v) != len(b.v):
            raise Odd('lengths %d and %d' % (len(a.v), len(b.v)))
        return V(lift(f, x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, V):
        return V(lift(f, x, b) for x in a.v)
    if isinstance(b, V):
        return V(lift(f, a, y) for y in b.v)
    return f(a, b)


def each(f, a):
    if isinstance(a, V):
        return V(each(f, x) for x in a.v)
    return f(a)


def add(a, b):
    def f(x, y):
        d = dict(x.d)
        for m, c in y.d.items():
            d[m] = d.get(m, 0) + c
        return P(d)
    return lift(f, a, b)


def scale(a, c):
    return each(lambda x: P({m: k * c for m, k in x.d.items()}), a)


def neg(a):
    return scale(a, Fr(-1))


def sub(a, b):
    return add(a, neg(b))


def mono(m):
    """reduce a monomial (dict atom -> power): a polynomial"""
    res = num(1)
    plain = {}
    more = []
    for a, e in m.items():
        if e == 0:
            continue
        if a == ('I',):
            e %= 4
            if e >= 2:
                res = neg(res)
            if e % 2:
                plain[a] = 1
            continue
        if a[0] == 'sqrt' and e >= 2:
            p = unkey(a[1])
            for _ in range(int(e) // 2):
                more.append(p)
            if e % 2:
                plain[a] = 1
            continue
        if a[0] == 'sin' and e >= 2:
            c = atom(('cos', a[1]))
            s2 = sub(num(1), mul(c, c))
            for _ in range(int(e) // 2):
                more.append(s2)
            if e % 2:
                plain[a] = 1
            continue
        plain[a] = e
    ex = [a for a in plain if a[0] == 'exp']
    if len(ex) > 1 or (ex and plain[ex[0]] != 1):
        t = P()
        for a in ex:
            t = add(t, scale(unkey(a[1]), Fr(plain.pop(a))))
        if t.d:
            more.append(expo(t))
    r = mulraw(res, P({tuple(sorted(plain.items(), key=repr)): Fr(1)}))
    for p in more:
        r = mul(r, p)
    return r


def mulraw(a, b):
    d = {}
    for m, c in a.d.items():
        for n, k in b.d.items():
            q = tuple(sorted(m + n, key=repr)) if not (m and n) else None
            if q is None:
                z = dict(m)
                for x, e in n:
                    z[x] = z.get(x, 0) + e
                q = tuple(sorted(((x, e) for x, e in z.items() if e), key=repr))
            d[q] = d.get(q, 0) + c * k
    return P(d)


def mul(a, b):
    def f(x, y):
        out = P()
        for m, c in x.d.items():
            for n, k in y.d.items():
                z = dict(m)
                for q, e in n:
                    z[q] = z.get(q, 0) + e
                if simple(z):
                    t = P({tuple(sorted(((q, e) for q, e in z.items() if e), key=repr)): Fr(1)})
                else:
                    t = mono(z)
                out = add(out, scale(t, c * k))
        return out
    return lift(f, a, b)


def simple(z):
    nexp = 0
    for a, e in z.items():
        if a == ('I',) and e not in (0, 1):
            return False
        if a[0] in ('sqrt', 'sin') and e >= 2:
            return False
        if a[0] == 'exp':
            nexp += 1
            if e != 1:
                return False
    return nexp <= 1


def inv(a):
    def f(x):
        if not x.d:
            raise Odd('division by zero')
        if len(x.d) == 1:
            (m, c), = x.d.items()
            return scale(mono({q: -e for q, e in m}), 1 / c)
        r = sqrt(x)
        return mul(inv(r), inv(r)) if len(r.d) == 1 else atom(('opaque', ('inv', x.key())))
    return each(f, a)


def power(a, n):
    if n < 0:
        return power(inv(a), -n)
    r = num(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def isq(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    def f(x):
        if not x.d:
            return x
        # take out the common rational square and common even powers
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if m == ONE:
                n, d = isq(c.numerator), isq(c.denominator)
                if c > 0 and n is not None and d is not None:
                    return num(Fr(n, d))
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'exp' and real(unkey(m[0][0][1])):
                return expo(scale(unkey(m[0][0][1]), Fr(1, 2)))
        # positive scale: sqrt(c*P) = sqrt(c)*sqrt(P) with P's first coeff 1
        lead = x.d[min(x.d, key=repr)]
        if lead > 0 and lead != 1:
            n, d = isq(lead.numerator), isq(lead.denominator)
            if n is not None and d is not None:
                return scale(sqrt(scale(x, 1 / lead)), Fr(n, d))
        return atom(('sqrt', x.key()))
    return each(f, a)


def real(x):
    """every atom of the polynomial stands for a real number"""
    return all(areal(a) for m in x.d for a, _ in m)


def areal(a):
    if a[0] == 'I':
        return False
    if a[0] in ('sin', 'cos', 'exp'):
        return real(unkey(a[1]))
    if a[0] == 'sym':
        return not (len(a) > 2 and a[2] == 'complex')
    if a[0] == 'fn' and a[1] in REALFN:
        return all(real(unkey(k)) for k in a[2] if not (k and k[0] == 'V'))
    return a[0] in ('pi', 'sqrt', 'atan2')


def conj(a):
    def f(x):
        out = P()
        for m, c in x.d.items():
            t = num(c)
            for q, e in m:
                if q == ('I',):
                    t = mul(t, power(neg(I), e)) if e > 0 else mul(t, power(inv(neg(I)), -e))
                    continue
                if q[0] == 'exp':
                    y = expo(f(unkey(q[1])))
                elif q[0] == 'conj':
                    y = atom(q[1])
                elif areal(q):
                    y = atom(q)
                else:
                    y = atom(('conj', q))
                t = mul(t, power(y, e) if e > 0 else power(inv(y), -e))
            out = add(out, t)
        return out
    return each(f, a)


REALFN = {'abs', 'j1', 'floor', 'arcsin', 'polyval', 'pow', '@'}


def expo(a):
    def f(x):
        if not x.d:
            return num(1)
        return atom(('exp', x.key()))
    return each(f, a)


def trig(which, a):
    def f(x):
        x = drop_where(x)
        # a multiple of pi/2 taken out
        k = x.d.get(((('pi',), 1),), Fr(0))
        n = k * 2
        if n.denominator != 1:
            base = n.numerator // n.denominator
            q = Fr(base)
        else:
            q = n
        rest = sub(x, scale(PI, q / 2))
        q = int(q) % 4
        s, c = basic('sin', rest), basic('cos', rest)
        if which == 'sin':
            return (s, c, neg(s), neg(c))[q]
        return (c, neg(s), neg(c), s)[q]
    return each(f, a)


def basic(which, x):
    """sin or cos of a sum, written out over the sines and cosines of its terms"""
    sc = (num(0), num(1))
    for m, c in sorted(x.d.items(), key=repr):
        a, b = one_term(m, c)
        sc = (add(mul(sc[0], b), mul(sc[1], a)), sub(mul(sc[1], b), mul(sc[0], a)))
    return sc[0] if which == 'sin' else sc[1]


def one_term(m, c):
    """(sin, cos) of c*m"""
    if c < 0:
        s, k = one_term(m, -c)
        return neg(s), k
    if c.denominator == 1 and 1 < c <= 4:
        s, k = one_term(m, Fr(1))
        s1, k1 = s, k
        for _ in range(int(c) - 1):
            s, k = add(mul(s, k1), mul(k, s1)), sub(mul(k, k1), mul(s, s1))
        return s, k
    if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'atan2' and c == 1:
        y, z = unkey(m[0][0][1]), unkey(m[0][0][2])
        r = inv(sqrt(add(mul(y, y), mul(z, z))))
        return mul(y, r), mul(z, r)
    k = P({m: c}).key()
    return atom(('sin', k)), atom(('cos', k))


def drop_where(x):
    """a `where` atom whose two values differ by a multiple of 2 pi is, in an
    angle, either of them"""
    for m, c in x.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'where':
            a, b = unkey(m[0][0][2]), unkey(m[0][0][3])
            if isinstance(a, P) and isinstance(b, P) and whole_turns(scale(sub(a, b), c)):
                d = dict(x.d)
                del d[m]
                return drop_where(add(P(d), scale(b, c)))
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'turn' and c.denominator == 1:
            d = dict(x.d)
            del d[m]
            return drop_where(add(P(d), scale(unkey(m[0][0][1]), c)))
    return x


def whole_turns(p):
    if not p.d:
        return True
    if set(p.d) != {((('pi',), 1),)}:
        return False
    n = p.d[((('pi',), 1),)] / 2
    return n.denominator == 1


def dot(a, b):
    if isinstance(a, V) and isinstance(b, V):
        if a.v and isinstance(a.v[0], V):
            return V(dot(r, b) for r in a.v)
        if b.v and isinstance(b.v[0], V):
            if len(a.v) != len(b.v):
                raise Odd('dot of %d and %d' % (len(a.v), len(b.v)))
            cols = len(b.v[0].v)
            return V(dot(a, V(r.v[j] for r in b.v)) for j in range(cols))
        if len(a.v) != len(b.v):
            raise Odd('dot of %d and %d' % (len(a.v), len(b.v)))
        t = P()
        for x, y in zip(a.v, b.v):
            t = add(t, mul(x, y))
        return t
    raise Odd('dot of a scalar')


def transpose(a):
    if isinstance(a, V) and a.v and all(isinstance(r, V) for r in a.v):
        return V(V(r.v[j] for r in a.v) for j in range(len(a.v[0].v)))
    return a


def odd(v):
    """the opaque atoms of a value"""
    if isinstance(v, V):
        return [o for x in v.v for o in odd(x)]
    out = []
    for m in v.d:
        for a, _ in m:
            out += odd_atom(a)
    return out


def odd_atom(a):
    if a[0] == 'opaque':
        return [a]
    out = []
    if a[0] in ('sin', 'cos', 'exp', 'sqrt'):
        out += odd(unkey(a[1]))
    elif a[0] in ('atan2',):
        out += odd(unkey(a[1])) + odd(unkey(a[2]))
    elif a[0] == 'where':
        out += odd(unkey(a[2])) + odd(unkey(a[3]))
    elif a[0] == 'turn':
        out += odd(unkey(a[1]))
    elif a[0] == 'fn':
        for k in a[2]:
            out += odd(unkey(k))
    elif a[0] in ('conj', 'it'):
        out += odd_atom(a[1])
    return out


def wheres(v):
    """the `where` atoms of a value, outermost first"""
    if isinstance(v, V):
        return [w for x in v.v for w in wheres(x)]
    out = []
    for m in v.d:
        for a, _ in m:
            if a[0] == 'where':
                out.append(a)
            elif a[0] in ('sin', 'cos', 'exp', 'sqrt'):
                out += wheres(unkey(a[1]))
    return out


# ---------------------------------------------------------- term -> value
TRANSPARENT = {'numpy.array', 'numpy.asarray', 'numpy.ma.array', 'numpy.asanyarray',
               'numpy.ma.asarray', 'numpy.ma.masked_array', 'numpy.double', 'numpy.float64',
               'numpy.ascontiguousarray', 'numpy.squeeze', 'numpy.copy', 'numpy.real_if_close',
               'numpy.atleast_1d', 'numpy.float_', 'numpy.require', 'numpy.stack'}
METHODS = {'filled', 'copy', 'astype', 'squeeze', 'view', 'flatten', 'ravel', 'clip_'}
FN1 = {'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'scipy.special.j1': 'j1',
       'numpy.floor': 'floor', 'numpy.log10': 'log10', 'numpy.log': 'log'}


class Norm:
    """rewrites terms; `sym(term)` may name a term as an atom (returns a value
    or None), `axes` the conditions known about array ranks"""

    def __init__(self, sym=None, special=None):
        self.sym = sym or (lambda t: None)
        self.special = special or (lambda nm, t: None)
        self.memo = {}

    def opaque(self, t):
        return atom(('opaque', t))

    def __call__(self, t):
        try:
            if t in self.memo:
                return self.memo[t]
        except TypeError:
            return self.opaque(repr(t))
        v = self.sym(t)
        if v is None:
            v = self.special(self, t)
        if v is None:
            try:
                v = self.rw(t)
            except Odd as e:
                v = self.opaque(('?', str(e)))
        self.memo[t] = v
        return v

    def rw(self, t):
        h = t[0]
        if h == 'c':
            v = t[1]
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
                return self.opaque(t)
            if isinstance(v, int):
                return num(v)
            if isinstance(v, float):
                if v != v or v in (float('inf'), float('-inf')):
                    return self.opaque(t)
                return num(Fr(repr(v)))
            if isinstance(v, complex):
                return add(num(Fr(repr(v.real))), scale(I, Fr(repr(v.imag))))
            return self.opaque(t)
        if h == 'ext' and t[1] in ('numpy.pi', 'math.pi'):
            return PI
        if h in ('list', 'tup'):
            return V(self(x) for x in t[1])
        if h == 'lin':
            try:
                r = num(t[2])
                for x, c in (t[1].items() if isinstance(t[1], dict) else t[1]):
                    r = add(r, scale(self(x), Fr(c)))
                return r
            except Exception:
                return self.opaque(t)
        if h == 'op':
            return self.binop(t[1], t[2], t[3], t)
        if h == 'un':
            if t[1] == 'USub':
                return neg(self(t[2]))
            if t[1] == 'UAdd':
                return self(t[2])
            return self.opaque(t)
        if h == 'it':
            return self.item(t)
        if h == 'call':
            return self.call(t)
        if h in ('p', 'at', 'prop', 'g'):
            if h == 'at' and t[2] in ('T',):
                return transpose(self(t[1]))
            if h == 'at' and t[2] == 'real':
                v = self(t[1])
                return scale(add(v, conj(v)), Fr(1, 2))
            return atom(('opaque', t))
        return self.opaque(t)

    def item(self, t):
        k = t[2]
        b = self(t[1])
        if isinstance(b, V) and k[0] == 'c' and isinstance(k[1], int):
            if -len(b.v) <= k[1] < len(b.v):
                return b.v[k[1]]
        if isinstance(b, V) and k[0] == 'tup':
            v = pick(b, list(k[1]))
            if v is not None:
                return v
        return self.opaque(t)

    def binop(self, op, x, y, t):
        if op == 'Pow':
            n = self(y)
            a = self(x)
            if isinstance(n, P) and set(n.d) <= {ONE}:
                c = n.d.get(ONE, Fr(0))
                if c.denominator == 1 and abs(c) <= 8:
                    return power(a, int(c))
                if c.denominator == 2 and abs(c) <= 4:
                    return power(sqrt(a), int(c * 2))
            return self.opaque(t)
        a, b = self(x), self(y)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op in ('Div', 'TrueDiv'):
            return mul(a, inv(b))
        if op == 'MatMult':
            return dot(a, b)
        if op == 'Mod' and whole_turns(b) and b.d:
            return each(lambda z: atom(('turn', z.key())), a)
        return self.opaque(t)

    def call(self, t):
        f, a = t[1], t[2]
        kw = dict(t[3]) if len(t) > 3 else {}
        if f[0] == 'at':
            if f[2] in METHODS:
                return self(f[1])
            if f[2] == 'dot' and len(a) == 1:
                return dot(self(f[1]), self(a[0]))
            if f[2] in ('conj', 'conjugate') and not a:
                return conj(self(f[1]))
            if f[2] == 'transpose':
                return self.perm(f[1], a, t)
            return self.opaque(t)
        if f[0] == 'bi' and f[1] in ('float',) and len(a) == 1:
            return self(a[0])
        if f[0] != 'ext':
            return self.opaque(t)
        n = f[1]
        if n.startswith('math.'):
            n = 'numpy.' + {'atan2': 'arctan2'}.get(n[5:], n[5:])
        if n in TRANSPARENT and a:
            return self(a[0])
        if n in ('numpy.sin', 'numpy.cos') and len(a) == 1:
            return trig(n[6:], self(a[0]))
        if n == 'numpy.exp' and len(a) == 1:
            return expo(self(a[0]))
        if n == 'numpy.sqrt' and len(a) == 1:
            return sqrt(self(a[0]))
        if n == 'numpy.hypot' and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            return sqrt(add(mul(x, x), mul(y, y)))
        if n == 'numpy.arctan2' and len(a) == 2:
            def at(y, x):
                return atom(('atan2', y.key(), x.key()))
            return lift(at, self(a[0]), self(a[1]))
        if n in ('numpy.conj', 'numpy.conjugate') and len(a) == 1:
            return conj(self(a[0]))
        if n in ('numpy.dot', 'numpy.matmul') and len(a) == 2:
            return dot(self(a[0]), self(a[1]))
        if n in ('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide',
                 'numpy.true_divide', 'numpy.power', 'numpy.mod') and len(a) == 2:
            op = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'power': 'Pow',
                  'mod': 'Mod'}.get(n[6:], 'Div')
            return self.binop(op, a[0], a[1], t)
        if n == 'numpy.negative' and len(a) == 1:
            return neg(self(a[0]))
        if n == 'numpy.square' and len(a) == 1:
            x = self(a[0])
            return mul(x, x)
        if n in ('numpy.zeros_like', 'numpy.zeros') and a:
            return num(0)
        if n in ('numpy.ones_like', 'numpy.ones') and a:
            return num(1)
        if n in ('numpy.deg2rad', 'numpy.radians') and len(a) == 1:
            return mul(self(a[0]), scale(PI, Fr(1, 180)))
        if n in ('numpy.ma.where', 'numpy.where') and len(a) == 3:
            c = a[0]

            def wh(x, y):
                return x if x == y else atom(('where', c, x.key(), y.key()))
            return lift(wh, self(a[1]), self(a[2]))
        if n == 'numpy.transpose' and a:
            return self.perm(a[0], a[1:] or ((kw['axes'],) if 'axes' in kw else ()), t)
        if n in ('numpy.linalg.inv',) and len(a) == 1:
            m = self(a[0])
            if orthonormal(m):
                return transpose(m)
            return self.opaque(t)
        if n in ('numpy.identity', 'numpy.eye') and len(a) == 1 and a[0][0] == 'c' and a[0][1] in (2, 3, 4):
            k = a[0][1]
            return V(V(num(1 if i == j else 0) for j in range(k)) for i in range(k))
        if n in ('numpy.reshape',) and a:
            return self(a[0])
        if n in FN1 and len(a) == 1:
            return each(lambda x: atom(('fn', FN1[n], (x.key(),))), self(a[0]))
        if n in ('numpy.vstack', 'numpy.row_stack') and len(a) == 1:
            return self(a[0])
        return self.opaque(t)

    def perm(self, m, a, t):
        v = self(m)
        if not a:
            return transpose(v)
        p = a[0]
        if p == ('op', 'Add', ('sl', ('c', -1), ('c', None), ('c', None)),
                 ('sl', ('c', None), ('c', -1), ('c', None))):
            return v        # the last axis moved to the front
        if p == ('sl', ('c', None), ('c', None), ('c', -1)):
            return transpose(v)
        if len(a) == 1 and p[0] in ('list', 'tup'):
            ks = tuple(x[1] if x[0] == 'c' else None for x in p[1])
        elif all(x[0] == 'c' for x in a):
            ks = tuple(x[1] for x in a)
        else:
            return self.opaque(t)
        # entries are arrays along a third axis: it is moved to the front
        if ks == (2, 0, 1) or ks == (0, 1, 2) or ks == (0, 1):
            return v
        if ks == (2, 1, 0) or ks == (1, 0) or ks == (1, 0, 2):
            return transpose(v)
        return self.opaque(t)


def pick(b, ks):
    """b[k0, k1, ..] for integer, full-slice and leading-Ellipsis subscripts"""
    if not ks:
        return b
    k = ks[0]
    if k == ('c', Ellipsis):
        d = 0
        x = b
        while isinstance(x, V):
            d += 1
            x = x.v[0]
        return pick(b, [('sl', ('c', None), ('c', None), ('c', None))] * (d - len(ks) + 1) + ks[1:])
    if not isinstance(b, V):
        return None
    if k == ('sl', ('c', None), ('c', None), ('c', None)):
        out = [pick(x, ks[1:]) for x in b.v]
        return None if any(x is None for x in out) else V(out)
    if k[0] == 'c' and isinstance(k[1], int) and -len(b.v) <= k[1] < len(b.v):
        return pick(b.v[k[1]], ks[1:])
    return None


def branches(v, depth=0):
    """the values v takes for each outcome of the conditions in it"""
    ws = wheres(v)
    if not ws or depth > 4:
        return [v]
    w = ws[0]
    return branches(replace(v, w, unkey(w[2])), depth + 1) + \
        branches(replace(v, w, unkey(w[3])), depth + 1)


def replace(v, a, by):
    """v with the atom a standing for the value `by`"""
    if isinstance(v, V):
        return V(replace(x, a, by) for x in v.v)
    out = P()
    for m, c in v.d.items():
        t = num(c)
        for q, e in m:
            if q == a:
                y = by
            elif q[0] in ('sin', 'cos'):
                y = trig(q[0], replace(unkey(q[1]), a, by))
            elif q[0] == 'exp':
                y = expo(replace(unkey(q[1]), a, by))
            elif q[0] == 'sqrt':
                y = sqrt(replace(unkey(q[1]), a, by))
            elif q[0] == 'where' and q != a:
                y = atom(q[:2] + (replace(unkey(q[2]), a, by).key(), replace(unkey(q[3]), a, by).key()))
            else:
                y = atom(q)
            t = mul(t, power(y, e) if e > 0 else power(inv(y), -e))
        out = add(out, t)
    return out


def cleared(x):
    """x with the roots in its denominators multiplied out (zero iff x is)"""
    for _ in range(8):
        low = {}
        for m in x.d:
            for q, e in m:
                if q[0] == 'sqrt' and e < 0:
                    low[q] = min(e, low.get(q, 0))
        if not low:
            return x
        q = min(low, key=repr)
        # one factor at a time, so that the powers that cancel are not expanded
        t = P({((q, -low[q]),): Fr(1)})
        x = mul(x, t)
    return x


def same(a, b):
    """equal, sums over common roots multiplied out"""
    if isinstance(a, V) or isinstance(b, V):
        return isinstance(a, V) and isinstance(b, V) and len(a.v) == len(b.v) and \
            all(same(x, y) for x, y in zip(a.v, b.v))
    d = cleared(sub(a, b))
    return not d.d or not cleared(euler(d)).d


def euler(x):
    """exp(I y) written as cos y + I sin y"""
    out = P()
    for m, c in x.d.items():
        t = num(c)
        for q, e in m:
            f = atom(q)
            if q[0] == 'exp' and e == 1:
                im, rest = P(), P()
                for n, k in unkey(q[1]).d.items():
                    z = dict(n)
                    if z.pop(('I',), 0) == 1:
                        im = add(im, P({tuple(sorted(z.items(), key=repr)): k}))
                    else:
                        rest = add(rest, P({n: k}))
                f = mul(expo(rest), add(trig('cos', im), mul(I, trig('sin', im))))
            elif e < 0:
                f, e = P({((q, e),): Fr(1)}), 1
            t = mul(t, power(f, e))
        out = add(out, t)
    return out


def replace_angle(v, x, s, k):
    """v with sin(x) = s and cos(x) = k for a single symbol x"""
    key = x.key()
    return replace(replace(v, ('sin', key), s), ('cos', key), k)


def orthonormal(m):
    """m . m^T = 1 (None: cannot say)"""
    if not (isinstance(m, V) and m.v and all(isinstance(r, V) for r in m.v)):
        return None
    n = len(m.v)
    try:
        g = dot(m, transpose(m))
    except Odd:
        return None
    ident = V(V(num(1 if i == j else 0) for j in range(n)) for i in range(n))
    return same(g, ident)
