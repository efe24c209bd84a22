"""M16: baselines, phases, gains and visibilities follow the documented
formulas, so that exchanging the antennas conjugates a visibility.

Each function is read into a term with the other functions of the chain kept
as symbols, the term into a normal form, and the normal form compared with the
documented formula over all values."""
from sa import py, absint, report
from sa import algebra as A
from checks import m17

SELF, SI, SJ, SRC = (('p', x) for x in ('self', 'i', 'j', 'src'))
CHAIN = ('get_baseline', 'get_phs_offset', 'gen_uvw', 'gen_phs', 'refract', 'resolve_src', 'passband',
         'bm_response', 'get_afreqs', 'response', 'get_active_pol')
CPLX = ('passband', '_gain', 'gen_phs', 'resp(', 'data')
F = A.Fr


class It(m17.It):
    pass


class Names:
    """stable names for attributes, items, antennas and calls along the chain"""

    def __init__(self, pr, cls):
        self.pr, self.cls = pr, cls
        self.N = A.Norm(self.sym, self.special)
        self.outer = False

    def special(self, nm, t):
        if t[0] == 'call' and t[1] in (('ext', 'numpy.dot'), ('ext', 'numpy.outer')) and len(t[2]) == 2:
            a, b = nm(t[2][0]), nm(t[2][1])
            if isinstance(a, A.P) and isinstance(b, A.P):
                if self.outer or t[1][1] == 'numpy.outer':
                    return A.mul(a, b)
                return A.mul(A.atom(('fn', '@', (a.key(),))), b)
            if isinstance(a, A.P):
                return A.each(lambda x: A.mul(A.atom(('fn', '@', (a.key(),))), x), b)
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'dot' and len(t[2]) == 1:
            return self.special(nm, ('call', ('ext', 'numpy.dot'), (t[1][1], t[2][0]), ()))
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('reshape', 'ravel'):
            return nm(t[1][1])
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.resize', 'numpy.broadcast_to'):
            return nm(t[2][0])
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.polyval', 'numpy.arcsin') and not t[3]:
            return A.atom(('fn', t[1][1][6:], tuple(nm(x).key() for x in t[2])))
        if t[0] == 'call' and t[1] == ('ext', 'numpy.power') and len(t[2]) == 2:
            t = ('op', 'Pow') + tuple(t[2])
        if t[0] == 'op' and t[1] == 'Pow':
            e = nm(t[3])
            if isinstance(e, A.P) and e.d and not set(e.d) <= {A.ONE}:
                b = nm(t[2])
                if isinstance(b, A.P):
                    return A.atom(('fn', 'pow', (b.key(), e.key())))
        if t[0] == 'it' and t[2][0] == 'c' and isinstance(t[2][1], int) and not isinstance(t[2][1], bool):
            b = nm(t[1])
            if isinstance(b, A.P):
                # an element of a sum is the sum of the elements
                out = A.P()
                for m, c in b.d.items():
                    vec = [q for q, e in m if q[0] == 'sym' and vectorish(q[1])]
                    if len(vec) != 1:
                        return None
                    t2 = A.num(c)
                    for q, e in m:
                        t2 = A.mul(t2, A.power(A.atom(('sym', '%s[%d]' % (q[1], t[2][1])) + q[2:] if q == vec[0] else q), e))
                    out = A.add(out, t2)
                return out
        return None

    def sym(self, t):
        n = self.name(t)
        if n is None:
            return None
        return mk(n)

    def name(self, t):
        h = t[0]
        if h == 'p':
            return t[1]
        if h == 'c' and isinstance(t[1], str):
            return repr(t[1])
        if h in ('at', 'prop') and isinstance(t[2], str):
            if t[2] in ('T', 'real', 'imag', 'shape', 'size', 'ndim', 'dtype', 'mask'):
                return None
            if t[2] == 'pos':
                return self.name(t[1])
            b = self.name(t[1])
            if b == 'self' and t[2] == 'active_pol':
                return 'pol'
            return b and '%s.%s' % (b, t[2])
        if h == 'it':
            b, k = t[1], t[2]
            if b == SELF or b == ('at', SELF, 'ants'):
                k = self.name(k) if k[0] != 'c' else str(k[1])
                return k and 'ant_%s' % k
            if self.name(b) == 'pol' and k in (('c', 0), ('c', -1), ('c', 1)):
                return 'pol[%d]' % (0 if k[1] == 0 else 1)
            c = self.called(b)
            if c and c[0] == 'gen_uvw' and k[0] == 'c' and c[2].get('w_only') in (('c', False), None):
                return self.uvw(c, k[1] % 3 if isinstance(k[1], int) else k[1])
            bn = self.name(b)
            if bn is None:
                return None
            kn = str(k[1]) if k[0] == 'c' and isinstance(k[1], int) else self.name(k)
            return kn and '%s[%s]' % (bn, kn)
        if h == 'call':
            c = self.called(t)
            if c is None:
                return None
            if c[0] == 'get_active_pol':
                return 'pol'
            if c[0] == 'gen_uvw' and c[2].get('w_only') == ('c', True):
                return self.uvw(c, 2)
            if c[0] == 'bm_response' and c[3] == 'antenna':
                # of one antenna towards the cached positions
                top = c[2].get('top')
                if top is not None:
                    v = [self.name(x) for x in top[1]] if top[0] in ('tup', 'list') else self.name(top)
                    if v == ["self._cache['s_top'][%d]" % k for k in range(3)] or v == "self._cache['s_top']":
                        return 'resp(%s, %s)' % (self.name(c[1]), self.name(c[2].get('pol', ('c', 'x'))))
            args = []
            for k, v in sorted(c[2].items()):
                a = self.name(v)
                if a is None and v[0] in ('tup', 'list') and all(self.name(x) for x in v[1]):
                    a = '(%s)' % ', '.join(self.name(x) for x in v[1])
                if a is None and v[0] == 'c':
                    a = repr(v[1])
                if a is None:
                    w = self.N(v)
                    if A.odd(w):
                        return None
                    a = A.show(w, 10 ** 6)
                args.append('%s=%s' % (k, a))
            b = self.name(c[1])
            if b is None:
                return None
            return '%s.%s(%s)' % (b, c[0], ', '.join(args))
        return None

    def uvw(self, c, k):
        a = [self.name(c[2][x]) if x in c[2] else '?' for x in ('i', 'j', 'src')]
        if any(x is None for x in a):
            return None
        return 'uvw[%s](%s)' % (k, ', '.join(a))

    def called(self, t):
        """(method, object, arguments by parameter name, kind) of a call along the chain"""
        if t[0] != 'call':
            return None
        f = t[1]
        if f[0] == 'bm':
            obj, meth = f[1], f[2].split('.')[-1]
            a = t[2]
        elif f[0] == 'at':
            obj, meth = f[1], f[2]
            a = t[2]
        elif f[0] == 'fn' and t[2]:
            obj, meth = t[2][0], f[1].split('.')[-1]
            a = t[2][1:]
        else:
            return None
        if meth not in CHAIN:
            return None
        ant = obj != SELF
        own = self.cls
        m = None
        if ant:
            own = self.pr.mods[self.cls.mod.name].classes.get('Antenna') if hasattr(self.cls, 'mod') else None
            if meth == 'response':
                own = None
        m = self.pr.method(own, meth) if own else None
        if m is None:
            ps, dv = [], {}
            if meth == 'response':
                ps = ['top']
            else:
                return None
        else:
            ps = [x.arg for x in m.node.args.args[1:]]
            dv = {}
            for x, d in zip(reversed(ps), reversed(m.node.args.defaults)):
                if hasattr(d, 'value') and not hasattr(d, 'attr'):
                    dv[x] = ('c', d.value)
        kw = dict(t[3]) if len(t) > 3 else {}
        args = dict(dv)
        if len(a) > len(ps):
            return None
        args.update(zip(ps, a))
        args.update(kw)
        return meth, obj, args, 'antenna' if ant else 'array'


def vectorish(n):
    return n.startswith('ant_') and '.' not in n and '[' not in n


def mk(n):
    if any(x in n for x in CPLX) and not n.startswith('uvw['):
        return A.atom(('sym', n, 'complex'))
    return A.atom(('sym', n))


class Ctx(m17.Ctx):
    def __init__(self, r):
        m17.Ctx.__init__(self, r)
        self.classes = {c.qual: c for c in self.pr.all_classes()}
        self.names = {}

    def go(self, cls, meth, args, plain=(), given=(), stop=CHAIN):
        c = self.classes.get(cls)
        m = self.pr.method(c, meth) if c else None
        if m is None:
            self.r.unsure('%s has no %s' % (cls, meth))
            return None, None, [], None
        nm = self.names.setdefault(cls, Names(self.pr, c))
        I = It(types={SELF: c}, stop=lambda g: g.name in stop and g.name != meth, given=given)
        I.plain = plain
        self.r.count('functions')
        u = '%s.%s' % (cls, meth)
        if u not in self.r.units:
            self.r.units.append(u)
        try:
            outs = I.call_func(m, args, {}, absint.St())
        except (absint.GaveUp, RecursionError) as e:
            self.r.unsure('%s: %s' % (u, str(e)[:80]))
            return m, I, [], nm
        return m, I, outs, nm

    def formula(self, rule, m, nm, got, want, what):
        """got: term"""
        v = nm.N(got)
        self.compare(rule, m, v, want, what)

    def compare(self, rule, m, v, want, what):
        self.r.count('obligations')
        try:
            for g in A.branches(v):
                if A.same(g, want):
                    continue
                o = A.odd(g)
                if o:
                    self.r.unsure('%s: %s: %s' % (m.qual, what, A.short(o[0], 120)))
                    return
                self.r.add(rule, m.qual, m.where(), '%s: %s' % (what, m17.first_difference(g, want)), [])
                return
        except A.Odd as e:
            self.r.unsure('%s: %s: %s' % (m.qual, what, e))
            return
        self.r.count('proved')
        self.r.sample('%s: %s' % (m.qual, what))


def rets(outs):
    return [o for o in outs if o.kind == 'return']


def is_none(o, name):
    """what the path says about a named thing being None"""
    for k, v in o.st.conds.items():
        if k[0] == 'cmp' and k[3] == ('c', None) and name(k[2]):
            if k[1] in ('Is', 'Eq'):
                return v
            if k[1] in ('IsNot', 'NotEq'):
                return not v
    return None


def baselines(c, cls):
    ai, aj = mk('ant_i'), mk('ant_j')
    diff = A.sub(aj, ai)

    def through(mat):
        return A.mul(A.atom(('fn', '@', (mk(mat).key(),))), diff)
    for s, want, what in (('r', diff, "get_baseline(i, j, 'r') is position j less position i"),
                          ('e', through('self._eq2now'), "get_baseline(i, j, 'e') is the matrix of the current time times the difference"),
                          ('z', through('self._eq2zen'), "get_baseline(i, j, 'z') is the zenith matrix times the difference")):
        m, I, outs, nm = c.go(cls, 'get_baseline', [SELF, SI, SJ, ('c', s)])
        for o in rets(outs):
            c.formula('baseline', m, nm, I.freeze(o.st, o.value), want, what)
    m, I, outs, nm = c.go(cls, 'get_baseline', [SELF, SI, SJ, SRC])
    for o in outs:
        if any(k[0] == 'cmp' and SRC in k[2:] and v for k, v in o.st.conds.items()):
            continue
        below = [(k, v) for k, v in o.st.conds.items() if k[0] == 'cmp' and ('at', SRC, 'alt') in k[2:]]
        for k, v in below:
            c.r.count('obligations')
            op = k[1]
            if k[2] != ('at', SRC, 'alt'):
                op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
            if k[2] not in (('at', SRC, 'alt'), ('c', 0)) or k[3] not in (('at', SRC, 'alt'), ('c', 0), ('c', 0.0)):
                c.r.unsure('%s: horizon' % m.qual)
                continue
            down = v if op in ('Lt', 'LtE') else not v if op in ('Gt', 'GtE') else None
            if down is None:
                c.r.unsure('%s: horizon' % m.qual)
            elif down and o.kind == 'return' or not down and o.kind == 'raise' and 'Pointing' in str(o.value):
                c.r.add('horizon', m.qual, m.where(), 'a source %s the horizon %s' % (
                    'below' if down else 'above', 'is projected to' if down else 'is refused'), [])
            else:
                c.r.count('proved')
        if o.kind == 'return':
            c.formula('baseline', m, nm, I.freeze(o.st, o.value), through('src.map'),
                      'the baseline towards a source is the map of the source times the difference')


def differences(c):
    """antennas subtract, add and negate as their positions"""
    p, a = mk('self'), mk('a')
    for meth, want in (('__sub__', A.sub(p, a)), ('__rsub__', A.sub(a, p)), ('__add__', A.add(p, a)), ('__neg__', A.neg(p))):
        m, I, outs, nm = c.go('aipy.phs.Antenna', meth, [SELF, ('p', 'a')][:2 - (meth == '__neg__')])
        for o in rets(outs):
            c.formula('baseline', m, nm, I.freeze(o.st, o.value), want, 'antennas combine as their positions do')


def offsets(c):
    for cls in ('aipy.phs.AntennaArray', 'aipy.amp.AntennaArray', 'aipy.fit.AntennaArray'):
        m, I, outs, nm = c.go(cls, 'get_phs_offset', [SELF, SI, SJ])
        for o in rets(outs):
            c.formula('offset', m, nm, I.freeze(o.st, o.value), A.sub(mk('ant_j.phsoff'), mk('ant_i.phsoff')),
                      'the phase offset is that of j less that of i')
    m, I, outs, nm = c.go('aipy.pol.AntennaArray', 'get_phs_offset', [SELF, SI, SJ])
    for o in rets(outs):
        lin = linear(I, o, nm)
        if lin is None:
            continue
        c.formula('offset', m, nm, I.freeze(o.st, o.value),
                  A.sub(mk('ant_j.phsoff[pol[1]]'), mk('ant_i.phsoff[pol[0]]')),
                  'the phase offset is that of j in the second polarisation less that of i in the first')


def linear(I, o, nm):
    """the path is for a pair of linear polarisations (True), or cannot say (None)"""
    for k, v in o.st.conds.items():
        if k[0] == 'cmp' and k[1] in ('In', 'NotIn') and nm.name(k[2]) == 'pol':
            s = I.freeze(o.st, k[3])
            if s[0] in ('list', 'tup', 'set') and ('c', 'xx') in s[1]:
                return True if v == (k[1] == 'In') else None
    return None


def uvws(c, cls):
    for w_only in (False, True):
        m, I, outs, nm = c.go(cls, 'gen_uvw', [SELF, SI, SJ, SRC, ('c', w_only)])
        if nm is None:
            continue
        nm = Names(nm.pr, nm.cls)
        nm.outer = True
        for o in rets(outs):
            t = I.freeze(o.st, o.value)
            bl = [nm.sym(('it', ('call', ('bm', SELF, 'x.get_baseline'), (SI, SJ, SRC), ()), ('c', k))) for k in range(3)]
            fq = nm.sym(('call', ('bm', SELF, 'x.get_afreqs'), (), ()))
            if fq is None or any(b is None for b in bl):
                c.r.unsure('%s.gen_uvw: names' % cls)
                continue
            want = A.V(A.mul(b, fq) for b in bl)
            c.formula('uvw', m, nm, t, want.v[2] if w_only else want,
                      ('w is a component' if w_only else 'u, v, w are the components') + ' of the baseline in wavelengths')


def phases(c, cls):
    tau = A.scale(A.mul(A.I, A.PI), F(-2))
    IO, SH, MF = ('p', 'ionref'), ('p', 'srcshape'), ('p', 'mfreq')
    NONE = ('c', None)
    for plain in (False, True):
        for ion in (NONE, IO):
            for shp in (NONE, SH):
                for res in (False, True):
                    m, I, outs, nm = c.go(cls, 'gen_phs', [SELF, SRC, SI, SJ, MF, ion, shp, ('c', res)],
                                          plain=(SRC,) if plain else (), given=(IO, SH))
                    for o in rets(outs):
                        io, sh = ion, shp
                        if io == NONE and not plain:
                            n = is_none(o, lambda t: nm.name(t) == 'src.ionref')
                            io = NONE if n else ('at', SRC, 'ionref')
                        if sh == NONE and not plain:
                            n = is_none(o, lambda t: nm.name(t) == 'src.srcshape')
                            sh = NONE if n else ('at', SRC, 'srcshape')
                        u, v, w = (mk('uvw[%d](i, j, src)' % k) for k in range(3))
                        U, V_ = (('it', ('call', ('bm', SELF, 'x.gen_uvw'), (SI, SJ, SRC), ()), ('c', k)) for k in (0, 1))
                        ph = A.add(w, nm.sym(('call', ('bm', SELF, 'x.get_phs_offset'), (SI, SJ), ())))
                        if io != NONE:
                            ph = A.add(ph, nm.sym(('call', ('bm', SELF, 'x.refract'), (U, V_), (('mfreq', MF), ('ionref', io)))))
                        want = A.expo(A.mul(tau, ph))
                        if res and sh != NONE:
                            want = A.mul(want, nm.sym(('call', ('bm', SELF, 'x.resolve_src'), (U, V_), (('srcshape', sh),))))
                        c.formula('phase', m, nm, I.freeze(o.st, o.value), want,
                                  'the phase is exp(-2 pi i (w%s + offset))%s' % (
                                      ' + refraction' if io != NONE else '', ' times resolution' if res and sh != NONE else ''))
    # phasing and its inverse
    m, I, outs, nm = c.go(cls, 'phs2src', [SELF, ('p', 'data'), SRC, SI, SJ, MF, IO, SH])
    m2, I2, outs2, nm2 = c.go(cls, 'unphs2src', [SELF, ('p', 'data'), SRC, SI, SJ, MF, IO, SH])
    d = mk('data')
    for o in rets(outs):
        ph = nm.sym(('call', ('bm', SELF, 'x.gen_phs'), (SRC, SI, SJ), (('mfreq', MF), ('ionref', IO), ('srcshape', SH), ('resolve_src', ('c', False)))))
        c.formula('phasing', m, nm, I.freeze(o.st, o.value), A.mul(d, ph), 'phased data are the data times the phase')
        for o2 in rets(outs2):
            c.formula('phasing', m2, nm2, I2.freeze(o2.st, o2.value), A.mul(d, A.inv(ph)), 'unphasing divides by what phasing multiplied by')


def physics(c, cls):
    dra, ddec = ('p', 'dra'), ('p', 'ddec')
    u, v, mf = mk('u_sf'), mk('v_sf'), mk('mfreq')
    m, I, outs, nm = c.go(cls, 'refract', [SELF, ('p', 'u_sf'), ('p', 'v_sf'), ('p', 'mfreq'), ('tup', (dra, ddec))])
    for o in rets(outs):
        fq = nm.sym(('call', ('bm', SELF, 'x.get_afreqs'), (), ()))
        if fq is None:
            continue
        want = A.mul(A.add(A.mul(mk('dra'), u), A.mul(mk('ddec'), v)), A.mul(A.mul(mf, mf), A.inv(A.mul(fq, fq))))
        c.formula('refraction', m, nm, I.freeze(o.st, o.value), want, 'refraction is (dra u + ddec v) (mfreq / freq)^2')
    # a uniform disk: 2 J1(x) / x
    a1, a2, th = (('p', x) for x in ('a1', 'a2', 'th'))
    m, I, outs, nm = c.go(cls, 'resolve_src', [SELF, ('p', 'u'), ('p', 'v'), ('tup', (a1, a2, th))])
    U, V_, T = mk('u'), mk('v'), mk('th')
    ru = A.mul(mk('a1'), A.sub(A.mul(U, m17.cos(T)), A.mul(V_, m17.sin(T))))
    rv = A.mul(mk('a2'), A.add(A.mul(U, m17.sin(T)), A.mul(V_, m17.cos(T))))
    x = A.mul(A.scale(A.PI, F(2)), A.sqrt(A.add(A.mul(ru, ru), A.mul(rv, rv))))
    want = A.scale(A.mul(A.atom(('fn', 'j1', (x.key(),))), A.inv(x)), F(2))
    for o in rets(outs):
        if any('mapped' in str(y) for y in [o.value]):
            continue        # sizes reshaped element by element
        t = I.freeze(o.st, o.value)
        val = nm.N(t)
        ws = A.wheres(val)
        if len(ws) != 1 or not isinstance(val, A.P) or len(val.d) != 1:
            if A.odd(val) or ws:
                c.r.unsure('%s: resolution' % m.qual)
            else:
                c.compare('resolution', m, val, want, 'a disk is resolved as 2 J1(x) / x')
            continue
        cond, p, q = ws[0][1], A.unkey(ws[0][2]), A.unkey(ws[0][3])
        if cond[0] == 'cmp' and cond[1] in ('Eq', 'NotEq') and ('c', 0) in cond[2:]:
            if cond[1] == 'NotEq':
                p, q = q, p
            c.compare('resolution', m, p, A.num(1), 'at x = 0 a disk is not resolved')
            other = [z for z in cond[2:] if z != ('c', 0)]
            if other:
                c.compare('resolution', m, nm.N(other[0]), x, 'the argument that is tested for 0')
            c.compare('resolution', m, q, want, 'a disk is resolved as 2 J1(x) / x')
        else:
            c.r.unsure('%s: resolution' % m.qual)


def gains(c):
    def poly(attr, k):
        return A.atom(('fn', 'polyval', (mk('self.%s%s' % (attr, k)).key(), mk('self.beam.afreqs').key())))
    for cls, k in (('aipy.amp.Antenna', ''), ('aipy.pol.Antenna', '[p]')):
        m, I, outs, nm = c.go(cls, '_update_gain', [SELF], stop=())
        for o in outs:
            if o.kind not in ('return', 'next'):
                continue
            if not k:
                t = c.attr(I, o, '_gain')
                if t is None:
                    c.r.unsure('%s: the gain' % m.qual)
                    continue
                want = A.mul(mk('self.amp'), A.add(poly('bp_r', ''), A.mul(A.I, poly('bp_i', ''))))
                c.formula('gain', m, nm, I.freeze(o.st, t), want, 'the gain is amp (bp_r + i bp_i) at the active frequencies')
        for conj in (False, True):
            ar = [SELF, ('c', conj)] + ([('p', 'pol')] if k else [])
            m, I, outs, nm = c.go(cls, 'passband', ar, stop=())
            for o in rets(outs):
                g = mk('self._gain' + ('[pol]' if k else ''))
                c.formula('gain', m, nm, I.freeze(o.st, o.value), A.conj(g) if conj else g,
                          'the passband is %s' % ('the conjugate of the gain' if conj else 'the gain'))
    # of a baseline
    for cls in ('aipy.amp.AntennaArray', 'aipy.pol.AntennaArray', 'aipy.fit.AntennaArray'):
        p = cls.startswith('aipy.pol')
        m, I, outs, nm = c.go(cls, 'passband', [SELF, SI, SJ], stop=())
        for o in rets(outs):
            got = gain_names(c, nm, I, o)
            if got is None:
                c.r.unsure('%s: passbands of the antennas' % m.qual)
                continue
            gi, gj = (A.atom(('sym', 'gain(%s%s)' % (x, y if p else ''), 'complex')) for x, y in (('ant_i', ', pol[0]'), ('ant_j', ', pol[1]')))
            c.compare('gain', m, got, A.mul(gj, A.conj(gi)), 'the passband of a baseline is that of j times the conjugate of that of i')


def per_pol(c):
    """the per-polarisation dictionaries of a dual-polarisation antenna"""
    def want(k, attr):
        def poly(a):
            return A.atom(('fn', 'polyval', (mk('self.%s[%s]' % (a, k)).key(), mk('self.beam.afreqs').key())))
        if attr == 'phsoff':
            return poly('_phsoff')
        return A.mul(mk('self.amp[%s]' % k), A.add(poly('bp_r'), A.mul(A.I, poly('bp_i'))))
    for meth, attr, what in (('_update_gain', '_gain', 'the gain in a polarisation is amp (bp_r + i bp_i) of that polarisation'),
                             ('_update_phsoff', 'phsoff', 'the offset in a polarisation is its polynomial at the active frequencies')):
        m, I, outs, nm = c.go('aipy.pol.Antenna', meth, [SELF], stop=())
        for o in outs:
            if o.kind not in ('return', 'next'):
                continue
            got, base = [], None
            for e in o.st.eff:
                if e[0] == 'store' and e[1] == ('at', SELF, attr):
                    base = e[2]
                elif e[0] == 'store' and e[1][0] == 'it' and e[1][1] in (base, ('at', SELF, attr)):
                    got.append((e[1][2], e[2]))
            if not got:
                c.r.unsure('%s: what is stored per polarisation' % m.qual)
            for key, val in got:
                # the loop key stands for any polarisation
                sub = Named(nm, I.freeze(o.st, key))
                c.compare('gain' if attr == '_gain' else 'offset', m, A.Norm(sub.sym, nm.special)(I.freeze(o.st, val)),
                          want('KEY', attr), what)


class Named:
    def __init__(self, nm, key):
        self.nm, self.key = nm, key

    def sym(self, t):
        if t[0] == 'it' and t[2] == self.key:
            b = self.nm.name(t[1])
            if b:
                return mk('%s[KEY]' % b)
        return self.nm.sym(t)


def gain_names(c, nm, I, o):
    """the value with each antenna's passband named by antenna and polarisation"""
    def sym(t):
        if t[0] == 'call':
            k = nm.called(t)
            if k and k[0] == 'passband' and k[3] == 'antenna':
                a = nm.name(k[1])
                cj = k[2].get('conj', ('c', False))
                if a is None or cj[0] != 'c':
                    return None
                pl = k[2].get('pol')
                pl = nm.name(pl) if pl is not None else None
                g = A.atom(('sym', 'gain(%s%s)' % (a, ', ' + pl if pl else ''), 'complex'))
                return A.conj(g) if cj[1] else g
        return nm.sym(t)
    return A.Norm(sym, nm.special)(I.freeze(o.st, o.value))


def beams(c):
    for cls in ('aipy.amp.AntennaArray', 'aipy.pol.AntennaArray', 'aipy.fit.AntennaArray'):
        m, I, outs, nm = c.go(cls, 'bm_response', [SELF, SI, SJ], stop=CHAIN)
        for o in rets(outs):
            # what is kept under (antenna, polarisation) is that antenna's response in it
            for e in o.st.eff:
                if e[0] == 'store' and e[1][0] == 'it' and e[1][1][0] == 'it' and e[1][1][1] == ('at', SELF, '_cache'):
                    a, p = nm.name(e[1][1][2]), nm.name(e[1][2])
                    c.formula('beam', m, nm, I.freeze(o.st, e[2]), cached(a, p),
                              'what is cached for antenna %s in polarisation %s' % (a, p))
            t = I.freeze(o.st, o.value)

            def sym(x, nm=nm):
                if x[0] == 'it' and x[1][0] == 'it' and x[1][1] == ('at', SELF, '_cache'):
                    return cached(nm.name(x[1][2]), nm.name(x[2]))
                return nm.sym(x)
            v = A.Norm(sym, nm.special)(t)
            c.compare('beam', m, v, A.mul(cached('j', 'pol[1]'), A.conj(cached('i', 'pol[0]'))),
                      'the beam of a baseline is that of j in the second polarisation times the conjugate of that of i in the first')
    # one antenna: the beam at the position turned for the polarisation
    for pol in 'xy':
        m, I, outs, nm = c.go('aipy.amp.Antenna', 'bm_response', [SELF, ('p', 'top'), ('c', pol)], stop=())
        for o in rets(outs):
            t = I.freeze(o.st, o.value)
            c.r.count('obligations')
            used = {x[2] for x in m17.walk(t) if x[0] == 'at' and x[2] in ('rot_pol_x', 'rot_pol_y')}
            if used == {'rot_pol_' + pol}:
                c.r.count('proved')
            elif len(used) == 1:
                c.r.add('beam', m.qual, m.where(), 'polarisation %s is looked up with %s' % (pol, used.pop()), [])
            else:
                c.r.unsure('%s: which rotation' % m.qual)
    X, Y = (('p', k) for k in 'xy')
    m, I, outs, nm = c.go('aipy.amp.Beam2DGaussian', 'response', [SELF, ('tup', (X, Y, ('p', 'z')))], stop=())
    for o in rets(outs):
        def q(n, w):
            a = A.mul(A.atom(('fn', 'arcsin', (mk(n).key(),))), A.inv(mk('self.' + w)))
            return A.mul(a, a)
        want = A.expo(A.scale(A.add(q('x', 'xwidth'), q('y', 'ywidth')), F(-1, 4)))
        c.formula('beam', m, nm, I.freeze(o.st, o.value), want, 'the voltage beam is the root of a Gaussian of the two angles over their widths')


def cached(a, p):
    if a is not None and not a.startswith('ant_'):
        a = 'ant_' + a
    return mk('resp(%s, %s)' % (a, p))


def sums(t):
    """X, axis of a sum"""
    kw = dict(t[3]) if t[0] == 'call' and len(t) > 3 else {}
    if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'sum':
        ax = t[2][0] if t[2] else kw.get('axis')
        return t[1][1], ax
    if t[0] == 'call' and t[1] == ('ext', 'numpy.sum') and t[2]:
        ax = t[2][1] if len(t[2]) > 1 else kw.get('axis')
        return t[2][0], ax
    return None


def selected(t):
    """(what, mask, axis) of an array cut to the entries of a mask"""
    while t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('reshape', 'copy'):
        t = t[1][1]
    if t[0] == 'call' and (t[1] == ('ext', 'numpy.compress') or t[1][0] == 'at' and t[1][2] == 'compress'):
        a, kw = list(t[2]), dict(t[3])
        if t[1][0] == 'at':
            a = a[:1] + [t[1][1]] + a[1:]
        ax = a[2] if len(a) > 2 else kw.get('axis')
        if len(a) < 2 or ax is not None and ax[0] != 'c':
            return None
        return a[1], a[0], None if ax is None else ax[1]
    if t[0] == 'it' and t[2][0] in ('cmp', 'call'):
        return t[1], t[2], 0
    if t[0] == 'it' and t[2][0] == 'tup' and len(t[2][1]) == 2 and t[2][1][0] in (
            ('sl', ('c', None), ('c', None), ('c', None)), ('c', Ellipsis)):
        return t[1], t[2][1][1], 1
    return t, None, None


def up(t, top):
    """(component, sign) of the topocentric positions that t tests against 0"""
    while t[0] == 'call' and t[1] == ('ext', 'numpy.logical_not') or t[0] == 'un' and t[1] == 'Invert':
        s = up(t[2][0] if t[0] == 'call' else t[2], top)
        return s and (s[0], -s[1])
    if t[0] != 'cmp' or t[1] not in ('Gt', 'Lt', 'GtE', 'LtE'):
        return None
    a, b = t[2], t[3]
    sign = 1 if t[1] in ('Gt', 'GtE') else -1
    if a in (('c', 0), ('c', 0.0)):
        a, b, sign = b, a, -sign
    if b not in (('c', 0), ('c', 0.0)) or a[0] != 'it' or a[1] != top:
        return None
    k = a[2]
    if k[0] == 'tup' and len(k[1]) == 2 and k[1][1] in (('sl', ('c', None), ('c', None), ('c', None)), ('c', Ellipsis)):
        k = k[1][0]
    return (k[1] % 3, sign) if k[0] == 'c' and isinstance(k[1], int) else None


def plain_calls(t):
    """x.dot(y), x.any(), x.all() as calls of numpy"""
    if not isinstance(t, tuple):
        return t
    t = tuple(plain_calls(x) for x in t)
    if t and t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('dot', 'any', 'all'):
        return ('call', ('ext', 'numpy.' + t[1][2]), (t[1][1],) + tuple(t[2])) + t[3:]
    return t


def sim_cache(c):
    """what sim() uses is of the sources above the horizon, the same ones for each quantity"""
    ps = ('s_eqs', 'jys', 'mfreqs', 'ionrefs', 'srcshapes')
    eqs, jys, mf, ion, shp = (('p', x) for x in ps)
    top = ('call', ('ext', 'numpy.dot'), (('at', SELF, 'eq2top_m'), eqs), ())
    want = {'jys': [jys], 'mfreq': [mf], 's_eqs': [eqs], 's_top': [top], 'i_ref': [('it', ion, ('c', k)) for k in (0, 1)],
            's_shp': [('it', shp, ('c', k)) for k in (0, 1, 2)]}
    axis = {'jys': (0,), 's_eqs': (1, -1), 's_top': (1, -1)}
    for cls in ('aipy.amp.AntennaArray', 'aipy.pol.AntennaArray', 'aipy.fit.AntennaArray'):
        m, I, outs, nm = c.go(cls, 'sim_cache', [SELF] + [('p', x) for x in ps], stop=())
        for o in outs:
            t = c.attr(I, o, '_cache')
            if o.kind == 'raise' or t is None:
                continue
            t = plain_calls(I.freeze(o.st, t))
            if t[0] != 'dict':
                c.r.unsure('%s: the cache' % m.qual)
                continue
            d = dict(t[1])
            if not d:
                for k, v in o.st.conds.items():
                    c.r.count('obligations')
                    k = plain_calls(I.freeze(o.st, k))
                    fn = k[1][1] if k[0] == 'call' and k[1][0] == 'ext' else ''
                    x = k[2][0] if fn in ('numpy.all', 'numpy.any') and len(k[2]) == 1 else None
                    none = x is not None and x[0] == 'cmp' and x[1] == 'Eq' and x[3] in (('c', 0), ('c', False)) and up(x[2], top) is not None
                    some = x is not None and up(x, top) is not None
                    if none and fn == 'numpy.all' and v or some and fn == 'numpy.any' and not v:
                        c.r.count('proved')
                    elif none and fn == 'numpy.any' and v or some and fn == 'numpy.all' and not v or \
                            none and fn == 'numpy.all' or some and fn == 'numpy.any':
                        c.r.add('sources', m.qual, m.where(), 'everything is dropped while a source is above the horizon', [])
                    else:
                        c.r.unsure('%s: when nothing is above the horizon' % m.qual)
                continue
            for key, bases in want.items():
                x = d.get(('c', key))
                if x is None:
                    c.r.unsure('%s: no %s in the cache' % (m.qual, key))
                    continue
                xs = x[1] if x[0] in ('tup', 'list') and len(bases) > 1 else [x]
                if len(xs) != len(bases):
                    c.r.unsure('%s: %s in the cache' % (m.qual, key))
                    continue
                for x, b in zip(xs, bases):
                    c.r.count('obligations')
                    s = selected(x)
                    if s is None:
                        c.r.unsure('%s: %s in the cache' % (m.qual, key))
                        continue
                    base, mask, ax = s
                    inner = selected(base)
                    if mask is not None and inner and inner[1] is not None and up(inner[1], top) == up(mask, top):
                        base = inner[0]
                    if base[0] == 'it' and base[1] == b and base[2][0] == 'sl' and ('c', None) != base[2][2] != ('c', 0):
                        c.r.add('sources', m.qual, m.where(), 'the %s of the cache is cut to a range, not to the sources above the horizon' % key, [])
                    elif base not in sum(want.values(), []):
                        c.r.unsure('%s: %s in the cache' % (m.qual, key))
                    elif base != b:
                        c.r.add('sources', m.qual, m.where(), 'the %s of the cache is made of another quantity' % key, [])
                    elif mask is None:
                        c.r.add('sources', m.qual, m.where(), 'the %s of the cache keeps the sources below the horizon' % key, [])
                    elif up(mask, top) not in (None, (2, 1)):
                        c.r.add('sources', m.qual, m.where(), 'the %s of the cache is not of the sources above the horizon' % key, [])
                    elif up(mask, top) is None:
                        c.r.unsure('%s: which sources are kept in %s' % (m.qual, key))
                    elif key in axis and ax not in axis[key]:
                        c.r.add('sources', m.qual, m.where(), 'the sources of %s are not along axis %s' % (key, ax), [])
                    else:
                        c.r.count('proved')


def visibility(c):
    for cls in ('aipy.amp.AntennaArray', 'aipy.pol.AntennaArray'):
        m, I, outs, nm = c.go(cls, 'sim', [SELF, SI, SJ])
        for o in rets(outs):
            t = I.freeze(o.st, o.value)
            s = sums(t)
            if s is None:
                v = nm.N(t)
                if v == A.num(0) or t[0] == 'call' and t[1] in (('ext', 'numpy.zeros_like'), ('ext', 'numpy.zeros')):
                    continue
                c.r.unsure('%s: not a sum over the sources' % m.qual)
                continue
            x, ax = s
            c.r.count('obligations')
            if ax != ('c', 0):
                if ax is not None and ax[0] == 'c' and ax[1] in (1, -1, None) or ax is None:
                    c.r.add('visibility', m.qual, m.where(), 'the sum is not over the sources (axis 0)', [])
                else:
                    c.r.unsure('%s: axis of the sum' % m.qual)
                continue
            c.r.count('proved')
            k = lambda n: ('it', ('at', SELF, '_cache'), ('c', n))
            g = nm.sym(('call', ('bm', SELF, 'x.passband'), (SI, SJ), ()))
            b = nm.sym(('call', ('bm', SELF, 'x.bm_response'), (SI, SJ), ()))
            e = nm.sym(('call', ('bm', SELF, 'x.gen_phs'), (k('s_eqs'), SI, SJ), (
                ('mfreq', k('mfreq')), ('srcshape', k('s_shp')), ('ionref', k('i_ref')), ('resolve_src', ('c', True)))))
            if g is None or b is None or e is None:
                c.r.unsure('%s: names' % m.qual)
                continue
            want = A.mul(A.mul(g, b), A.mul(nm.sym(k('jys')), A.conj(e)))
            c.formula('visibility', m, nm, x, want, 'each source adds passband, beam, flux and the conjugate of its phase')
    # the flux of a source
    m, I, outs, nm = c.go('aipy.amp.RadioBody', 'update_jys', [SELF, ('p', 'afreqs')], stop=())
    for o in outs:
        t = c.attr(I, o, 'jys')
        if o.kind in ('raise',) or t is None:
            continue
        r = A.mul(mk('afreqs'), A.inv(mk('self.mfreq')))
        want = A.mul(mk('self._jys'), A.atom(('fn', 'pow', (r.key(), mk('self.index').key()))))
        c.formula('flux', m, nm, I.freeze(o.st, t), want, 'the flux is jys (freq / mfreq)^index')
    m, I, outs, nm = c.go('aipy.phs.Antenna', '_update_phsoff', [SELF], stop=())
    for o in outs:
        t = c.attr(I, o, 'phsoff')
        if t is not None and o.kind != 'raise':
            c.formula('offset', m, nm, I.freeze(o.st, t),
                      A.atom(('fn', 'polyval', (mk('self._phsoff').key(), mk('self.beam.afreqs').key()))),
                      'the offset of an antenna is its polynomial at the active frequencies')


def run(tier):
    r = report.Result()
    c = Ctx(r)
    r.rule('Baselines are position j less position i, seen through the matrix for the projection asked for; u, v, w are its components in wavelengths.')
    r.rule('The phase is exp(-2 pi i (w + refraction + offset j - offset i)), times the resolution of a disk; unphasing divides by what phasing multiplied by.')
    r.rule('Gains and beams of a baseline are those of j (second polarisation) times the conjugates of those of i (first), also from the cache.')
    r.rule('What a simulation caches is, for each quantity, that of the sources above the horizon.')
    r.rule('A visibility is the sum over sources of gain, beam, flux and conjugate phase.')
    for cls in ('aipy.phs.AntennaArray', 'aipy.amp.AntennaArray', 'aipy.fit.AntennaArray'):
        baselines(c, cls)
        uvws(c, cls)
        phases(c, cls)
        physics(c, cls)
    differences(c)
    offsets(c)
    gains(c)
    per_pol(c)
    beams(c)
    sim_cache(c)
    visibility(c)
    r.floor('obligations', 15)
    return r
