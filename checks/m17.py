"""M17: coordinate conversions agree with each other and with the code that
uses them.

Every function is read into a term (sa/absint.py) and the term into a normal
form (sa/algebra.py) over symbolic angles and vectors; each obligation is an
equality of normal forms, for all values."""
from sa import py, absint, report
from sa import algebra as A

CO = 'aipy.coord.'


def named(t):
    """parameters, attributes, constant items of them and lst are the symbols"""
    h = t[0]
    if h == 'p':
        return t[1]
    if h in ('at', 'prop') and isinstance(t[2], str):
        b = named(t[1])
        if t[2] in ('T', 'real', 'imag', 'shape', 'mask', 'size'):
            return None
        return b and '%s.%s' % (b, t[2])
    if h == 'it' and t[2][0] == 'c' and isinstance(t[2][1], int) and t[1][0] == 'p':
        return '%s[%d]' % (t[1][1], t[2][1])
    if h == 'it' and t[1][0] == 'p' and t[2][0] == 'tup' and len(t[2][1]) == 2 and \
            t[2][1][0] == ('c', Ellipsis) and t[2][1][1][0] == 'c':
        return '%s[..%d]' % (t[1][1], t[2][1][1][1])
    if h == 'call' and t[1][0] == 'at' and t[1][2] == 'sidereal_time' and not t[2]:
        return 'lst'
    return None


def sym(t):
    n = named(t)
    return A.atom(('sym', n)) if n else None


def S(n):
    return A.atom(('sym', n))


def sin(x):
    return A.trig('sin', x)


def cos(x):
    return A.trig('cos', x)


def direction(ra, dec):
    """unit vector at longitude ra, latitude dec"""
    return A.V([A.mul(cos(dec), cos(ra)), A.mul(cos(dec), sin(ra)), sin(dec)])


def sky(az, alt):
    return A.V([A.mul(cos(alt), sin(az)), A.mul(cos(alt), cos(az)), sin(alt)])


def unit(v):
    n = A.sqrt(A.dot(v, v))
    return A.V(A.mul(x, A.inv(n)) for x in v.v)


UP = A.V([A.num(0), A.num(0), A.num(1)])


class It(absint.Interp):
    """`plain`: terms that are arrays and have none of a source's attributes"""
    plain = ()

    def attr(self, b, name, st, f, depth):
        if b in self.plain and name in ('alt', 'az', 'ra', 'dec', 'map', 'ionref', 'srcshape', 'src_name'):
            return self.raise_('AttributeError', st)
        return absint.Interp.attr(self, b, name, st, f, depth)


class Ctx:
    def __init__(self, r):
        self.r = r
        self.pr = py.project()
        self.N = A.Norm(sym)

    def run(self, q, args=None, stop=(), types=None, plain=()):
        f = self.pr.fn.get(q)
        if f is None:
            self.r.unsure('%s is not there' % q)
            return None, None, []
        ps = [('p', x.arg) for x in f.node.args.args]
        if args is not None:
            ps = list(args)
        I = It(types=types or {}, stop=lambda g: g.qual in stop)
        I.plain = plain
        self.r.count('functions')
        if q not in self.r.units:
            self.r.units.append(q)
        try:
            outs = I.call_func(f, ps, {}, absint.St())
        except (absint.GaveUp, RecursionError) as e:
            self.r.unsure('%s: %s' % (q, str(e)[:80]))
            return f, I, []
        return f, I, [o for o in outs if o.kind == 'return']

    def val(self, I, o, t=None):
        t = o.value if t is None else t
        t = I.freeze(o.st, t)
        # an array whose elements were written in a loop, each from itself
        st = [e for e in o.st.eff if e[0] == 'store' and e[1][0] == 'it' and e[1][1] == t]
        if st:
            e = st[-1]
            el = I.freeze(o.st, e[2])
            one = ('p', '@element')
            el2 = absint.subst(el, {e[1]: t})
            if absint.subterm(el2, one) or len({x[1] for x in st}) > 1:
                return None
            cover = covers(e[1][2], t)
            if cover is None:
                return None
            return self.N(el2) if cover else self.N(t)
        return self.N(t)

    def parts(self, I, o, n):
        """the first n elements of what is returned"""
        return [I.freeze(o.st, I.item(o.value, ('c', k), o.st)) for k in range(n)]

    def attr(self, I, o, name, obj=('p', 'self')):
        return o.st.over.get(I.loc(('at', obj, name)))

    def equal(self, rule, f, got, want, what, path=()):
        """obligation: got == want on each branch"""
        self.r.count('obligations')
        where = f.where()
        if got is None:
            self.r.unsure('%s: %s' % (f.qual, what))
            return
        try:
            for g in A.branches(got):
                if A.same(g, want):
                    continue
                if A.odd(g):
                    self.r.unsure('%s: %s: %s' % (f.qual, what, A.short(A.odd(g)[0], 120)))
                    return
                d = first_difference(g, want)
                self.r.add(rule, f.qual, where, '%s: %s' % (what, d), list(path))
                return
        except A.Odd as e:
            self.r.unsure('%s: %s: %s' % (f.qual, what, e))
            return
        self.r.count('proved')
        self.r.sample('%s: %s' % (f.qual, what))


def first_difference(g, w):
    if isinstance(g, A.V) and isinstance(w, A.V) and len(g.v) == len(w.v):
        for k, (a, b) in enumerate(zip(g.v, w.v)):
            if not A.same(a, b):
                return 'element %d: %s' % (k, first_difference(a, b))
    return 'is %s, not %s' % (A.short(g, 200).strip("'"), A.short(w, 200).strip("'"))


def covers(k, t):
    """an element subscript of a loop over t: True if it takes every value, False if it leaves some out"""
    n = (('len', t), ('it', ('at', t, 'shape'), ('c', 0)))
    if k == ('idx', t):
        return True
    if k[0] == 'idx' and k[1][0] == 'call' and k[1][1] == ('ext', 'range'):
        a = k[1][2]
        if len(a) == 1 and a[0] in n:
            return True
        if len(a) == 1 and a[0][0] == 'lin' and len(a[0][1]) == 1 and a[0][1][0][0] in n and a[0][1][0][1] == 1 and a[0][2] < 0:
            return False
    if k[0] == 'it' and k[1][0] == 'call' and k[1][1] == ('ext', 'range') and len(k[1][2]) > 1:
        a = k[1][2]
        if a[0][0] == 'c' and isinstance(a[0][1], int) and a[0][1] > 0 or len(a) > 2 and a[2][0] == 'c' and abs(a[2][1]) != 1:
            return False
        if a[0] == ('c', 0) and a[1] in n:
            return True
    return None


def forward(c):
    """angles to vectors: the documented axes"""
    for q, want in (('thphi2xyz', lambda a, b: direction(b, A.sub(A.scale(A.PI, A.Fr(1, 2)), a))),
                    ('radec2eq', direction),
                    ('latlong2xyz', lambda a, b: direction(b, a)),
                    ('azalt2top', sky)):
        f, I, outs = c.run(CO + q)
        for o in outs:
            p = f.node.args.args[0].arg
            a, b = S('%s[0]' % p), S('%s[1]' % p)
            c.equal('direction', f, c.val(I, o), want(a, b), 'the vector of a pair of angles')
            masked(c, I, o, f)


def masked(c, I, o, f):
    """a masked result whose values were `filled` gets its mask back"""
    t = I.freeze(o.st, o.value)
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.ma.array', 'numpy.array', 'numpy.asarray'):
        filled = [x for x in walk(t[2]) if x[0] == 'at' and x[2] == 'filled']
        if not filled:
            return
        c.r.count('obligations')
        kw = dict(t[3])
        if t[1][1] != 'numpy.ma.array' or 'mask' not in kw and len(t[2]) < 3:
            c.r.add('mask-kept', f.qual, f.where(),
                    'the values of a masked array are filled and returned without the mask: masked positions '
                    'come back as valid ones', [])
        else:
            c.r.count('proved')


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def inverse(c):
    """vector -> angles -> vector is the unit vector"""
    for back, fwd in (('xyz2thphi', 'thphi2xyz'), ('eq2radec', 'radec2eq'), ('top2azalt', 'azalt2top')):
        f, I, outs = c.run(CO + back)
        for o in outs:
            masked(c, I, o, f)
            ang = c.parts(I, o, 2)
            g, J, outs2 = c.run(CO + fwd, args=[('tup', tuple(ang))])
            p = f.node.args.args[0].arg
            v = unit(A.V([S('%s[%d]' % (p, k)) for k in range(3)]))
            for o2 in outs2:
                c.equal('inverse', f, c.val(J, o2), v,
                        '%s of the angles %s gives for a vector is the vector over its length' % (fwd, back),
                        [CO + fwd])


def matrices(c):
    def top(h, d):
        return A.V([A.V([sin(h), cos(h), A.num(0)]),
                    A.V([A.neg(A.mul(sin(d), cos(h))), A.mul(sin(d), sin(h)), cos(d)]),
                    A.V([A.mul(cos(d), cos(h)), A.neg(A.mul(cos(d), sin(h))), sin(d)])])
    f, I, outs = c.run(CO + 'eq2top_m')
    for o in outs:
        h, d = (S(x.arg) for x in f.node.args.args[:2])
        m = c.val(I, o)
        c.equal('matrix', f, m, top(h, d),
                'rows are east, north and up at that hour angle and declination')
    f, I, outs = c.run(CO + 'top2eq_m')
    for o in outs:
        h, d = (S(x.arg) for x in f.node.args.args[:2])
        c.equal('matrix', f, c.val(I, o), A.transpose(top(h, d)),
                'the inverse of eq2top_m at the same hour angle and declination')
    f, I, outs = c.run(CO + 'rot_m')
    for o in outs:
        a, v = (x.arg for x in f.node.args.args[:2])
        x, y, z = (S('%s[..%d]' % (v, k)) for k in range(3))
        ca, sa = cos(S(a)), sin(S(a))
        C = A.sub(A.num(1), ca)
        vv = [x, y, z]
        cross = [[A.num(0), A.neg(z), y], [z, A.num(0), A.neg(x)], [A.neg(y), x, A.num(0)]]
        want = A.V(A.V(A.add(A.add(A.mul(C, A.mul(vv[i], vv[j])), A.mul(sa, cross[i][j])),
                             ca if i == j else A.num(0)) for j in range(3)) for i in range(3))
        c.equal('matrix', f, c.val(I, o), want, 'the right-handed rotation about the axis')


def converts(c):
    r = c.r
    # the matrix form applies convert() to each basis vector, arguments in place
    q = CO + 'convert_m'
    f, I, outs = c.run(q, stop=(CO + 'convert', CO + 'radec2eq', CO + 'eq2radec'))
    conv = c.pr.fn.get(CO + 'convert')
    for o in outs:
        if conv is None:
            break
        t = o.value
        r.count('obligations')
        cols = {}
        base = c.N(I.freeze(o.st, t))
        for e in o.st.eff:
            if e[0] == 'store' and e[1][0] == 'it' and e[1][1] == I.freeze(o.st, t) and \
                    e[1][2][0] == 'tup' and len(e[1][2][1]) == 2 and e[1][2][1][1][0] == 'c':
                cols[e[1][2][1][1][1]] = e[2]
        ident = A.V(A.V(A.num(1 if i == j else 0) for j in range(3)) for i in range(3))
        if set(cols) != {0, 1, 2} or base != ident:
            r.unsure('%s: not three columns of the identity' % q)
            continue
        bad = False
        for k, v in sorted(cols.items()):
            got = column(c, I, o, v, conv, base)
            if got is None:
                r.unsure('%s: column %d is not radec2eq(convert(basis vector))' % (q, k))
                bad = True
                break
            vec, args = got
            if vec == 'row':
                if k:
                    r.add('convert', q, f.where(), 'column %d is made from a row of the matrix being filled, not from '
                          'basis vector %d' % (k, k), [])
                    bad = True
                    break
                continue
            want = A.V(A.num(1 if i == k else 0) for i in range(3))
            if vec != want and not A.odd(vec):
                r.add('convert', q, f.where(), 'column %d is not the image of basis vector %d' % (k, k), [])
                bad = True
                break
            names = [x.arg for x in f.node.args.args]
            wrong = [(n, a) for n, a in args.items() if n in names and a != ('p', n) and a[0] == 'p']
            wrong += [(n, None) for n in names if n not in args]
            if wrong:
                r.add('convert', q, f.where(), 'the matrix is built with %s passed as %s' % (
                    wrong[0][0], wrong[0][1][1] if wrong[0][1] else 'its default'), [])
                bad = True
                break
        if not bad:
            r.count('proved')
            r.sample('%s: columns are the converted basis vectors, all four arguments in place' % q)
    # convert: the first system is built at iepoch, the second at oepoch
    q = CO + 'convert'
    f, I, outs = c.run(q)
    for o in outs:
        r.count('obligations')
        t = I.freeze(o.st, o.value)
        if not (t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'get' and t[1][1][0] == 'call'):
            r.unsure('%s: not <system>(<system>(crd), epoch).get()' % q)
            continue
        outer = t[1][1]
        inner = outer[2][0] if outer[2] else None
        if not (inner and inner[0] == 'call'):
            r.unsure('%s: not <system>(<system>(crd), epoch).get()' % q)
            continue
        probs = []
        names = [x.arg for x in f.node.args.args]
        isys, osys, ie, oe = names[1:5]
        for which, call, s, other, ep, oep in (('input', inner, isys, osys, ie, oe),
                                               ('output', outer, osys, isys, oe, ie)):
            used = {x[1] for x in walk(call[1]) if x[0] == 'p'}
            if other in used:
                probs.append('the %s coordinates are built in the system of %s' % (which, other))
            eps = dict(call[3]).get('epoch')
            if eps is None:
                if which == 'input' and len(call[2]) == 2 or which == 'output' and len(call[2]) == 1:
                    probs.append('the %s coordinates are built without their epoch' % which)
            elif ('p', oep) in list(walk(eps)):
                probs.append('the %s coordinates are built at %s' % (which, oep))
        crd = names[0]
        if len(inner[2]) >= 2:
            a0, a1 = inner[2][0], inner[2][1]
            if a0 == ('it', ('p', crd), ('c', 1)) and a1 == ('it', ('p', crd), ('c', 0)):
                probs.append('the two angles are exchanged')
        for x in probs[:1]:
            r.add('convert', q, f.where(), x, [])
        if not probs:
            r.count('proved')
    # the names of the systems
    g = c.pr.mods['aipy.coord'].globals.get('sys_dict') if hasattr(c.pr.mods['aipy.coord'], 'globals') else None
    node = g
    if node is not None and hasattr(node, 'value') and not hasattr(node, 'keys'):
        node = node.value
    if node is not None and hasattr(node, 'keys') and hasattr(node, 'values') and not callable(node.keys):
        r.count('obligations')
        want = {'eq': 'Equatorial', 'ec': 'Ecliptic', 'ga': 'Galactic'}
        bad = False
        for k, v in zip(node.keys, node.values):
            kk = getattr(k, 'value', None)
            vv = getattr(v, 'attr', None) or getattr(v, 'id', None)
            if kk in want and vv in want.values() and want[kk] != vv:
                r.add('convert', 'aipy.coord.sys_dict', 'aipy/coord.py:%d' % k.lineno,
                      "'%s' names the %s system" % (kk, vv), [])
                bad = True
        if not bad:
            r.count('proved')


def column(c, I, o, v, conv, base):
    """v = radec2eq(convert(vec, ...)): (vec, arguments by name)"""
    v = I.freeze(o.st, v)
    if not (v[0] == 'call' and v[1] == ('fn', CO + 'radec2eq') and len(v[2]) == 1):
        return None
    w = v[2][0]
    if not (w[0] == 'call' and w[1] == ('fn', CO + 'convert')):
        return None
    ps = [x.arg for x in conv.node.args.args]
    args = dict(zip(ps, w[2]))
    args.update(dict(w[3]))
    if ps[0] not in args:
        return None
    vec = args.pop(ps[0])
    if vec[0] == 'it' and vec[2][0] == 'c' and c.N(vec[1]) == base and \
            vec[1] == I.freeze(o.st, o.value):
        return 'row', args
    return c.N(vec), args


def users(c):
    """the places that build a matrix hand it the hour angle that takes what
    they look at to where they say"""
    lst = S('lst')

    def image(rule, q, want, vec, what, attr=None, args=None, need=None):
        f, I, outs = c.run(q, args=args)
        n = 0
        for o in outs:
            t = c.attr(I, o, attr) if attr else o.value
            if t is None:
                continue
            n += 1
            m = c.val(I, o, t)
            try:
                got = A.dot(m, vec) if isinstance(m, A.V) else None
            except A.Odd:
                got = None
            if got is None:
                c.r.unsure('%s: %s' % (q, what))
                continue
            c.equal(rule, f, got, want, what)
        if outs and not n:
            c.r.unsure('%s: no %s' % (q, attr))

    ra, dec = S('self.ra'), S('self.dec')
    image('source-map', 'aipy.phs.RadioBody.compute', UP, direction(A.sub(ra, lst), dec),
          "the source's direction, turned back by the sidereal time, is the w axis of its map", attr='map')
    lat = S('self.lat')
    image('zenith', 'aipy.phs.ArrayLocation._update_eq2zen', UP, direction(A.num(0), lat),
          'the meridian direction at the latitude of the array is up', attr='_eq2zen')
    d, a = S('delta'), S('alpha')
    image('rotation-now', 'aipy.phs.ArrayLocation.set_ephemtime', direction(A.sub(a, lst), d), direction(a, d),
          'a direction is turned back by the sidereal time', attr='_eq2now')
    image('zenith-now', 'aipy.amp.AntennaArray.set_ephemtime', UP, direction(lst, lat),
          'the direction at the sidereal time and the latitude is up', attr='eq2top_m')
    az, alt = S('az'), S('alt')
    for at in ('rot_pol_x', 'rot_pol_y'):
        image('pointing', 'aipy.amp.Antenna.set_pointing', UP, sky(az, alt),
              'the direction the antenna points at is the beam axis (%s)' % at, attr=at)
        # looking down the axis, the beam is turned by the twist, right-handed
        f, I, outs = c.run('aipy.amp.Antenna.set_pointing')
        for o in outs:
            t = c.attr(I, o, at)
            m = c.val(I, o, t) if t is not None else None
            if not (isinstance(m, A.V) and len(m.v) == 3 and all(isinstance(x, A.V) for x in m.v)):
                continue
            w = S('twist')
            m0 = A.replace_angle(m, w, A.num(0), A.num(1))
            s, k = sin(w), cos(w)
            want = A.V([A.add(A.mul(k, m0.v[0]), A.mul(s, m0.v[1])),
                        A.sub(A.mul(k, m0.v[1]), A.mul(s, m0.v[0])), m0.v[2]])
            c.equal('pointing', f, m, want, 'the twist turns the beam about its axis, right-handed (%s)' % at)
    # the second polarisation is the first turned by a quarter circle
    f, I, outs = c.run('aipy.amp.Antenna.set_pointing')
    for o in outs:
        x, y = c.attr(I, o, 'rot_pol_x'), c.attr(I, o, 'rot_pol_y')
        if x is None or y is None:
            continue
        mx, my = c.val(I, o, x), c.val(I, o, y)
        if not (isinstance(mx, A.V) and isinstance(my, A.V) and len(mx.v) == 3):
            c.r.unsure('set_pointing: rotation matrices')
            continue
        c.equal('pointing', f, my, A.V([mx.v[1], A.neg(mx.v[0]), mx.v[2]]),
                'polarisation y is polarisation x turned by +pi/2')
    # get_crds
    for sysn, want3, w2 in (('eq', direction(ra, dec), A.V([ra, dec])),
                            ('top', sky(S('self.az'), S('self.alt')), A.V([S('self.az'), S('self.alt')]))):
        for n, want in ((3, want3), (2, w2)):
            f, I, outs = c.run('aipy.phs.RadioBody.get_crds', args=[('p', 'self'), ('c', sysn), ('c', n)])
            for o in outs:
                c.equal('get-crds', f, c.val(I, o), want, "get_crds('%s', %d)" % (sysn, n))
    # a direction given as a vector
    f, I, outs = c.run('aipy.phs.AntennaArray.get_baseline', args=[('p', 'self'), ('p', 'i'), ('p', 'j'), ('p', 'src')],
                       plain=(('p', 'src'),))
    n = 0
    for o in outs:
        t = I.freeze(o.st, o.value)
        m = matrix_of(t)
        if m is None or any(x[0] == 'at' and x[2] in ('_eq2now', '_eq2zen', 'map') for x in walk(m)):
            continue
        mm = c.val(I, o, m)
        v = A.V([S('src[%d]' % k) for k in range(3)])
        # turn the direction back by lst: (x cos + y sin, -x sin + y cos, z)
        w = unit(v)
        turned = A.V([A.add(A.mul(w.v[0], cos(lst)), A.mul(w.v[1], sin(lst))),
                      A.sub(A.mul(w.v[1], cos(lst)), A.mul(w.v[0], sin(lst))), w.v[2]])
        if not isinstance(mm, A.V):
            c.r.unsure('get_baseline: projection towards a vector')
            continue
        n += 1
        try:
            got = A.dot(mm, turned)
        except A.Odd:
            c.r.unsure('get_baseline: projection towards a vector')
            continue
        c.equal('source-map', f, got, UP, 'a direction given as an equatorial vector is the w axis of its projection')
    if outs and not n:
        c.r.unsure('get_baseline: projection towards a vector')
    # image coordinates
    f, I, outs = c.run('aipy.img.Img.get_eq', stop=('aipy.img.Img.get_top', 'aipy.img.Img.get_LM'))
    for o in outs:
        t = I.freeze(o.st, o.value)
        ms = {x[2][0] for x in walk(t) if x[0] == 'call' and x[1] == ('ext', 'numpy.dot') and len(x[2]) == 2}
        for m in ms:
            mm = c.val(I, o, m)
            if not isinstance(mm, A.V) or not all(isinstance(z, A.V) for z in mm.v):
                c.r.unsure('get_eq: matrix')
                continue
            c.equal('image-centre', f, A.dot(mm, UP), direction(S('ra'), S('dec')),
                    'the centre of the image is the given ra, dec')


def matrix_of(t):
    """M of dot(M, bl), transposed or not"""
    while t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('transpose', 'squeeze'):
        t = t[1][1]
    if t[0] == 'at' and t[2] == 'T':
        return matrix_of(t[1])
    if t[0] == 'call' and t[1] in (('ext', 'numpy.dot'), ('ext', 'numpy.matmul')) and len(t[2]) == 2:
        return t[2][0]
    if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'dot' and len(t[2]) == 1:
        return t[1][1]
    return None


def run(tier):
    r = report.Result()
    c = Ctx(r)
    r.rule('angles to vectors follow the documented axes')
    r.rule('vector to angles to vector is the identity on unit vectors')
    r.rule('eq2top_m, top2eq_m and rot_m are the stated rotations')
    r.rule('each caller gives the hour angle that puts its direction where it says')
    forward(c)
    inverse(c)
    matrices(c)
    converts(c)
    users(c)
    r.floor('obligations', 12)
    return r
