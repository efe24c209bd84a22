"""M18: maps and images keep every sample with its weight, its place and the
order of its pixels.

The methods of Map, HealpixMap and Img/ImgW are read into terms (sa/absint.py):
what each stores where, what it reads from where, which native gridding call
gets which arrays.  The terms are compared with what the sum of samples, the
weighted mean and the pixel orders require."""
from sa import absint, report
from sa import algebra as A
from checks import m16, m17

SELF = ('p', 'self')
CRDS = ('p', 'crds')
NONE = ('c', None)
ALL = ('sl', NONE, NONE, NONE)
MAPS = {'wgt': ('at', SELF, 'wgt'), 'map': ('at', SELF, 'map')}
UVW = ('tup', (('p', 'u'), ('p', 'v'), ('p', 'w')))


class Ctx(m17.Ctx):
    def __init__(self, r):
        m17.Ctx.__init__(self, r)
        self.classes = {c.qual: c for c in self.pr.all_classes()}

    def go(self, cls, meth, args, stop=(), given=(), func=None):
        c = self.classes.get(cls)
        m = self.pr.method(c, meth) if c else None
        if m is None:
            self.r.unsure('%s has no %s' % (cls, meth))
            return None, None, []
        I = m16.It(types={SELF: c}, stop=lambda g: g.qual in stop or g.name in stop and g.name != meth, given=given)
        I.plain = ()
        self.r.count('functions')
        self.r.units.append('%s.%s' % (cls, meth))
        try:
            outs = I.call_func(m, args, {}, absint.St())
        except (absint.GaveUp, RecursionError) as e:
            self.r.unsure('%s: %s' % (m.qual, str(e)[:80]))
            return m, I, []
        return m, I, [o for o in outs if o.kind in ('return', 'next')]

    def bad(self, rule, m, text):
        self.r.count('obligations')
        self.r.add(rule, m.qual, m.where(), text, [])

    def ok(self, m=None, text=None):
        self.r.count('obligations')
        self.r.count('proved')
        if text:
            self.r.sample('%s: %s' % (m.qual, text))

    def dunno(self, m, text):
        self.r.count('obligations')
        self.r.unsure('%s: %s' % (m.qual, text))

    def same(self, rule, m, nf, got, want, text):
        """equality of two terms or normal forms"""
        try:
            g = got if isinstance(got, (A.P, A.V)) else nf(got)
            w = want if isinstance(want, (A.P, A.V)) else nf(want)
            if A.same(g, w):
                return self.ok(m, text)
            o = A.odd(g)
            if o:
                return self.dunno(m, '%s: %s' % (text, A.short(o[0], 100)))
            self.bad(rule, m, '%s: is %s' % (text, A.show(g, 300)))
        except A.Odd as e:
            self.dunno(m, '%s: %s' % (text, e))


def effs(I, o):
    """effects with their terms written out, index variables made plain"""
    return [canon(e[:1] + tuple(I.freeze(o.st, x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                tuple(I.freeze(o.st, y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x)
                                if isinstance(x, tuple) else x for x in e[1:])) for e in o.st.eff]


def canon(t):
    """the variable of a loop over one of the lists of planes is `n`; copies and
    conversions of type are dropped"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'idx':
        return ('idx', 'n')
    t = tuple(canon(x) for x in t)
    if t[:1] == ('call',) and len(t) == 4 and t[1][0] == 'at' and t[1][2] in ('astype', 'copy'):
        return t[1][1]
    return t


def idxs(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == 'idx':
            out.add(t)
        else:
            for x in t:
                idxs(x, out)
    return out


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def normal(names):
    """a normal form in which the given terms are symbols"""
    def sym(t):
        if t in names:
            return A.atom(('sym', names[t]))
        return None
    return A.Norm(sym, lambda nm, t: None)


IND = ('it', ('at', SELF, 'ind'), ('idx', 'n'))
VAL = ('it', ('p', 'inds'), ('idx', 'n'))
PLANES = {'weights': MAPS['wgt'], 'map': MAPS['map'], 'index': IND}


def constructed(t):
    return t[0] == 'call' and t[1][0] == 'cls' and t[1][1].endswith('HealpixMap')


def deposits(c, m, I, o):
    """plane -> list of (how, value): what a method leaves in each plane at crds"""
    dep, out = {}, {k: [] for k in PLANES}
    which = {v: k for k, v in PLANES.items()}
    for e in effs(I, o):
        if e[0] == 'call' and e[1] == ('ext', 'numpy.add.at') and len(e[2]) == 3:
            for k, p in PLANES.items():
                if e[2][0] == ('at', p, 'map'):
                    px = e[2][1]
                    ok = px == CRDS or px[0] == 'call' and contains(px, p) and contains(px, CRDS)
                    out[k].append(('added' if ok else '?', e[2][2]))
        if e[0] != 'store':
            continue
        to, v = e[1], e[2]
        if to[0] == 'it' and to[2] == CRDS:
            if constructed(to[1]):
                dep[to[1]] = v
            elif to[1] in which:
                out[which[to[1]]].append(('set', v))
        elif to[0] == 'at' and to[2] == 'map' and to[1] in which:
            p = to[1]
            new = [x for x in dep if contains(v, ('at', x, 'map'))]
            if len(new) == 1:
                nf = normal({('at', p, 'map'): 'OLD', ('at', new[0], 'map'): 'NEW'})
                kw = dict(new[0][3])
                scheme = kw.get('scheme')
                alike = scheme is not None and scheme[0] == 'call' and scheme[1][0] == 'at' and scheme[1][2] == 'scheme' or \
                    scheme is not None and scheme[0] == 'at' and scheme[2] == '_scheme' or new[0][2]
                s = nf(v)
                if not new[0][2] and 'scheme' not in kw and all(isinstance(x, str) for x in kw):
                    out[which[p]].append(('ring', v))
                elif s == A.add(A.atom(('sym', 'OLD')), A.atom(('sym', 'NEW'))) and alike:
                    out[which[p]].append(('added', dep[new[0]]))
                elif s == A.atom(('sym', 'NEW')):
                    out[which[p]].append(('replaced', dep[new[0]]))
                elif not A.odd(s) and alike:
                    out[which[p]].append(('wrong', s))
                else:
                    out[which[p]].append(('?', v))
            else:
                out[which[p]].append(('?', v))
    return out


def map_class(c):
    cls = 'aipy.map.Map'
    for meth in ('add', 'put'):
        m, I, outs = c.go(cls, meth, [SELF, CRDS, ('p', 'wgts'), ('p', 'fluxes'), ('p', 'inds')])
        for o in outs:
            if len({i for e in o.st.eff for i in idxs(e)}) > 1:
                c.dunno(m, 'loops over the spectral indices')
                continue
            d = deposits(c, m, I, o)
            read = {('it', p, CRDS): 'old ' + k for k, p in PLANES.items()}
            base = {('p', 'wgts'): 'wgts', ('p', 'fluxes'): 'fluxes', VAL: 'index'}
            nf = normal({**read, **base})
            w = A.atom(('sym', 'wgts'))
            want = {'weights': w, 'map': A.mul(A.atom(('sym', 'fluxes')), w), 'index': A.mul(A.atom(('sym', 'index')), w)}
            for k in PLANES:
                if not d[k]:
                    if k != 'index' and not any(contains(e, PLANES[k]) for e in effs(I, o)):
                        c.bad('samples', m, 'nothing is put in the %s plane' % k)
                    else:
                        c.dunno(m, 'what is put in the %s plane' % k)
                    continue
                if len(d[k]) > 1 or d[k][0][0] == '?':
                    c.dunno(m, 'what is put in the %s plane' % k)
                    continue
                how, v = d[k][0]
                own = ('it', PLANES[k], CRDS)
                if how in ('ring', 'wrong'):
                    c.bad('samples', m, 'the samples for the %s plane are %s' % (
                        k, 'summed in RING order whatever the order of the map' if how == 'ring' else 'not added: ' + A.show(v)))
                    continue
                if meth == 'add' and how == 'replaced':
                    c.bad('samples', m, 'the %s plane is overwritten' % k)
                    continue
                if meth == 'add' and how == 'set':
                    if contains(v, own):
                        c.bad('samples', m, 'the %s plane gets its old content back once for each of the samples that share a pixel' % k)
                    else:
                        c.bad('samples', m, 'the %s plane is overwritten' % k)
                    continue
                if meth == 'put' and how != 'set':
                    c.dunno(m, 'what is put in the %s plane' % k)
                    continue
                c.same('samples', m, nf, v, want[k], '%s puts %s in the %s plane' % (meth, A.show(want[k]), k))
    m, I, outs = c.go(cls, 'get', [SELF, CRDS])
    for o in outs:
        v = canon(I.freeze(o.st, o.value))
        want = [('it', MAPS['wgt'], CRDS), ('it', MAPS['map'], CRDS)]
        if v[0] == 'tup' and len(v[1]) == 3:
            for k, (g, w) in enumerate(zip(v[1], want)):
                if g == w:
                    c.ok(m, 'returns weights, sums, indices')
                elif g in want:
                    c.bad('mean', m, 'get returns the planes in another order')
                else:
                    c.dunno(m, 'what is returned')
        else:
            c.dunno(m, 'what is returned')
    # the mean
    m, I, outs = c.go(cls, '__getitem__', [SELF, CRDS])
    names = {('it', p, CRDS): k for k, p in PLANES.items()}
    for o in outs:
        v = canon(I.freeze(o.st, o.value))
        xs = list(v[1]) if v[0] == 'tup' else [v]
        for x, k in zip(xs, ('map', 'index')):
            if x[0] == 'mapped':
                x = x[2]
            mean(c, m, normal(names), x, k, A.atom(('sym', 'weights')), A.atom(('sym', k)))
    # weights reset, means kept
    m, I, outs = c.go(cls, 'reset_wgt', [SELF, ('p', 'wgt')])
    names = {('at', p, 'map'): k for k, p in PLANES.items()}
    names[('p', 'wgt')] = 'new'
    nf = normal(names)
    W, NEW = A.atom(('sym', 'weights')), A.atom(('sym', 'new'))
    for o in outs:
        last = {}
        for e in effs(I, o):
            if e[0] == 'store' and e[1] in names:
                last[names[e[1]]] = e[2]
        if not {'weights', 'map', 'index'} <= set(last):
            strange = any(contains(e, ('idx', 'n')) and not contains(e, IND) for e in effs(I, o))
            for k in () if strange else PLANES:
                if k in last:
                    continue
                if not any(contains(e, PLANES[k] if k != 'index' else ('at', SELF, 'ind')) and e[0] in ('store', 'aug', 'call') and e[1] != ('ext', 'numpy.where')
                           for e in effs(I, o)):
                    c.bad('mean', m, 'the %s plane is left as it was' % k)
                else:
                    c.dunno(m, 'the planes after a reset')
            if strange:
                c.dunno(m, 'the planes after a reset')
            continue
        for k in ('map', 'index'):
            for on in (True, False):
                w1, x1 = at(nf(last['weights']), W, on), at(nf(last[k]), W, on)
                if isinstance(w1, str) or isinstance(x1, str):
                    c.bad('mean', m, 'whether a pixel has weight is decided by ' + (w1 if isinstance(w1, str) else x1))
                elif w1 is None or x1 is None:
                    c.dunno(m, 'the %s plane after a reset' % k)
                elif on:
                    c.same('mean', m, nf, A.mul(x1, W), A.mul(A.atom(('sym', k)), w1), 'the mean of the %s plane is kept where there is weight' % k)
                elif not A.odd(w1):
                    c.same('mean', m, nf, w1, A.num(0), 'a pixel without weight stays without')
    # one map from another, plane by plane
    m, I, outs = c.go(cls, 'from_map', [SELF, ('p', 'map')])
    for o in outs:
        pairs_of(c, m, [(e[1][1], e[2][0]) for e in effs(I, o) if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'from_hpm' and len(e[2]) == 1],
                 lambda p: replaced(p, SELF, ('p', 'map')), 'planes', 'is filled from')
    m, I, outs = c.go(cls, 'set_interpol', [SELF, ('p', 'onoff')])
    for o in outs:
        es = effs(I, o)
        for k, p in PLANES.items():
            got = [e for e in es if e[0] == 'store' and e[1] in (('prop', p, 'interpol'), ('at', p, '_use_interpol'))]
            if got and all(e[2] == ('p', 'onoff') for e in got):
                c.ok(m, 'interpolation is switched for the %s plane' % k)
            elif got and any(e[2][0] == 'c' for e in got):
                c.bad('planes', m, 'interpolation of the %s plane is set to %s' % (k, got[0][2][1]))
            elif not any(contains(e, p) for e in es) and not any(contains(e, ('idx', 'n')) and not contains(e, IND) for e in es):
                c.bad('planes', m, 'interpolation is not switched for the %s plane' % k)
            else:
                c.dunno(m, 'interpolation of the %s plane' % k)
    columns(c, cls)


def replaced(t, a, b):
    if t == a:
        return b
    return tuple(replaced(x, a, b) for x in t) if isinstance(t, tuple) else t


def pairs_of(c, m, pairs, want, rule, verb):
    seen = {}
    for a, b in pairs:
        for k, p in PLANES.items():
            if a == p:
                seen[k] = b
    for k, p in PLANES.items():
        if k not in seen:
            c.dunno(m, 'the %s plane' % k)
        elif seen[k] == want(p):
            c.ok(m, 'the %s plane %s its own counterpart' % (k, verb))
        elif seen[k] in [want(q) for q in PLANES.values()] or k == 'index' and seen[k][:2] == want(p)[:2] and seen[k][2][0] == 'c':
            c.bad(rule, m, 'the %s plane %s another plane' % (k, verb))
        else:
            c.dunno(m, 'the %s plane' % k)


def at(v, w, on):
    """v where the weight w is positive, or is not; None: cannot say"""
    for _ in range(4):
        ws = A.wheres(v)
        if not ws:
            return v
        cond = ws[0][1]
        if cond[0] != 'cmp':
            return None
        a, b, op = cond[2], cond[3], cond[1]
        if a in (('c', 0), ('c', 0.0)):
            a, b, op = b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        planes = [f for p in PLANES.values() for f in (('at', p, 'map'), ('it', p, CRDS))]
        mine = a in (('at', MAPS['wgt'], 'map'), ('it', MAPS['wgt'], CRDS))
        if a in planes and b in (('c', 0), ('c', 0.0)) and not mine:
            return 'another plane than the weights'
        if mine and b[0] == 'c' and isinstance(b[1], (int, float)) and abs(b[1]) > .001:
            return 'a comparison of the weights with %s' % b[1]
        if b not in (('c', 0), ('c', 0.0)) or op not in ('Gt', 'LtE', 'NotEq', 'Eq') or A.atom(('sym', 'weights')) != w:
            return None
        if a not in (('at', MAPS['wgt'], 'map'), ('it', MAPS['wgt'], CRDS)):
            return None
        yes = on if op in ('Gt', 'NotEq') else not on
        v = A.replace(v, ws[0], A.unkey(ws[0][2 if yes else 3]))
    return None


def mean(c, m, nf, t, k, w, x):
    v = nf(t)
    for on in (True, False):
        g = at(v, w, on)
        if isinstance(g, str):
            c.bad('mean', m, 'whether a pixel has weight is decided by ' + g)
        elif g is None:
            c.dunno(m, 'the mean of the %s plane' % k)
        elif on:
            c.same('mean', m, nf, A.mul(g, w), x, 'the mean is the %s plane over the weights' % k)
        else:
            c.same('mean', m, nf, g, x, 'without weight the %s plane is returned' % k)


def columns(c, cls):
    m, I, outs = c.go(cls, 'to_fits', [SELF, ('p', 'filename')])
    want = [('at', MAPS['map'], 'map'), ('at', MAPS['wgt'], 'map')]
    for o in outs[:1]:
        for e in effs(I, o):
            if e[0] != 'call' or e[1][0] != 'ext' or not e[1][1].endswith('.ColDefs') or not e[2]:
                continue
            t = e[2][0]
            while t[0] == 'op' and t[1] == 'Add':
                t = t[2]
            cols = [dict(x[3]).get('array') if x[0] == 'call' else None for x in t[1]] if t[0] == 'list' else []
            for k, (a, w) in enumerate(zip(cols, want)):
                if a == w:
                    c.ok(m, 'column %d' % k)
                elif a in want:
                    c.bad('columns', m, 'column %d holds the plane that is read from another' % k)
                else:
                    c.dunno(m, 'column %d' % k)
    m, I, outs = c.go(cls, 'from_fits', [SELF, ('p', 'filename'), ('p', 'hdunum')])
    for o in outs:
        es = effs(I, o)
        for e in es:
            if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'from_fits':
                col = dict(e[3]).get('colnum', e[2][2] if len(e[2]) > 2 else ('c', 0))
                for k, p in enumerate((MAPS['map'], MAPS['wgt'])):
                    if e[1][1] == p:
                        if col == ('c', k):
                            c.ok(m, 'column %d' % k)
                        elif col[0] == 'c':
                            c.bad('columns', m, 'the %s is read from column %s' % (('map', 'weights')[k], col[1]))
                        else:
                            c.dunno(m, 'column %d' % k)
        keep = [e for e in es if e[0] in ('store', 'call') and contains(e, ('at', SELF, 'ind'))]
        fresh = any(e[0] == 'store' and e[1] == ('at', SELF, 'ind') and not contains(e[2], ('at', SELF, 'ind')) for e in keep)
        grown = any(e[0] == 'call' and e[1] in (('at', ('at', SELF, 'ind'), 'append'), ('at', ('at', SELF, 'ind'), 'extend')) for e in keep)
        if fresh:
            c.ok(m, 'the indices are those of the file')
        elif grown:
            c.bad('columns', m, 'the spectral indices read are appended to those the map had before')
        else:
            c.dunno(m, 'the spectral indices read')


# ------------------------------------------------------------------ pixels
def healpix(c):
    base, hm = 'aipy.healpix.HealpixBase', 'aipy.healpix.HealpixMap'
    SCH, NSIDE, PX = ('at', SELF, '_scheme'), ('at', SELF, '_nside'), ('p', 'px')
    conv = {'NEST': 'healpy.ring2nest', 'RING': 'healpy.nest2ring'}
    for s in conv:
        m, I, outs = c.go(base, 'nest_ring_conv', [SELF, PX, ('c', s)])
        for o in outs:
            v = canon(I.freeze(o.st, o.value))
            is_s = None
            for k, b in o.st.conds.items():
                if k[0] == 'cmp' and set(k[2:]) == {SCH, ('c', s)} and k[1] in ('Eq', 'NotEq'):
                    is_s = b == (k[1] == 'Eq')
            if is_s is None:
                c.dunno(m, 'the scheme converted to')
            elif is_s and v == PX or not is_s and v[0] == 'call' and v[1] == ('ext', conv[s]) and list(v[2]) == [NSIDE, PX]:
                c.ok(m, 'pixel numbers are converted to %s' % s)
            elif v == PX or v[0] == 'call' and v[1][0] == 'ext' and v[1][1] in conv.values():
                c.bad('order', m, 'pixel numbers %s are %s' % (
                    'already in %s' % s if is_s else 'asked for in %s' % s, 'not converted' if v == PX else 'converted by ' + v[1][1]))
            else:
                c.dunno(m, 'the conversion')
    # coordinates and pixels
    c1, c2, c3 = (('p', x) for x in ('c1', 'c2', 'c3'))
    calls = {'healpy.ang2pix': (NSIDE, c1, c2), 'healpy.vec2pix': (NSIDE, c1, c2, c3), 'healpy.pix2ang': (NSIDE, PX),
             'healpy.pix2vec': (NSIDE, PX)}

    def nested(o, kw, args, n):
        f = kw.get('nest', args[n] if len(args) > n else ('c', False))
        if f[0] == 'cmp' and SCH in f[2:] and f[1] in ('Eq', 'NotEq'):
            o2 = [x for x in f[2:] if x != SCH]
            if len(o2) == 1 and o2[0][0] == 'c' and o2[0][1] in conv:
                return (o2[0][1] == 'NEST') == (f[1] == 'Eq')
        if f[0] == 'c':
            for k, b in o.st.conds.items():
                if k[0] == 'cmp' and SCH in k[2:] and k[1] in ('Eq', 'NotEq'):
                    o2 = [x for x in k[2:] if x != SCH][0]
                    if o2[0] == 'c' and o2[1] in conv:
                        return ((o2[1] == 'NEST') == (b == (k[1] == 'Eq'))) == bool(f[1])
            return False
        return None

    for meth, cases in (('crd2px', ([c1, c2, NONE, ('c', False)], [c1, c2, c3, ('c', False)], [c1, c2, NONE, ('c', True)], [c1, c2, c3, ('c', True)])),
                        ('px2crd', ([PX, ('c', 2)], [PX, ('c', 3)]))):
        for args in cases:
            m, I, outs = c.go(base, meth, [SELF] + args, given=(c3,))
            for o in outs:
                v = canon(I.freeze(o.st, o.value))
                es = [x for x in m17.walk(v) if isinstance(x, tuple) and x[:1] == ('call',) and len(x) == 4 and x[1][0] == 'ext' and x[1][1].startswith('healpy.')]
                for e in set(es):
                    fn, kw = e[1][1], dict(e[3])
                    want = calls.get(fn)
                    if fn == 'healpy.get_interp_weights':
                        if args[2] == NONE:
                            want = (NSIDE, c1, c2)
                        else:
                            ang = e[2][1][1] if len(e[2]) == 3 and e[2][1][0] == 'it' else None
                            want = ang and (NSIDE, ('it', ang, ('c', 0)), ('it', ang, ('c', 1)))
                    if want is None or fn == 'healpy.vec2ang':
                        continue
                    got = tuple(e[2][:len(want)])
                    nest = nested(o, kw, e[2], len(want))
                    if got != want:
                        if set(got) == set(want):
                            c.bad('order', m, '%s is given its arguments in another order' % fn)
                        else:
                            c.dunno(m, 'the arguments of %s' % fn)
                    elif nest is None:
                        c.dunno(m, 'the pixel order given to %s' % fn)
                    elif nest:
                        c.ok(m, '%s in the scheme of the map' % fn)
                    else:
                        c.bad('order', m, '%s does not use the scheme of the map' % fn)
                # which one is called
                fns = {e[1][1] for e in es}
                need = {'crd2px': {(True, False): 'healpy.ang2pix', (False, False): 'healpy.vec2pix'}.get(
                    (args[2] == NONE, args[3][1]) if meth == 'crd2px' else None), 'px2crd': {2: 'healpy.pix2ang', 3: 'healpy.pix2vec'}.get(args[1][1])}[meth]
                if need and need not in fns:
                    if fns & set(calls):
                        c.bad('order', m, '%s where %s is asked for' % (sorted(fns)[0], need))
                    else:
                        c.dunno(m, 'the call of healpy')
    # the order of the pixels of a whole map
    npix = [('call', ('ext', 'healpy.nside2npix'), (NSIDE,), ())]
    MAP = ('at', SELF, 'map')

    def every(t):
        return t[0] == 'call' and t[1] == ('ext', 'numpy.arange') and len(t[2]) == 1 and (t[2][0] in npix or t[2][0] in (
            ('at', MAP, 'size'), ('len', MAP), ('it', ('at', MAP, 'shape'), ('c', 0))))

    def converted(t, to):
        """pixel numbers of every pixel of this map, converted to a scheme"""
        return t[0] == 'call' and t[1][-1].endswith('nest_ring_conv') and len(t[2]) >= 2 and every(t[2][-2]) and t[2][-1] == to

    m, I, outs = c.go(hm, 'change_scheme', [SELF, ('p', 'scheme')], stop=('nest_ring_conv',))
    for o in outs:
        es = effs(I, o)
        if any(k[0] == 'cmp' and k[1] in ('Eq', 'NotEq') and set(k[2:]) == {SCH, ('p', 'scheme')} and b == (k[1] == 'Eq') for k, b in o.st.conds.items()):
            if any(e[0] == 'store' and (e[1] == MAP or e[1][:2] == ('it', SELF)) for e in es):
                c.dunno(m, 'a map already in the scheme')
            continue
        if any(k[0] == 'cmp' and k[1] in ('Is', 'IsNot') and set(k[2:]) == {NONE, ('p', 'scheme')} and b == (k[1] == 'Is') for k, b in o.st.conds.items()):
            continue        # not a scheme
        first = [n for n, e in enumerate(es) if e[0] == 'call' and e[1][-1] == hm.replace('Map', 'Base') + '.nest_ring_conv' or e[0] == 'call' and str(e[1][-1]).endswith('nest_ring_conv')]
        marked = [n for n, e in enumerate(es) if e[0] == 'store' and e[1] == SCH]
        moved = [e for e in es if e[0] == 'store' and (e[1][:2] in (('it', SELF), ('it', MAP)) or e[1] == MAP)]
        if not marked:
            c.bad('order', m, 'the scheme of the map stays as it was')
        elif first and min(marked) < min(first) and es[min(first)][2][-1] == ('p', 'scheme'):
            c.bad('order', m, 'the scheme is changed before the pixel numbers are converted, so that they are not')
        elif es[marked[-1]][2] == ('p', 'scheme'):
            c.ok(m, 'the scheme is that asked for')
        else:
            c.dunno(m, 'the scheme set')
        if not moved:
            c.bad('order', m, 'the pixels are not moved')
        for e in moved:
            if e[1][0] == 'it' and converted(e[1][2], ('p', 'scheme')) and e[2] in (MAP, ('it', MAP, ALL)):
                c.ok(m, 'each pixel is moved to its number in the other scheme')
            elif e[1] == MAP and e[2][0] == 'it' and e[2][1] == MAP and converted(e[2][2], ('p', 'scheme')):
                c.bad('order', m, 'each pixel is taken from its number in the other scheme, not moved to it')
            else:
                c.dunno(m, 'how the pixels are moved')
    HPM = ('p', 'hpm')
    m, I, outs = c.go(hm, 'from_hpm', [SELF, HPM], stop=('nest_ring_conv',))
    theirs = ('call', ('at', HPM, 'scheme'), (), ())
    for o in outs:
        rel = {}
        for k, b in o.st.conds.items():
            if k[0] == 'cmp' and any(contains(x, HPM) for x in k[2:]):
                sch = any(x == theirs or x == ('at', HPM, '_scheme') for x in k[2:])
                op = k[1]
                if not contains(k[2], HPM):
                    op = {'Lt': 'Gt', 'Gt': 'Lt'}.get(op, op)
                rel[(op, sch)] = b
        if rel.get(('Lt', False)) is not False or rel.get(('Gt', False)) is not False:
            continue
        alike = rel.get(('Eq', True), None if ('NotEq', True) not in rel else not rel[('NotEq', True)])
        st = [e for e in effs(I, o) if e[0] == 'store' and e[1] == MAP]
        if alike is None and len(st) == 1 and st[0][2] == ('at', HPM, 'map') and not any(
                contains(k, theirs) or contains(k, ('at', HPM, '_scheme')) or contains(k, SCH) for k in o.st.conds):
            c.bad('order', m, 'the pixels of a map are taken as they are whatever its scheme')
            continue
        if alike is None or len(st) != 1:
            c.dunno(m, 'a map of the same size')
            continue
        v = st[0][2]
        hmap = ('at', HPM, 'map')
        if alike and v == hmap or not alike and v[0] == 'it' and v[1] == hmap and (converted(v[2], theirs) or converted(v[2], ('at', HPM, '_scheme'))):
            c.ok(m, 'each pixel is taken from its number in the %s' % ('same scheme' if alike else "other map's scheme"))
        elif v == hmap:
            c.bad('order', m, 'the pixels of a map in another scheme are taken as they are')
        elif v[0] == 'it' and v[1] == hmap and (alike and converted(v[2], theirs) is False and v[2][0] == 'call' or converted(v[2], SCH) or
                                               v[2][0] == 'call' and v[2][1][0] == 'at' and v[2][1][1] == HPM):
            c.bad('order', m, 'the pixels of a map are taken from numbers in the wrong scheme')
        else:
            c.dunno(m, 'a map of the same size')


# ------------------------------------------------------------------ images
def nodsp(o):
    return any(k[0] == 'g' and k[2] == 'USEDSP' and not b for k, b in o.st.conds.items())


def images(c):
    cls = 'aipy.img.Img'
    u, v, w = (('p', x) for x in 'uvw')
    RES, SH = ('at', SELF, 'res'), ('at', SELF, 'shape')
    nf = normal({u: 'u', v: 'v', w: 'w', RES: 'res', ('at', SELF, 'size'): 'size'})
    U, V, W, R = (A.atom(('sym', x)) for x in ('u', 'v', 'w', 'res'))
    m, I, outs = c.go(cls, 'get_indices', [SELF, u, v])
    for o in outs:
        if nodsp(o):
            continue
        c.same('grid', m, nf, canon(I.freeze(o.st, o.value)), A.V([A.neg(A.mul(V, A.inv(R))), A.mul(U, A.inv(R))]),
               'the row of a sample is -v / res, its column u / res')
    # gridding: the same place for the sum and the weights
    for ap in (True, False):
        m, I, outs = c.go(cls, 'put', [SELF, UVW, ('p', 'data'), ('p', 'wgts'), ('c', ap)], stop=('get_indices',), given=(('p', 'wgts'),))
        for o in outs:
            if nodsp(o):
                continue
            es = effs(I, o)
            calls = [e for e in es if e[0] == 'call' and e[1][0] == 'ext' and e[1][1].endswith('grid2D_c') and len(e[2]) >= 4]
            if not calls:
                c.dunno(m, 'gridding')
            out = canon(I.freeze(o.st, o.value)) if o.value else NONE
            for e in calls:
                buf, a, b, d = e[2][:4]
                idx = a[1] if a[0] == 'it' else None
                if idx is not None and idx[0] == 'call' and idx[1][-1].endswith('get_indices') and \
                        idx[2][-2:] == (u, v) and (a[2], b) == (('c', 0), ('it', idx, ('c', 1))):
                    c.ok(m, 'gridded at the indices of u, v')
                elif idx is not None and idx[0] == 'call' and idx[1][-1].endswith('get_indices') and b[0] == 'it' and b[1] == idx:
                    c.bad('grid', m, 'samples are gridded at indices (%s, %s)' % (a[2][1], b[2][1]))
                else:
                    c.dunno(m, 'the indices gridded at')
                isbm = contains(buf, ('at', SELF, 'bm'))
                isuv = contains(buf, ('at', SELF, 'uv'))
                if isbm == isuv:
                    c.dunno(m, 'the plane gridded to')
                    continue
                if isbm and buf == ('it', ('at', SELF, 'bm'), ('c', 0)) and contains(d, ('idx', 'n')):
                    c.bad('grid', m, 'the weights of every term are gridded to the same plane')
                elif d == ('p', 'data') and isuv or isbm and contains(d, ('p', 'wgts')) and not contains(d, ('p', 'data')):
                    c.ok(m, 'data go to the uv plane, weights to the beam')
                elif d == ('p', 'data') or contains(d, ('p', 'wgts')) and not contains(d, ('p', 'data')):
                    c.bad('grid', m, '%s are gridded to the %s' % (('data', 'beam') if isbm else ('weights', 'uv plane')))
                else:
                    c.dunno(m, 'what is gridded')
                if ap is False and buf in (('at', SELF, 'uv'), ('it', ('at', SELF, 'bm'), ('idx', 'n'))):
                    c.bad('grid', m, 'samples are put in the image although they are not to be')
                if ap is True and buf[0] == 'call' and buf[1][0] == 'ext' and 'zeros' in buf[1][1]:
                    c.bad('grid', m, 'samples are put in a scratch plane')
            if not ap and out[0] == 'tup' and len(out[1]) == 2:
                if contains(out[1][0], ('at', SELF, 'bm')) and contains(out[1][1], ('at', SELF, 'uv')):
                    c.bad('grid', m, 'the planes are returned in another order')
    # the conjugate points
    DATA, WG = ('p', 'data'), ('p', 'wgts')

    def halves(t, want, what, m):
        while t[0] == 'call' and t[1] in (('ext', 'numpy.array'), ('ext', 'numpy.asarray')):
            t = t[2][0]
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.concatenate', 'numpy.hstack', 'numpy.append') and t[2]:
            x = t[2][0][1] if t[1][1] != 'numpy.append' and t[2][0][0] in ('list', 'tup') else t[2]
            if len(x) == 2:
                for k in (0, 1):
                    c.same('hermitian', m, nh, x[k], want[k], '%s of the %s' % (what, ('samples', 'conjugate points')[k]))
                return
        c.dunno(m, what)

    one = ('it', WG, ('idx', 'n'))

    def special(nm, t):
        return None

    def sym(t):
        if t == DATA:
            return A.atom(('sym', 'data', 'complex'))
        for x, n in ((u, 'u'), (v, 'v'), (w, 'w'), (WG, 'wgts'), (one, 'wgts')):
            if t == x:
                return A.atom(('sym', n))
        return None
    nh = A.Norm(sym, special)
    D = A.atom(('sym', 'data', 'complex'))
    for wg in (NONE, WG):
        m, I, outs = c.go(cls, 'append_hermitian', [SELF, UVW, DATA, wg], given=(WG,))
        for o in outs:
            t = canon(I.freeze(o.st, o.value))
            if t[0] != 'tup' or len(t[1]) != (2 if wg == NONE else 3):
                c.dunno(m, 'what is returned')
                continue
            x = t[1][0]
            while x[0] == 'call' and x[1] in (('ext', 'numpy.array'), ('ext', 'numpy.asarray')):
                x = x[2][0]
            if x[0] in ('tup', 'list') and len(x[1]) == 3:
                for y, s in zip(x[1], (U, V, W)):
                    halves(y, (s, A.neg(s)), A.show(s), m)
            else:
                c.dunno(m, 'the coordinates')
            halves(t[1][1], (D, A.conj(D)), 'the data', m)
            if wg != NONE:
                y = t[1][2]
                if y[0] == 'mapped':
                    y = y[2]
                elif y[0] == 'list' and len(y[1]) == 1:
                    y = y[1][0]
                wsym = A.atom(('sym', 'wgts'))
                halves(y, (wsym, wsym), 'the weights', m)
    # directions of the pixels
    CEN = ('p', 'center')
    m, I, outs = c.go(cls, 'get_top', [SELF, CEN], stop=('get_LM',))
    for o in outs:
        t = canon(I.freeze(o.st, o.value))
        lm = ('call', ('bm', SELF, cls + '.get_LM'), (CEN,), ())
        n2 = normal({('it', lm, ('c', 0)): 'l', ('it', lm, ('c', 1)): 'm'})
        L, M = A.atom(('sym', 'l')), A.atom(('sym', 'm'))
        c.same('directions', m, n2, t, A.V([L, M, A.sqrt(A.sub(A.sub(A.num(1), A.mul(L, L)), A.mul(M, M)))]),
               'a pixel at (l, m) is in direction (l, m, sqrt(1 - l^2 - m^2))')
    ind = ('call', ('ext', 'numpy.indices'), (SH,), ())
    DIM = ('it', SH, ('c', 0))
    names = {('it', ind, ('c', 0)): 'row', ('it', ind, ('c', 1)): 'col', DIM: 'dim', ('it', SH, ('c', 1)): 'dim', RES: 'res'}
    n3 = normal(names)
    row, col, dim = (A.atom(('sym', x)) for x in ('row', 'col', 'dim'))
    per = A.inv(A.mul(dim, R))

    def half(t, upper):
        """t where the index is in the upper half of its axis"""
        x = n3(t)
        for _ in range(4):
            ws = A.wheres(x)
            if not ws:
                return x
            k = ws[0][1]
            if k[0] != 'cmp' or k[1] not in ('Gt', 'GtE', 'Lt', 'LtE'):
                return None
            op = k[1]
            if names.get(k[2]) not in ('row', 'col'):
                op = {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE', 'LtE': 'GtE'}[op]
                if names.get(k[3]) not in ('row', 'col'):
                    return None
            yes = upper == (op in ('Gt', 'GtE'))
            x = A.replace(x, ws[0], A.unkey(ws[0][2 if yes else 3]))
        return None

    m, I, outs = c.go(cls, 'get_LM', [SELF, CEN], stop=('aipy.img.recenter',))
    for o in outs:
        t = canon(I.freeze(o.st, o.value))
        if t[0] != 'tup' or len(t[1]) != 2:
            c.dunno(m, 'what is returned')
            continue
        for y, nm, lo, hi in ((t[1][0], 'l', A.neg(col), A.sub(dim, col)), (t[1][1], 'm', row, A.sub(row, dim))):
            if y[0] == 'call' and y[1] == ('fn', 'aipy.img.recenter') and len(y[2]) == 2:
                if y[2][1] == CEN:
                    c.ok(m, 'moved to the centre asked for')
                else:
                    c.dunno(m, 'the centre')
                y = y[2][0]
            else:
                c.dunno(m, 'the centre')
            if y[0] == 'call' and y[1][0] == 'ext' and y[1][1] in ('numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.MaskedArray'):
                y = y[2][0]
            for up, want in ((False, lo), (True, hi)):
                g = half(y, up)
                if g is None:
                    c.dunno(m, '%s of a pixel' % nm)
                else:
                    c.same('directions', m, n3, g, A.mul(want, per), '%s in the %s half of the image' % (nm, ('lower', 'upper')[up]))
    m, I, outs = c.go(cls, 'get_uv', [SELF])
    for o in outs:
        t = canon(I.freeze(o.st, o.value))
        if t[0] != 'tup' or len(t[1]) != 2:
            c.dunno(m, 'what is returned')
            continue
        for y, a, nm in zip(t[1], (row, col), 'uv'):
            for up, want in ((False, a), (True, A.sub(a, dim))):
                g = half(y, up)
                if g is None:
                    c.dunno(m, '%s of a cell' % nm)
                else:
                    c.same('directions', m, n3, g, A.mul(want, R), 'the index along the axis of %s in the %s half' % (nm, ('lower', 'upper')[up]))
    # images
    BM = ('at', SELF, 'bm')
    for meth, args in (('image', [CEN]), ('bm_image', [CEN, NONE]), ('bm_image', [CEN, ('p', 'term')])):
        m, I, outs = c.go(cls, meth, [SELF] + args, stop=('aipy.img.recenter',), given=(('p', 'term'),))
        for o in outs:
            t = canon(I.freeze(o.st, o.value))
            if t[0] == 'mapped':
                t = t[2]
            if t[0] != 'call' or t[1] != ('fn', 'aipy.img.recenter') or len(t[2]) != 2:
                c.dunno(m, 'the image')
                continue
            if t[2][1] != CEN:
                c.bad('image', m, 'the image is not moved to the centre asked for')
            x = t[2][0]
            if x[0] == 'call' and x[1] == ('ext', 'numpy.real'):
                x = ('at', x[2][0], 'real')
            if x[0] == 'at' and x[1][0] == 'call' and x[1][1][0] == 'ext' and x[1][1][1].startswith('numpy.fft.'):
                f, p = x[1][1][1], x[1][2][0]
                want = ('at', SELF, 'uv') if meth == 'image' else ('it', BM, ('idx', 'n') if args[1] == NONE else ('p', 'term'))
                mine = p == ('at', SELF, 'uv') or p[:2] == ('it', BM)
                if x[2] == 'real' and f == 'numpy.fft.ifft2' and p == want:
                    c.ok(m, 'the real part of the inverse transform')
                elif mine and (x[2] != 'real' or f != 'numpy.fft.ifft2') and x[2] in ('real', 'imag') and f in ('numpy.fft.fft2', 'numpy.fft.ifft2'):
                    c.bad('image', m, 'an image is the %s part of %s of its plane' % (x[2], f))
                elif mine and (meth == 'image' or p[0] == 'at' or p[2][0] == 'c'):
                    c.bad('image', m, 'an image is that of another plane')
                else:
                    c.dunno(m, 'the plane')
            else:
                c.dunno(m, 'the image')
    for q in ('aipy.img.recenter', 'aipy.deconv.recenter'):
        recenter(c, q)
    w_planes(c)


def recenter(c, q):
    mod, fn = q.rsplit('.', 1)
    f = c.pr.mods[mod].funcs.get(fn) if mod in c.pr.mods else None
    if f is None:
        c.r.unsure('%s: not found' % q)
        return
    I = m16.It(types={}, stop=lambda g: False)
    I.plain = ()
    c.r.units.append(q)
    c.r.count('functions')
    a, cc = ('p', 'a'), ('p', 'c')
    try:
        outs = I.call_func(f, [a, cc], {}, absint.St())
    except (absint.GaveUp, RecursionError) as e:
        return c.dunno(f, str(e)[:80])
    for o in outs:
        if o.kind != 'return':
            continue
        t = canon(I.freeze(o.st, o.value))
        want = []
        for ax in (1, 0):
            p = split(t, ax)
            if p is None:
                c.dunno(f, 'how the image is moved along axis %d' % ax)
                break
            t, lo, hi = p
            ks = {x[2][1] for x in m17.walk(lo) if isinstance(x, tuple) and x[:2] == ('it', cc) and x[2][0] == 'c'}
            if lo != hi:
                c.dunno(f, 'how the image is moved along axis %d' % ax)
            elif ks == {ax}:
                c.ok(f, 'moved by its own amount along axis %d' % ax)
            elif ks == {1 - ax}:
                c.bad('image', f, 'the image is moved along axis %d by the amount for the other' % ax)
            else:
                c.dunno(f, 'the amount moved along axis %d' % ax)
        else:
            if t != a:
                c.dunno(f, 'what is moved')


def split(t, ax):
    """(x, n, n) if t is x with its first n entries along an axis moved to the end"""
    if t[0] != 'call' or t[1][0] != 'ext' or not t[1][1].endswith('concatenate') or not t[2] or t[2][0][0] not in ('list', 'tup') or len(t[2][0][1]) != 2:
        return None
    axis = dict(t[3]).get('axis', t[2][1] if len(t[2]) > 1 else ('c', 0))
    if axis != ('c', ax):
        return None
    x, y = t[2][0][1]
    if x[0] != 'it' or y[0] != 'it' or x[1] != y[1]:
        return None

    def cut(k):
        if ax == 1:
            return k[1][1] if k[0] == 'tup' and len(k[1]) == 2 and k[1][0] == ALL else None
        return k if k[0] == 'sl' else k[1][0] if k[0] == 'tup' and len(k[1]) == 2 and k[1][1] == ALL else None
    p, q = cut(x[2]), cut(y[2])
    if p is None or q is None or p[0] != 'sl' or q[0] != 'sl' or p[2] != NONE or q[1] not in (NONE, ('c', 0)):
        return None
    return x[1], p[1], q[2]


def w_planes(c):
    cls = 'aipy.img.ImgW'
    u, v, w = (('p', x) for x in 'uvw')
    D, WG = ('p', 'data'), ('p', 'wgts')
    stop = ('aipy.img.Img.put', 'aipy.img.Img.get', 'aipy.img.ImgW.conv_invker')

    def part(t):
        """(array, order, slice) of array.take(order)[slice]"""
        sl = None
        if t[0] == 'it' and t[2][0] == 'sl':
            t, sl = t[1], t[2]
        for _ in range(3):
            if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('squeeze', 'flatten', 'ravel') and not t[2]:
                t = t[1][1]
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'take' and len(t[2]) == 1:
            whole = t[2][0][:2] == ('call', ('ext', 'numpy.arange'))
            return t[1][1], None if whole else t[2][0], sl
        if t[0] == 'it' and t[2][0] == 'call':
            return t[1], t[2], sl
        return t, None, sl

    for meth, args in (('put', [UVW, D, WG, ('p', 'invker2')]), ('get', [UVW])):
        m, I, outs = c.go(cls, meth, [SELF] + args, stop=stop, given=(WG,))
        done = set()
        for o in outs:
            es = effs(I, o)
            for e in es:
                if e[0] != 'call' or e[1] != ('fn', 'aipy.img.Img.' + meth) or len(e[2]) < 2 or e[2][1][0] != 'tup' or len(e[2][1][1]) != 3:
                    continue
                xs = list(zip(e[2][1][1], (u, v, w), 'uvw'))
                if meth == 'put' and len(e[2]) > 3:
                    xs.append((e[2][2], D, 'data'))
                    g = e[2][3]
                    g = g[2] if g[0] == 'mapped' else g[1][0] if g[0] == 'list' and len(g[1]) == 1 else None
                    if g is not None:
                        xs.append((g, ('it', WG, ('idx', 'n')), 'weights'))
                if repr(xs) in done:
                    continue
                done.add(repr(xs))
                ref = part(xs[2][0])
                for t, b, nm in xs:
                    base, order, sl = part(t)
                    if base != b and not (nm == 'weights' and contains(base, WG)):
                        if base in (u, v, w, D):
                            c.bad('w planes', m, 'the %s of a w plane are made of another array' % nm)
                        else:
                            c.dunno(m, 'the %s of a w plane' % nm)
                    elif order != ref[1]:
                        if order is None or ref[1] is None:
                            c.bad('w planes', m, 'the %s are %ssorted by w while others are%s' % (nm, 'not ' if order is None else '', ' not' if ref[1] is None else ''))
                        else:
                            c.dunno(m, 'the order of the %s' % nm)
                    elif sl != ref[2]:
                        c.bad('w planes', m, 'the %s of a w plane are another range than its w' % nm)
                    else:
                        c.ok(m, 'the %s of a w plane are those of its samples' % nm)
            if meth == 'put':
                seen = [e for e in es if e[0] == 'store' and e[1] == ('at', SELF, 'wcache')]
                if any(e[0] == 'store' and e[1] == ('at', SELF, 'uv') for e in es):
                    if not seen and not any(contains(e, ('at', SELF, 'wcache')) for e in es):
                        c.bad('w planes', m, 'planes projected from the old data stay cached')
                    elif seen:
                        c.ok(m, 'planes projected from the old data are dropped')
                    kern = {}
                    for e in es:
                        if e[0] == 'store' and (e[1] == ('at', SELF, 'uv') or e[1][:2] == ('it', ('at', SELF, 'bm'))):
                            k = kernel(e[2], e[1])
                            kern['uv' if e[1][0] == 'at' else 'bm'] = k
                    if len(kern) == 2 and None not in kern.values():
                        (pu, ku), (pb, kb) = kern['uv'], kern['bm']
                        if pu[:1] != ('it',) or pb[:1] != ('it',):
                            c.dunno(m, 'the planes that are projected')
                        elif ku != kb:
                            c.bad('w planes', m, 'the data and the weights are projected with different kernels')
                        elif pu[2] == ('c', 0) and (pb[1][:1] == ('it',) and pb[1][2] == ('c', 1)):
                            c.ok(m, 'data and weights are projected alike')
                        else:
                            c.dunno(m, 'the planes that are projected')
            elif o.value:
                t = canon(I.freeze(o.st, o.value))
                # back in the caller's order
                order = None
                for e in es:
                    if e[0] == 'call' and e[1] == ('fn', 'aipy.img.Img.get') and e[2][1][0] == 'tup':
                        order = part(e[2][1][1][0])[1]
                base, back, sl = part(t)
                if order is None:
                    continue
                if back is not None and back[0] == 'call' and back[1] == ('ext', 'numpy.argsort') and back[2] == (order,):
                    c.ok(m, "values are returned in the caller's order")
                elif back == order:
                    c.bad('w planes', m, 'values are sorted by w a second time instead of being put back in order')
                elif back is None and base[0] == 'call' and base[1] == ('ext', 'numpy.concatenate'):
                    c.bad('w planes', m, 'values are returned in the order of w')
                else:
                    c.dunno(m, "the caller's order")
    # the kernel puts the phase of w on data, and get takes it off
    for meth, sign in (('put', 1), ('get', -1)):
        m = c.pr.method(c.classes[cls], meth) if cls in c.classes else None
        if m is None:
            continue
        import ast
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'conv_invker' and len(n.args) == 3:
                a = n.args[2]
                neg = False
                while isinstance(a, ast.UnaryOp) and isinstance(a.op, (ast.USub, ast.UAdd)):
                    neg ^= isinstance(a.op, ast.USub)
                    a = a.operand
                if not isinstance(a, ast.Name):
                    c.dunno(m, 'the sign of w in the kernel')
                    continue
                ds = [d for d in ast.walk(m.node) if isinstance(d, ast.Assign) and any(isinstance(x, ast.Name) and x.id == a.id for x in d.targets)]
                if len(ds) != 1 or not isinstance(ds[0].value, ast.Call):
                    c.dunno(m, 'the sign of w in the kernel')
                elif neg == (sign < 0):
                    c.ok(m, 'the kernel is for %s' % ('-w' if neg else 'w'))
                else:
                    c.bad('w planes', m, 'the kernel is for %s' % ('-w' if neg else 'w'))


def kernel(v, p):
    """(plane, kernel) of p + ifft2(fft2(plane) * kernel)"""
    if v[0] != 'op' or v[1] != 'Add' or p not in v[2:]:
        return None
    x = v[2] if v[3] == p else v[3]
    if x[0] != 'call' or x[1] != ('ext', 'numpy.fft.ifft2'):
        return None
    if x[2][0][:2] == ('call', ('ext', 'numpy.fft.fft2')):
        return x[2][0][2][0], ('c', 1)
    if x[2][0][:2] != ('op', 'Mult'):
        return None
    a, b = x[2][0][2:]
    for f, k in ((a, b), (b, a)):
        if f[0] == 'call' and f[1] == ('ext', 'numpy.fft.fft2'):
            return f[2][0], k
    return None


def run(tier):
    r = report.Result()
    c = Ctx(r)
    r.rule('A map sums flux times weight and weight of each sample in the same pixels, however many share one; a lookup is the sum over the weight; resetting weights keeps it.')
    r.rule('Planes, columns and pixel orders are paired with their own counterpart when maps are copied, stored, read and reordered.')
    r.rule('Data and weights are gridded at the indices of the same u, v; conjugate points negate u, v, w and conjugate the data.')
    r.rule('Pixels of an image have the directions its transform gives them; samples of a w plane stay together, in order.')
    map_class(c)
    healpix(c)
    images(c)
    r.floor('obligations', 20)
    return r
