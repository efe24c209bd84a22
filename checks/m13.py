"""M13: what an object derives from its parameters, channels and time is recomputed whenever they change."""
from sa import absint, py, report
from sa.absint import C, subterm
from checks.m12 import show

SELF = ('p', 'self')


def at(*names):
    t = SELF
    for n in names:
        t = ('at', t, n)
    return t


def rooted(t, loc):
    """t is loc or a part of it"""
    while True:
        if t == loc:
            return True
        if t[0] in ('at', 'it', 'prop', 'star') and isinstance(t[1], tuple):
            t = t[1]
            continue
        return False


def base(t):
    while t[0] in ('at', 'it', 'prop', 'idx', 'star') and isinstance(t[1], tuple):
        t = t[1]
    return t


class It(absint.Interp):
    def __init__(self, cls, stop=None, **kw):
        super().__init__(types={SELF: cls}, stop=stop or (lambda f: f.mod.name == 'aipy.coord'), **kw)


def cur(st, *names):
    """the value of self.a.b now"""
    t = SELF
    for n in names:
        t = ('at', t, n)
        if t in st.over:
            t = st.over[t]
    return t


class Study:
    def __init__(self, r):
        self.r = r
        self.pr = py.project()
        self.stored = set()
        import ast
        for m in self.pr.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)

    def classes(self, base_qual):
        out = []
        for c in self.pr.all_classes():
            if any(getattr(b, 'qual', None) == base_qual for b in self.mro(c)):
                out.append(c)
        return out

    def mro(self, c):
        return self.pr.mro(c)

    # ------------------------------------------------------------ running a method
    def outs(self, cls, meth, args=(), kws=(), stop=None, **kw):
        f = self.pr.method(cls, meth)
        if f is None:
            self.r.unsure('%s has no %s' % (cls.qual, meth))
            return None, None, []
        it = It(cls, stop, **kw)
        try:
            os_ = it.call_func(f, [SELF] + list(args), kws, absint.St())
        except absint.GaveUp as e:
            self.r.unsure('%s.%s: %s' % (cls.qual, meth, e))
            return None, None, []
        self.r.count('methods')
        self.r.count('paths', len(os_))
        return f, it, [o for o in os_ if o.kind == 'return']

    def touched(self, it, o, loc):
        """indices of the events that store into loc, or into the object stored there"""
        refs = set()
        out = []
        for n, e in enumerate(o.st.eff):
            if e[0] == 'store':
                if rooted(e[1], loc) or base(e[1]) in refs:
                    out.append(n)
                    if e[1] == loc and e[2][0] == 'ref':
                        refs.add(e[2])
            elif e[0] == 'call' and e[1][0] == 'at' and (rooted(e[1][1], loc) or base(e[1][1]) in refs) and e[1][2] in (
                    'update', 'fill', 'put', 'clear', 'append', 'extend', 'resize', 'set_data', 'from_alm', 'set_map'):
                out.append(n)
        return out

    def opaque(self, it, o, after):
        """something that may do the job without being followed"""
        if it.vague:
            return True
        for e in o.st.eff[after + 1:]:
            if e[0] == 'call' and any(x == SELF for x in e[2]) and e[1][0] not in ('ext',):
                return True
            if e[0] == 'call' and e[1] in (('ext', 'setattr'), ('ext', 'builtins.setattr')):
                return True
            if e[0] == 'store' and subterm(e[1], at('__dict__')):
                return True
            if e[0] == 'call' and e[1][0] == 'ext' and e[1][1] in ('map', 'builtins.map'):
                return True
        return False

    # ------------------------------------------------------------ rules
    def derived(self, cls, meth, args, name, inputs, kws=(), must=True, extra=(), why=''):
        """after the method, self.<name> has been computed from the current values of the inputs (paths under self)"""
        r = self.r
        if name not in self.stored:
            r.unsure('no attribute %s is stored anywhere' % name)
            return
        f, it, outs = self.outs(cls, meth, args, kws)
        if f is None:
            return
        cname = cls.qual.replace('aipy.', '')
        loc = at(name)
        for o in outs:
            r.count('obligations')
            ts = self.touched(it, o, loc)
            changes = []
            for i in inputs:
                i = i.split('.')
                for k in range(1, len(i) + 1):
                    for n in self.touched(it, o, at(*i[:k])):
                        changes.append((n, '.'.join(i[:k])))
            for n, e in enumerate(o.st.eff):
                if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'select_chans' and any(
                        rooted(e[1][1], at(i.split('.')[0])) or e[1][1] == cur(o.st, i.split('.')[0]) for i in inputs if '.' in i):
                    changes.append((n, show(e[1])))
            if not ts:
                if must or changes:
                    if self.opaque(it, o, -1):
                        r.unsure('%s.%s: whether %s is recomputed' % (cname, meth, name))
                    else:
                        r.add('not-recomputed', '%s.%s:%s' % (cname, meth, name), f.where(),
                              '%s() leaves self.%s as it was%s' % (meth, name, ', although %s changed' % changes[-1][1] if changes else why))
                continue
            late = [c for c in changes if c[0] > ts[-1]]
            if late:
                if self.opaque(it, o, ts[-1]):
                    r.unsure('%s.%s: whether %s is recomputed' % (cname, meth, name))
                else:
                    e = o.st.eff[late[-1][0]]
                    r.add('recomputed-early', '%s.%s:%s' % (cname, meth, name), '%s:%d' % (f.mod.path, e[-2]),
                          'self.%s is computed before %s changes, and not again' % (name, late[-1][1]))
                continue
            val = it.freeze(o.st, cur(o.st, name))
            for i in list(inputs) + list(extra):
                want = i if isinstance(i, tuple) else it.freeze(o.st, cur(o.st, *i.split('.')))
                if self.mentions(val, want):
                    r.count('inputs')
                    continue
                if it.vague or self.opaque(it, o, -1):
                    r.unsure('%s.%s: whether %s follows %s' % (cname, meth, name, i))
                    continue
                r.add('computed-without', '%s.%s:%s:%s' % (cname, meth, name, i if isinstance(i, str) else show(i)), f.where(),
                      'self.%s is not computed from the current value of %s (it is %s)' % (name, i if isinstance(i, str) else show(i), show(val)[:200]))

    def mentions(self, val, want):
        if subterm(val, want):
            return True
        if isinstance(want, tuple) and want and want[0] == 'dict' and want[1]:
            return all(self.mentions(val, v) for k, v in want[1])
        return False

    def stores(self, cls, meth, args, name, arg, why):
        """the method puts what it was given into self.<name>"""
        r = self.r
        f, it, outs = self.outs(cls, meth, args)
        for o in outs:
            if o.st.conds.get(('cmp', 'Is', arg, C(None))) is True:
                continue
            r.count('obligations')
            v = it.freeze(o.st, cur(o.st, name))
            if not subterm(v, arg):
                if it.vague or self.opaque(it, o, -1):
                    r.unsure('%s.%s: %s' % (cls.qual, meth, name))
                else:
                    r.add('not-stored', '%s.%s:%s' % (cls.qual.replace('aipy.', ''), meth, name), f.where(), why)

    def each(self, cls, meth, args, what, seqs, want_args, why, kws=()):
        """the method calls <what>(want_args) on every element of one of seqs"""
        r = self.r
        f, it, outs = self.outs(cls, meth, args, kws)
        cname = cls.qual.replace('aipy.', '')
        for o in outs:
            r.count('obligations')
            hit = wrong = None
            part = None
            for e in o.st.eff:
                if e[0] != 'call' or e[1][0] != 'at' or e[1][2] != what:
                    continue
                el = e[1][1]
                if self.whole(el, seqs):
                    got = tuple(e[2]) + tuple(v for k, v in e[3])
                    if want_args is None or got == want_args:
                        hit = e
                    else:
                        wrong = e
                elif base(el) in {base(s) for s in seqs} or el[0] == 'it':
                    part = e
            if hit:
                r.count('members')
                continue
            if wrong:
                r.add('passed-other', '%s.%s:%s' % (cname, meth, what), '%s:%d' % (f.mod.path, wrong[-2]),
                      '%s() calls %s of its members with %s, not with %s' % (meth, what, ', '.join(show(x) for x in wrong[2]) or 'nothing', ', '.join(map(show, want_args)) or 'nothing'))
                continue
            if part is not None and not self.cut(part[1][1]) and not self.fixed(part[1][1]) or it.vague or self.opaque(it, o, -1) or any(list(it.indices(c)) for c in o.st.conds if isinstance(c, tuple)):
                r.unsure('%s.%s: whether every member is reached' % (cname, meth))
                continue
            r.add('not-every', '%s.%s:%s' % (cname, meth, what), f.where() if part is None else '%s:%d' % (f.mod.path, part[-2]),
                  '%s() does not call %s of every member: %s' % (meth, what, why))

    ALL = ('keys', 'values', 'items', 'list', 'tuple', 'sorted', 'set', 'reversed', 'iter', 'enumerate', 'range', 'copy', 'iteritems', 'itervalues')

    def seq(self, t):
        """the collection whose members t runs over"""
        while True:
            if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in self.ALL and not t[2]:
                t = t[1][1]
            elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in self.ALL and t[2]:
                t = t[2][0]
            elif t[0] in ('len', 'range', 'sorted', 'set') and isinstance(t[1], tuple):
                t = t[1]
            else:
                return t

    def whole(self, el, seqs):
        """el stands for an arbitrary member of one of seqs"""
        if el[0] == 'it' and el[2] in (C(0), C(1)) and el[1][0] == 'it':     # k, v in d.items()
            el = el[1]
        if el[0] != 'it':
            return False
        b, k = self.seq(el[1]), el[2]
        if b not in seqs:
            return False
        if k[0] == 'it':                # d[k] for k in d
            if self.seq(k[1]) not in seqs:
                return False
            k = k[2]
        return k[0] == 'idx' and self.seq(k[1]) in seqs

    def fixed(self, t):
        return t[0] == 'it' and absint.isc(t[2])

    def cut(self, t):
        return isinstance(t, tuple) and bool(t) and (t[0] == 'sl' or any(self.cut(x) for x in t if isinstance(x, tuple)))

    # ------------------------------------------------------------ time
    def time(self, cls, meth, arg, names):
        r = self.r
        f, it, outs = self.outs(cls, meth, (arg,))
        cname = cls.qual.replace('aipy.', '')
        if f is None:
            return
        for o in outs:
            r.count('obligations')
            ds = [n for n, e in enumerate(o.st.eff) if e[0] == 'store' and e[1] == at('date')]
            d = it.freeze(o.st, cur(o.st, 'date'))
            none = any(v is True and c == ('cmp', 'Is', arg, C(None)) for c, v in o.st.conds.items())
            if not ds:
                if self.opaque(it, o, -1):
                    r.unsure('%s.%s: whether the time is set' % (cname, meth))
                else:
                    r.add('time-not-set', '%s.%s' % (cname, meth), f.where(), '%s(t) does not set the time' % meth)
                continue
            if not none and not subterm(d, arg) and not any(isinstance(c, tuple) and subterm(c, arg) and v is True for c, v in o.st.conds.items()):
                r.add('time-other', '%s.%s' % (cname, meth), f.where(), '%s(t) sets the time to %s' % (meth, show(d)))
            for name, needs in names.items():
                if name not in self.stored:
                    r.unsure('no attribute %s' % name)
                    continue
                ts = self.touched(it, o, at(name))
                if not ts or ts[-1] < ds[-1]:
                    # set to nothing before or after the time is set, it is no value of another time
                    v = cur(o.st, name)
                    if ts and v in (C(None),):
                        continue
                    if self.opaque(it, o, -1):
                        r.unsure('%s.%s: %s' % (cname, meth, name))
                    else:
                        r.add('time-stale', '%s.%s:%s' % (cname, meth, name), f.where(),
                              '%s() changes the time, self.%s stays what it was at the time before' % (meth, name) if not ts else
                              '%s() computes self.%s before it sets the time' % (meth, name))
                    continue
                v = it.freeze(o.st, cur(o.st, name))
                for need in needs:
                    r.count('inputs')
                    if need == 'empty':
                        if v != C(None) and v != ('dict', ()):
                            r.add('time-stale', '%s.%s:%s' % (cname, meth, name), f.where(), '%s() leaves %s in self.%s' % (meth, show(v), name))
                        continue
                    if need == 'sidereal':
                        t = ('call', at('sidereal_time'), (), ())
                        asked = [n for n, e in enumerate(o.st.eff) if e[0] == 'call' and e[1] == at('sidereal_time') and n < ts[-1]]
                        if not subterm(v, t):
                            if not it.vague:
                                r.add('computed-without', '%s.%s:%s:sidereal_time' % (cname, meth, name), f.where(), 'self.%s is not computed from the sidereal time' % name)
                        elif not asked or asked[-1] < ds[-1]:
                            r.add('recomputed-early', '%s.%s:%s' % (cname, meth, name), f.where(),
                                  'the sidereal time in self.%s is asked for before the time is set' % name)
                        continue
                    if not subterm(v, it.freeze(o.st, cur(o.st, need))) and not it.vague:
                        r.add('computed-without', '%s.%s:%s:%s' % (cname, meth, name, need), f.where(), 'self.%s is not computed from self.%s' % (name, need))

    # ------------------------------------------------------------ sources
    def source(self, cls):
        r = self.r
        obs = ('p', 'observer')
        f, it, outs = self.outs(cls, 'compute', (obs,))
        cname = cls.qual.replace('aipy.', '')
        if f is None:
            return
        flux = any(c.qual == 'aipy.amp.RadioBody' for c in self.mro(cls))
        for o in outs:
            r.count('obligations')
            comp = [n for n, e in enumerate(o.st.eff) if e[0] == 'call' and (
                e[1][0] == 'ext' and e[1][1].startswith('ephem.') and e[1][1].endswith('.compute') and e[2][:1] == (SELF,) or
                e[1][0] == 'at' and e[1][2] == 'compute' and rooted(e[1][1], SELF)) and e[2] and e[2][-1] == obs]
            ts = self.touched(it, o, at('map'))
            where = f.where()
            if not comp:
                if self.opaque(it, o, -1):
                    r.unsure('%s.compute: whether the position is computed' % cname)
                else:
                    r.add('position-not-computed', cname, where, 'compute(observer) does not compute the position of the source for the observer')
                continue
            if not ts:
                r.add('not-recomputed', '%s.compute:map' % cname, where, 'compute() leaves the projection towards the source (self.map) as it was')
            elif ts[-1] < comp[-1]:
                r.add('recomputed-early', '%s.compute:map' % cname, where, 'the projection towards the source is made before its position is computed for the observer')
            else:
                v = it.freeze(o.st, cur(o.st, 'map'))
                for need, label in ((('call', ('at', obs, 'sidereal_time'), (), ()), 'the sidereal time of the observer'), (at('ra'), 'ra'), (at('dec'), 'dec')):
                    r.count('inputs')
                    if not subterm(v, need) and not it.vague:
                        r.add('computed-without', '%s.compute:map:%s' % (cname, label), where, 'the projection towards the source is not computed from %s: %s' % (label, show(v)))
            if not flux:
                continue
            ts = self.touched(it, o, at('jys'))
            if not ts:
                r.add('not-recomputed', '%s.compute:jys' % cname, where, 'compute() leaves the flux densities (self.jys) as they were')
                continue
            v = it.freeze(o.st, cur(o.st, 'jys'))
            afr = [('call', ('at', obs, 'get_afreqs'), (), ()), ('prop', obs, 'afreqs')]
            for needs, label in (([at('_jys')], '_jys'), ([at('index')], 'index'), ([at('mfreq')], 'mfreq'), (afr, 'the frequencies of the observer')):
                r.count('inputs')
                if not any(subterm(v, x) for x in needs) and not it.vague:
                    r.add('computed-without', '%s.compute:jys:%s' % (cname, label), where, 'the flux densities are not computed from %s: %s' % (label, show(v)))

    # ------------------------------------------------------------ simulation
    def sim_cache(self, cls):
        """what is kept of the sources is cut by one and the same mask: those above the horizon"""
        r = self.r
        ps = {n: ('p', n) for n in ('s_eqs', 'jys', 'mfreqs', 'ionrefs', 'srcshapes')}
        f, it, outs = self.outs(cls, 'sim_cache', tuple(ps[n] for n in ('s_eqs', 'jys', 'mfreqs', 'ionrefs', 'srcshapes')))
        cname = cls.qual.replace('aipy.', '')
        if f is None:
            return
        for o in outs:
            if not self.touched(it, o, at('_cache')):
                if not self.opaque(it, o, -1):
                    r.add('not-recomputed', '%s.sim_cache:_cache' % cname, f.where(), 'sim_cache() keeps what was cached before')
                continue
            v = it.freeze(o.st, cur(o.st, '_cache'))
            if v[0] != 'dict':
                r.unsure('%s.sim_cache: what it keeps' % cname)
                continue
            if not v[1]:
                r.count('empty_caches')
                continue
            masks = set()
            for k, x in v[1]:
                masks |= set(self.masks(x))
            if not masks:
                r.unsure('%s.sim_cache: no mask' % cname)
                continue
            r.count('caches')
            if len(masks) > 1:
                r.add('mask-differs', '%s.sim_cache' % cname, f.where(), 'the arrays kept of the sources are cut by different masks: %s' % ' | '.join(sorted(show(m)[:80] for m in masks)))
                continue
            mask = masks.pop()
            roots = [ps['s_eqs'], ps['jys'], ps['mfreqs'], ps['ionrefs'], ps['srcshapes']]
            axes = {}
            for k, x in v[1]:
                for root in roots:
                    r.count('kept')
                    for bad in self.uncut(x, root, mask):
                        r.add('not-masked', '%s.sim_cache:%s' % (cname, show(k)), f.where(),
                              '%s of all sources (%s) is kept next to arrays of the sources above the horizon only' % (show(k), show(bad)[:100]))
            up = subterm(mask, at('eq2top_m'))
            if not up and not it.vague:
                r.add('mask-other', '%s.sim_cache' % cname, f.where(), 'the mask is not made from the positions at the current time: %s' % show(mask))

    CUT = ('compress',)

    def masks(self, t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'compress' and t[2]:
            yield t[2][0]
        if t[0] == 'call' and t[1] == ('ext', 'numpy.compress') and t[2]:
            yield t[2][0]
        if t[0] == 'it' and t[2][0] == 'cmp':
            yield t[2]
        for x in t:
            if isinstance(x, tuple):
                yield from self.masks(x)

    def uncut(self, t, root, mask):
        """parts of t that hold root without the mask applied to it"""
        if t == mask or not subterm(t, root):
            return []
        if t[0] == 'it' and subterm(t[2], mask):
            return []
        if t[0] == 'call' and (any(subterm(a, mask) for a in t[2] if not subterm(a, root) or a == mask or self.index(a, mask)) or
                               any(subterm(v, mask) for k, v in t[3])):
            return []
        if t == root or t[0] in ('at', 'it') and rooted(t, root):
            return [t]
        out = []
        for x in t:
            if isinstance(x, tuple):
                out += self.uncut(x, root, mask)
        return out

    def index(self, t, mask):
        """positions of the mask"""
        while t[0] == 'it':
            t = t[1]
        return t == mask or t[0] == 'call' and any(a == mask for a in t[2])


def run(tier):
    r = report.Result()
    s = Study(r)
    pr = s.pr
    p = lambda n: ('p', n)
    given = dict
    r.rule('After __init__, update(), select_chans() and set_pointing() every derived attribute has been stored after the last change of what it is computed from, and its value is built from their current values.')
    r.rule('Setting the time recomputes, after the new time is in place, every projection that depends on it, and drops what was cached for the time before.')
    r.rule('An array updates, and selects the channels of, every antenna; a catalog computes every source; a map sets every part.')
    r.rule('compute() makes the projection from the position computed for this observer, and the fluxes for its frequencies.')
    r.rule('What sim_cache keeps of the sources is cut by one mask.')

    # beams
    for c in s.classes('aipy.phs.Beam'):
        r.units.append(c.qual)
        for meth, args in (('__init__', (p('freqs'),)), ('update', ()), ('select_chans', (p('chans'),)), ('select_chans', (C(None),))):
            s.derived(c, meth, args, 'afreqs', ('freqs', 'chans'))
            if any(b.qual == 'aipy.amp.BeamPolynomial' for b in s.mro(c)):
                s.derived(c, meth, args, 'sigma', ('poly', 'afreqs'))
            if any(b.qual == 'aipy.amp.BeamAlm' for b in s.mro(c)):
                alm_maps(s, c, meth, args)
        s.stores(c, 'select_chans', (p('chans'),), 'chans', p('chans'), 'select_chans(c) does not select the channels c')
        all_chans(s, c)
    # antennas
    for c in s.classes('aipy.phs.Antenna'):
        r.units.append(c.qual)
        gain = any(b.qual == 'aipy.amp.Antenna' for b in s.mro(c))
        init = (p('x'), p('y'), p('z'), p('beam'), p('phsoff')) + ((p('bp_r'), p('bp_i'), p('amp')) if gain else ())
        for meth, args in (('__init__', init), ('update', ()), ('select_chans', (p('chans'),))):
            s.derived(c, meth, args, 'phsoff', ('_phsoff', 'beam.afreqs'))
            if gain:
                s.derived(c, meth, args, '_gain', ('bp_r', 'bp_i', 'amp', 'beam.afreqs'))
        beam_chans(s, c)
        if gain:
            args = (p('az'), p('alt'), p('twist'))
            for name in ('rot_pol_x', 'rot_pol_y'):
                s.derived(c, 'set_pointing', args, name, (), extra=args)
                s.derived(c, '__init__', init, name, ())
    # locations and arrays
    for c in s.classes('aipy.phs.ArrayLocation'):
        r.units.append(c.qual)
        arr = any(b.qual == 'aipy.phs.AntennaArray' for b in s.mro(c))
        sim = any(b.qual == 'aipy.amp.AntennaArray' for b in s.mro(c))
        init = (p('location'),) + ((p('ants'),) if arr else ())
        s.derived(c, '__init__', init, '_eq2zen', ('lat',))
        s.derived(c, 'update', (), '_eq2zen', ('lat',))
        names = {'_eq2now': ('sidereal',)}
        if sim:
            names['eq2top_m'] = ('sidereal', 'lat')
            names['_cache'] = ('empty',)
            s.derived(c, '__init__', init, '_cache', (), why=': sim() has nothing to tell it that sim_cache() was not called')
            s.sim_cache(c)
        for meth in ('set_jultime', 'set_ephemtime'):
            s.time(c, meth, p('t'), names)
        if arr:
            ants = (at('ants'), SELF)
            s.each(c, 'update', (), 'update', ants, (), 'antennas keep what they derived from their old parameters')
            s.each(c, 'select_chans', (p('chans'),), 'select_chans', ants, (p('chans'),), 'antennas keep their old channels')
    # sources and catalogs
    for c in s.classes('aipy.phs.RadioBody'):
        if c.qual == 'aipy.phs.RadioBody':
            continue
        r.units.append(c.qual)
        s.source(c)
    for c in s.classes('aipy.phs.SrcCatalog'):
        r.units.append(c.qual)
        seqs = (SELF,)
        s.each(c, 'compute', (p('observer'),), 'compute', seqs, (p('observer'),), 'sources stay where they were')
        if pr.method(c, 'update_jys'):
            s.each(c, 'update_jys', (p('afreqs'),), 'update_jys', seqs, (p('afreqs'),), 'sources keep their old fluxes')
    # planes kept from an earlier put
    planes(s)
    maps(s)
    r.floor('obligations', 60)
    return r


def all_chans(s, c):
    """select_chans() goes back to all the channels, whichever were selected"""
    r = s.r
    f, it, outs = s.outs(c, 'select_chans', (C(None),))
    cname = c.qual.replace('aipy.', '')
    for o in outs:
        r.count('obligations')
        v = it.freeze(o.st, cur(o.st, 'chans'))
        if v == at('chans') or subterm(v, at('chans')) or subterm(v, at('afreqs')):
            if s.opaque(it, o, -1):
                r.unsure('%s.select_chans(): the channels' % cname)
            else:
                r.add('chans-kept', cname, f.where(), 'select_chans() selects %s: not all channels, but as many as were selected before' % show(v))
        elif not subterm(v, at('freqs')) and not it.vague:
            r.add('chans-kept', cname, f.where(), 'select_chans() selects %s, whatever channels there are' % show(v))


def alm_maps(s, c, meth, args):
    """every map of the beam is made again from the coefficients of the same number"""
    r = s.r
    f, it, outs = s.outs(c, meth, args)
    cname = c.qual.replace('aipy.', '')
    for o in outs:
        r.count('obligations')
        made = [(n, e) for n, e in enumerate(o.st.eff) if e[0] == 'call' and e[1][0] == 'at' and e[1][2] in ('from_alm', 'set_map') or
                e[0] == 'store' and e[1][0] in ('prop', 'at') and (rooted(e[1][1], at('hmap')) or e[1][2] in ('map', 'get_map'))]
        data = [n for n, e in enumerate(o.st.eff) if e[0] == 'store' and (rooted(e[1], at('alm')) or e[1][0] == 'prop' and e[1][2] == 'get_data') or
                e[0] == 'call' and e[1][0] == 'at' and e[1][2] in ('set_data', 'set_to_zero')]
        if meth == 'select_chans' and not made and not data:
            continue
        if not made:
            if not s.opaque(it, o, -1):
                r.add('not-recomputed', '%s.%s:hmap' % (cname, meth), f.where(), '%s() does not make the maps from the coefficients' % meth)
            continue
        if data and data[-1] > made[-1][0]:
            r.add('recomputed-early', '%s.%s:hmap' % (cname, meth), f.where(), 'the maps are made before the coefficients are set')
            continue
        n, e = made[-1]
        m = it.freeze(o.st, e[1][1])
        if e[0] == 'call' and m[0] == 'it' and e[2]:
            idx = list(it.indices(m[2]))
            a = it.freeze(o.st, e[2][0])
            if a[0] == 'it' and idx:
                r.count('inputs')
                if a[2] != m[2] and {x for x in it.indices(a[2])} == set(idx):
                    r.add('map-other', '%s.%s:hmap' % (cname, meth), '%s:%d' % (f.mod.path, e[-2]), 'map %s is made from coefficients %s' % (show(m[2]), show(a[2])))


def beam_chans(s, c):
    """an antenna passes the channels on to its beam"""
    r = s.r
    chans = ('p', 'chans')
    f, it, outs = s.outs(c, 'select_chans', (chans,))
    for o in outs:
        r.count('obligations')
        calls = [e for e in o.st.eff if e[0] == 'call' and e[1] == ('at', at('beam'), 'select_chans')]
        if not any(chans in e[2] or ('active_chans', chans) in tuple(e[3]) for e in calls):
            if it.vague or s.opaque(it, o, -1):
                r.unsure('%s.select_chans' % c.qual)
            else:
                r.add('chans-not-passed', c.qual.replace('aipy.', ''), f.where(), 'select_chans(c) does not select the channels c in the beam of the antenna')


def planes(s):
    """planes computed from the uv matrix are dropped when the matrix changes"""
    r = s.r
    pr = s.pr
    for c in s.classes('aipy.img.Img'):
        if 'wcache' not in s.stored or not any('wcache' in names(m) for b in s.mro(c) for m in b.methods.values()):
            continue
        r.units.append(c.qual)
        f, it, outs = s.outs(c, 'put', (('p', 'uvw'), ('p', 'data'), ('p', 'wgts'), C(None)))
        for o in outs:
            n = [i for i, e in enumerate(o.st.eff) if e[0] == 'store' and (rooted(e[1], at('uv')) or rooted(e[1], at('bm')))]
            if not n:
                continue
            r.count('obligations')
            t = s.touched(it, o, at('wcache'))
            v = it.freeze(o.st, cur(o.st, 'wcache'))
            if not t:
                r.add('planes-stale', '%s.put:wcache' % c.qual.replace('aipy.', ''), f.where(),
                      'put() changes the uv matrix; the W planes get() computed from it before are used on')
            elif v not in (('dict', ()), C(None)) and not any(e[0] == 'call' and e[1] == ('at', at('wcache'), 'clear') for e in o.st.eff):
                r.unsure('%s.put: wcache' % c.qual)


def names(f):
    import ast
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}


def maps(s):
    """set_interpol of a sky map reaches the map, the weights and every spectral index"""
    r = s.r
    c = s.pr.mods['aipy.map'].classes.get('Map')
    if c is None:
        r.unsure('no aipy.map.Map')
        return
    r.units.append(c.qual)
    on = ('p', 'onoff')
    f, it, outs = s.outs(c, 'set_interpol', (on,))
    for o in outs:
        r.count('obligations')
        got = [e[1][1] for e in o.st.eff if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'set_interpol' and on in e[2]]
        got += [e[1][1] for e in o.st.eff if e[0] == 'store' and e[1][0] in ('at', 'prop') and e[2] == on]
        if any(g[0] == 'it' and g[1][0] == 'op' for g in got):
            r.unsure('map.Map.set_interpol: %s' % show(got[0]))
            continue
        for part in ('map', 'wgt'):
            if at(part) not in got and not it.vague and not s.opaque(it, o, -1):
                r.add('not-every', 'map.Map.set_interpol:%s' % part, f.where(), 'set_interpol() does not reach self.%s' % part)
        if not any(g[0] == 'it' and g[1] == at('ind') and g[2][0] == 'idx' for g in got) and not it.vague and not s.opaque(it, o, -1):
            r.add('not-every', 'map.Map.set_interpol:ind', f.where(), 'set_interpol() does not reach every spectral index map')
