"""M12: fit parameters: what get_params names, set_params sets, in the same place; changes are reported and passed on."""
from sa import absint, py, report
from sa.absint import C, subterm, subst

SELF = ('p', 'self')
V = ('p', 'value')
STAR = C('*')


COPIES = ('float', 'list', 'tuple', 'array', 'asarray', 'copy', 'deepcopy', 'asfarray', 'complex', 'ravel', 'squeeze')


def turned(t):
    return t[1] if t[0] == 'at' and t[2] == 'T' else ('at', t, 'T')


def strip(t):
    """without conversions that keep the values (their order when laid out included)"""
    while True:
        if t[0] == 'call':
            f, a = t[1], t[2]
            nm = f[1].split('.')[-1] if f[0] == 'ext' else None
            if nm in COPIES + ('reshape', 'stack', 'vstack') and len(a) >= 1:
                if a[0][0] in ('list', 'tup'):
                    z = rows(a[0][1])
                    if z is None:
                        return t
                    t = z
                else:
                    t = a[0]
                continue
            if nm in ('transpose',) and len(a) == 1:
                t = turned(strip(a[0]))
                if t[0] == 'at' and t[2] == 'T':
                    return t
                continue
            if f[0] == 'at' and f[2] in ('flatten', 'ravel', 'copy', 'tolist', 'reshape', 'astype', 'item', 'squeeze'):
                t = f[1]
                continue
            if f[0] == 'at' and f[2] == 'transpose' and not a:
                t = turned(strip(f[1]))
                if t[0] == 'at' and t[2] == 'T':
                    return t
                continue
            return t
        if t[0] == 'at' and t[2] == 'flat':
            t = t[1]
            continue
        if t[0] == 'at' and t[2] == 'T':
            z = turned(strip(t[1]))
            if z[0] == 'at' and z[2] == 'T':
                return z
            t = z
            continue
        return t


def rows(els):
    """an array made of these rows: x when they are the rows of x, x transposed when they are its columns"""
    els = [strip(x) for x in els]
    if len(els) < 2 or not all(x[0] == 'it' and x[1] == els[0][1] for x in els):
        return None
    if all(x[2] == C(i) for i, x in enumerate(els)):
        return els[0][1]
    if all(x[2][0] == 'tup' and len(x[2][1]) == 2 and x[2][1][0][0] == 'sl' and x[2][1][1] == C(i) for i, x in enumerate(els)):
        return ('at', els[0][1], 'T')
    return None


def clean(t):
    """values compared: conversions removed everywhere"""
    t = strip(t)
    return tuple(clean(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(clean(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x
                 for x in t)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'p':
        return t[1]
    if k == 'at':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'prop':
        return '%s.get_%s()' % (show(t[1]), t[2])
    if k == 'it':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'idx':
        return 'i'
    if k == 'fmt':
        return '+'.join(repr(x) if isinstance(x, str) else show(x) for x in t[1])
    if k == 'str':
        return 'str(%s)' % show(t[1]) if absint.intlike(t[1]) else show(t[1])
    if k == 'trunc':
        return 'first %d digit(s) of %s' % (t[2], show(t[1]))
    if k == 'len':
        return 'len(%s)' % show(t[1])
    if k == 'lin':
        s = '+'.join('%s%s' % ('' if c == 1 else '-' if c == -1 else '%d*' % c, show(x)) for x, c in t[1])
        return (s + ('%+d' % t[2] if t[2] else '')).replace('+-', '-')
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join(show(x) for x in t[2]))
    if k == 'ext':
        return t[1].split('.')[-1]
    if k == 'op':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if k in ('list',):
        return '[%s]' % ', '.join(show(x) for x in t[1])
    if k == 'seg':
        return '*' + show(t[1])
    if k == 'sl':
        return ':'.join('' if x == C(None) else show(x) for x in t[1:])
    if k == 'cmp':
        ops = {'Eq': '==', 'NotEq': '!=', 'In': 'in', 'NotIn': 'not in', 'Is': 'is', 'IsNot': 'is not', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}
        return '%s %s %s' % (show(t[2]), ops.get(t[1], t[1]), show(t[3]))
    if k == 'bm':
        return '%s.%s' % (show(t[1]), t[2].split('.')[-1])
    return '%s' % (k,)


class Scene:
    """one class with parameters"""

    def __init__(self, r, cls):
        self.r, self.cls = r, cls
        self.pr = py.project()
        self.get = self.pr.method(cls, 'get_params')
        self.set = self.pr.method(cls, 'set_params')
        self.upd = self.pr.method(cls, 'update')
        self.name = cls.qual.replace('aipy.', '')

    def interp(self, vals=()):
        """self is of the class under study; recomputing is not followed (it does not concern parameters), only noted"""
        return absint.Interp(types={SELF: self.cls}, stop=lambda f: f.name == 'update' or f.name.startswith('_update'), given=vals)

    def state(self):
        return absint.St()

    def run_get(self, keys, st=None, it=None):
        """[(dict of results, state)]"""
        it = it or self.interp()
        self.it = it
        st = st.copy() if st else self.state()
        args = [SELF] if keys is None else [SELF, it.new(st, 'list', list(keys))]
        outs = it.call_func(self.get, args, (), st)
        res = []
        for o in outs:
            if o.kind != 'return':
                res.append((None, o.st))
                continue
            h = it.heap(o.st, o.value)
            res.append(({k: it.freeze(o.st, v) for k, v in h[1].items()} if h and h[0] == 'dict' else None, o.st))
        return res

    def run_set(self, vals):
        it = self.interp(set(vals.values()))
        st = self.state()
        d = it.new(st, 'dict', dict(vals))
        outs = it.call_func(self.set, [SELF, d], (), st)
        return it, d, outs

    def where(self, f):
        return f.where()

    def alarm(self, it, st, rule, construct, where, message, vals=()):
        """a finding when the path was followed exactly; undecided when it rests on what the analysis does not understand"""
        why = it.vague[0] if it.vague else None
        for c, v in st.conds.items():
            if not isinstance(c, tuple) or self.plain(c, v, vals):
                continue
            why = why or 'depends on %s' % show_cond(c)
        if why:
            self.r.unsure('%s [%s]: %s' % (construct, rule, why))
        else:
            self.r.add(rule, construct, where, message)

    def plain(self, c, v, vals):
        """a condition on nothing but the value given: whether it is zero, how it compares with a constant; or the answer of a part"""
        if c[0] == 'call' and c[1][0] == 'at' and c[1][2] == 'set_params':
            return True
        if c in vals:
            return True
        if c[0] == 'cmp' and all(x[0] in ('idx', 'len', 'trunc') for t in c[2:4] for x in absint.lin_of(t)[0]):
            return True
        return c[0] == 'cmp' and c[1] in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq') and \
            (c[2] in vals and c[3][0] == 'c' or c[3] in vals and c[2][0] == 'c')

    def study(self):
        r, name = self.r, self.name
        base = self.run_get([STAR])
        if any(x is None for x, _ in base) or not base:
            r.unsure('%s: what get_params gives could not be followed' % name)
            return
        keys = {}
        for d, st in base:
            for k, v in d.items():
                keys.setdefault(k, v)
        deleg = [k for k in keys if k[0] == 'all']
        keys = {k: v for k, v in keys.items() if k[0] != 'all'}
        r.count('classes')
        r.count('parameters', len(keys))
        for d, st in self.run_get(None):
            if d is None or {k: clean(v) for k, v in d.items() if k[0] != 'all'} != {k: clean(v) for k, v in keys.items()}:
                self.alarm(self.it, st, 'get-all', name, self.where(self.get), 'get_params() does not give all parameters')
        # asking for one gives that one
        for k in keys:
            for d, st in self.run_get([k]):
                r.count('requests')
                if d is None or k not in d:
                    self.alarm(self.it, st, 'get-one', '%s:%s' % (name, show(k)), self.where(self.get),
                                   'get_params([%s]) does not give the parameter that get_params(["*"]) gives under that name' % show(k))
                elif clean(d[k]) != clean(keys[k]):
                    self.alarm(self.it, st, 'get-one', '%s:%s' % (name, show(k)), self.where(self.get),
                          'get_params([%s]) gives %s, get_params(["*"]) gives %s' % (show(k), show(d[k]), show(keys[k])))
                if d and any(x not in (k,) and x[0] != 'all' for x in d):
                    self.alarm(self.it, st, 'get-one', '%s:%s:others' % (name, show(k)), self.where(self.get),
                          'get_params([%s]) gives other parameters too: %s' % (show(k), ', '.join(show(x) for x in d if x != k)))
        # nothing asked, nothing set
        it, d, none = self.run_set({})
        flags = any(o.kind == 'return' and o.value != C(None) for o in none)
        vals = {k: ('p', 'value of %s' % show(k)) for k in keys}
        rets = {}
        for k in keys:
            rets[k] = self.one({k: vals[k]}, keys)
        flags = flags or any(v for v in rets.values())
        # all at once, those that are part of another left out
        whole = [k for k in keys if not any(j != k and clean(keys[j]) != clean(keys[k]) and subterm(clean(keys[k]), clean(keys[j])) for j in keys)]
        if len(whole) > 1:
            self.one({k: vals[k] for k in whole}, keys, 'together')
            for i, a in enumerate(whole):
                for b in whole[i + 1:]:
                    self.one({a: vals[a], b: vals[b]}, keys, 'together')
        # lookups of names get does not know
        asked = {}
        tries = [none] + [self.run_set({k: vals[k]})[2] for k in list(keys)[:1]]
        for outs in tries:
            for o in outs:
                for e in o.st.eff:
                    if e[0] == 'lookup' and e[1] == d:
                        asked.setdefault(e[2], o)
        for k in asked:
            if k in keys:
                continue
            if any(absint.differ(k, j) is None for j in keys):
                continue
            r.add('set-unknown', '%s:%s' % (name, show(k)), self.where(self.set),
                  'set_params sets %s, which is not a name get_params gives: what it sets cannot be read back' % show(k))
        self.flags(flags, keys, vals, none)
        self.delegates(keys, vals, flags, bool(deleg))

    def one(self, vals, keys, how='alone'):
        """set these; read them back; list of returned values that are not None"""
        r, name = self.r, self.name
        it, d, outs = self.run_set(vals)
        label = '%s:%s' % (name, '+'.join(sorted(show(k) for k in vals)) if len(vals) < 3 else 'all')
        res = []
        for o in outs:
            if o.kind != 'return':
                r.unsure('%s: set_params raises %s on some path' % (label, o.value))
                continue
            res.append(o.value)
            r.count('settings')
            stores = [e for e in o.st.eff if e[0] in ('store', 'aug')]
            for e in stores:
                tgt = e[1][1] if e[0] == 'store' else e[1]
                for k, v in vals.items():
                    if self.within(tgt, v):
                        r.add('set-alters', '%s:%s' % (name, show(k)), '%s:%d' % (self.set.mod.path, e[3]),
                              'set_params changes the value it was given for %s in place (%s): the caller\'s array is altered' % (show(k), show(e[1])))
                if tgt == d:
                    r.add('set-alters', '%s:dictionary' % name, '%s:%d' % (self.set.mod.path, e[3]),
                          'set_params changes the dictionary it was given')
            for e in o.st.eff:
                if e[0] == 'del' and e[1] == d:
                    r.add('set-alters', '%s:dictionary' % name, '%s:%d' % (self.set.mod.path, e[3]), 'set_params takes entries out of the dictionary it was given')
            back = self.run_get([STAR], o.st, it)
            for g, st in back:
                if g is None:
                    r.unsure('%s: get_params after set_params could not be followed' % label)
                    continue
                for k, v in vals.items():
                    got = clean(it.freeze(st, g.get(k, C(None))))
                    if got == v:
                        r.count('read_back')
                        continue
                    if got == clean(keys[k]):
                        hits = [e for e in stores if subterm(it.freeze(st, e[2]), v)]
                        near = [e for e in hits if self.may_be(it.freeze(st, e[1]), keys[k])]
                        if near:
                            r.unsure('%s: whether %s is what get_params reads as %s' % (label, show(near[0][1]), show(keys[k])))
                            continue
                        other = [show(e[1]) for e in stores if subterm(it.freeze(st, e[2]), v)]
                        self.alarm(it, o.st, 'set-lost' if how == 'alone' else 'set-lost-together', '%s:%s' % (name, show(k)), self.where(self.set),
                              'set_params({%s: v}) does not set what get_params gives under that name (%s)%s%s' % (
                                  show(k), show(keys[k]), ': it sets %s' % ', '.join(other) if other else '',
                                  '' if how == 'alone' else ' when %s are set together' % ' and '.join(sorted(show(x) for x in vals))), set(vals.values()))
                    elif subterm(got, v):
                        self.alarm(it, o.st, 'set-differs', '%s:%s' % (name, show(k)), self.where(self.set),
                              'after set_params({%s: v}) get_params gives %s' % (show(k), show(got)))
                    else:
                        r.unsure('%s: what get_params gives for %s after set_params could not be followed' % (label, show(k)))
                # the others stay
                for k, v in keys.items():
                    if k in vals or k not in g:
                        continue
                    now, was = clean(it.freeze(st, g[k])), clean(v)
                    if now != was and not any(subterm(was, clean(keys[j])) or subterm(clean(keys[j]), was) for j in vals):
                        if any(subterm(now, x) for x in vals.values()):
                            self.alarm(it, o.st, 'set-spills', '%s:%s' % (name, show(k)), self.where(self.set),
                                  'setting %s also changes %s, to %s' % ('+'.join(show(x) for x in vals), show(k), show(now)))
        return [x for x in res if x != C(None)]

    def may_be(self, loc, read):
        """loc may be (part of) a place the value read comes from: same attribute, an index that is not understood"""
        for r_ in self.places(read):
            if self.alike(loc, r_):
                return True
        return False

    def places(self, t):
        if isinstance(t, tuple):
            if t and t[0] in ('at', 'it', 'prop') and self.on_self(t):
                yield t
            for x in t:
                if isinstance(x, tuple):
                    yield from self.places(x)

    def alike(self, a, b):
        if a[0] != b[0] or len(a) != len(b):
            return False
        if a == b:
            return True
        if a[0] in ('at', 'prop'):
            return a[2] == b[2] and (a[1] == b[1] or self.alike(a[1], b[1]))
        if a[0] == 'it':
            if not (a[1] == b[1] or self.alike(a[1], b[1])):
                return False
            return a[2] == b[2] or not (self.exact(a[2]) and self.exact(b[2]))
        return False

    def exact(self, k):
        d, c = absint.lin_of(k)
        return k[0] == 'c' or k[0] == 'sl' or all(x[0] in ('idx', 'len', 'trunc') for x in d)

    def within(self, t, v):
        """t is v or a view of it: conversions that copy are in the way"""
        while True:
            if t == v:
                return True
            if t[0] in ('it', 'at'):
                t = t[1]
                continue
            if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('asarray', 'ravel', 'reshape', 'transpose') and t[2]:
                t = t[2][0]
                continue
            if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('reshape', 'ravel', 'transpose', 'view', 'squeeze'):
                t = t[1][1]
                continue
            return False

    def updates(self, o):
        """position of the last store to the object and of the last recomputation"""
        last = upd = -1
        for n, e in enumerate(o.st.eff):
            if e[0] == 'store' and self.on_self(e[1]):
                last = n
            elif e[0] == 'aug' and self.on_self(e[1]):
                last = n
            elif e[0] == 'call' and self.is_update(e[1]):
                upd = n
        return last, upd

    def on_self(self, t):
        while t[0] in ('at', 'it', 'prop'):
            t = t[1]
        return t == SELF

    def is_update(self, f):
        if f[0] == 'bm' and f[1] == SELF:
            return f[2].split('.')[-1] == 'update' or f[2].split('.')[-1].startswith('_update')
        if f[0] == 'fn':
            return f[1].split('.')[-1] == 'update'
        return False

    def flags(self, flags, keys, vals, none):
        r, name = self.r, self.name
        if flags:
            for o in none:
                # a delegate may have changed: that is its own answer
                if o.kind == 'return' and o.value[0] == 'c' and o.value[1] and not any(v is True for v in o.st.conds.values()):
                    r.add('changed-always', name, self.where(self.set), 'set_params({}) reports a change although nothing was set')
        for k in keys:
            it, d, outs = self.run_set({k: vals[k]})
            for o in outs:
                if o.kind != 'return':
                    continue
                last, upd = self.updates(o)
                if last < 0:
                    continue
                r.count('changes')
                if flags:
                    for b, s in it.truth(o.value, o.st.copy()):
                        if not b:
                            self.alarm(it, s, 'changed-unreported', '%s:%s' % (name, show(k)), self.where(self.set),
                                  'set_params({%s: v}) sets the parameter but does not report a change (it returns %s)' % (show(k), show(o.value)), {vals[k]})
                if self.upd is not None and flags and upd < last:
                    self.alarm(it, o.st, 'changed-not-recomputed', '%s:%s' % (name, show(k)), self.where(self.set),
                          'after set_params({%s: v}) %s: quantities computed from it keep their old values' % (
                              show(k), 'update() is not called' if upd < 0 else 'update() was called before the parameter was set'), {vals[k]})

    def delegates(self, keys, vals, flags, gets):
        """parts (the beam of an antenna) that have parameters of their own"""
        r, name = self.r, self.name
        it, d, outs = self.run_set({C('\x00other'): V})
        sees = False
        for o in outs:
            if o.kind != 'return':
                continue
            part = [e for e in o.st.eff if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'set_params' and self.on_self(e[1][1])]
            sees = sees or bool(part)
            for e in part:
                r.count('delegations')
                if d not in e[2]:
                    r.unsure('%s: set_params of %s is called with something else than the parameters' % (name, show(e[1][1])))
                ct = [c for c in o.st.conds if isinstance(c, tuple) and c and c[0] == 'call' and c[1] == e[1]]
                changed = [c for c in ct if o.st.conds[c] is True]
                if ct and not changed:
                    continue
                if flags:
                    # the part changed, or nobody asked whether it did
                    val = o.value
                    if val[0] == 'c' and not val[1]:
                        r.add('changed-unreported', '%s:%s' % (name, show(e[1][1])), '%s:%d' % (self.set.mod.path, e[4]),
                              'set_params sets parameters of %s, but a change there is not reported: the caller goes on as if nothing had changed' % show(e[1][1]))
        if gets and not sees:
            r.add('delegate-not-set', name, self.where(self.set), 'get_params gives the parameters of a part of the object, set_params does not pass them on to it')
        if sees and not gets:
            r.add('delegate-not-got', name, self.where(self.get), 'set_params passes parameters on to a part of the object, get_params does not give them')


class Container:
    """a collection whose members have parameters: names select the same member both ways"""

    def __init__(self, r, cls):
        self.r, self.cls = r, cls
        self.pr = py.project()
        self.get, self.set = self.pr.method(cls, 'get_params'), self.pr.method(cls, 'set_params')
        self.upd = self.pr.method(cls, 'update')
        self.name = cls.qual.replace('aipy.', '')

    def study(self):
        r = self.r
        it = absint.Interp(types={SELF: self.cls}, stop=lambda f: f.name == 'update')
        st = absint.St()
        req = it.new(st, 'dict', {STAR: STAR})
        given = {}
        for o in it.call_func(self.get, [SELF, req], (), st):
            h = it.heap(o.st, o.value) if o.kind == 'return' else None
            if not h:
                continue
            for k, v in h[1].items():
                v = it.freeze(o.st, v)
                if v[0] == 'call' and v[1][0] == 'at' and v[1][2] == 'get_params':
                    given[k] = (v[1][1], v[2])
        if not given:
            r.unsure('%s: which members get_params asks could not be followed' % self.name)
            return
        r.count('containers')
        for k, (member, args) in given.items():
            it = absint.Interp(types={SELF: self.cls}, stop=lambda f: f.name == 'update')
            st = absint.St()
            d = it.new(st, 'dict', {k: V})
            outs = it.call_func(self.set, [SELF, d], (), st)
            answers = [o for o in outs if o.kind == 'return']
            flags = any(o.value != C(None) for o in answers)
            if flags:
                self.two(k, flags)
            for o in answers:
                calls = [(n, e) for n, e in enumerate(o.st.eff) if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == 'set_params']
                r.count('member_settings', len(calls))
                hit = [(n, e) for n, e in calls if V in e[2]]
                if not hit and (it.vague or any(isinstance(c, tuple) for c in o.st.conds)):
                    r.unsure('%s: set_params of %s depends on what is not followed' % (self.name, show(k)))
                    continue
                if not hit:
                    r.add('member-lost', '%s:%s' % (self.name, show(k)), self.set.where(),
                          'set_params({%s: p}) passes p to no member' % show(k))
                    continue
                for n, e in hit:
                    if e[1][1] != member:
                        if {x for x in it.indices(e[1][1])} == {x for x in it.indices(member)}:
                            r.add('member-other', '%s:%s' % (self.name, show(k)), '%s:%d' % (self.set.mod.path, e[4]),
                                  'get_params gives under %s the parameters of %s, set_params sets those of %s' % (show(k), show(member), show(e[1][1])))
                        else:
                            r.unsure('%s: members %s and %s' % (self.name, show(member), show(e[1][1])))
                        continue
                    r.count('members_matched')
                    if not flags:
                        continue
                    asked = [c for c in o.st.conds if isinstance(c, tuple) and c[0] == 'call' and c[1] == e[1]]
                    if asked and not any(o.st.conds[c] for c in asked):
                        continue
                    if o.value[0] == 'c' and not o.value[1]:
                        r.add('changed-unreported', '%s:%s' % (self.name, show(k)), '%s:%d' % (self.set.mod.path, e[4]),
                              'a change of a member is not reported by set_params')
                    upd = [m for m, x in enumerate(o.st.eff) if x[0] == 'call' and x[1][0] in ('bm', 'fn') and x[1][-1].split('.')[-1] == 'update']
                    if self.upd is not None and not any(m > n for m in upd):
                        r.add('changed-not-recomputed', '%s:%s' % (self.name, show(k)), '%s:%d' % (self.set.mod.path, e[4]),
                              'after a member changed, set_params does not recompute what the whole derives from its members')


    def two(self, k, flags):
        """one member changes, the next does not: that is still a change"""
        r = self.r
        it = absint.Interp(types={SELF: self.cls}, stop=lambda f: f.name == 'update')
        it.twice = True
        st = absint.St()
        k2 = subst(k, {x: ('idx', x[1], 'next') for x in it.indices(k)})
        if k2 == k:
            return
        w = ('p', 'second')
        d = it.new(st, 'dict', {k: V, k2: w})
        for o in it.call_func(self.set, [SELF, d], (), st):
            if o.kind != 'return':
                continue
            yes = [c for c, v in o.st.conds.items() if isinstance(c, tuple) and c[0] == 'call' and v is True and V in c[2]]
            no = [c for c, v in o.st.conds.items() if isinstance(c, tuple) and c[0] == 'call' and v is False and w in c[2]]
            mute = [e for e in o.st.eff if e[0] == 'call' and V in e[2] and ('call',) + (e[1], tuple(e[2]), ()) not in o.st.conds]
            r.count('pairs_of_members')
            if (yes or mute) and (no or o.value == C(False)) and o.value[0] == 'c' and not o.value[1]:
                r.add('changed-unreported', '%s:%s:earlier' % (self.name, show(k)), self.set.where(),
                      'when a member changes and a later one does not, set_params reports that nothing changed')
            elif (yes or mute) and o.value[0] == 'call' and w in o.value[2] and o.st.conds.get(o.value) is not True:
                r.add('changed-unreported', '%s:%s:earlier' % (self.name, show(k)), self.set.where(),
                      'set_params reports the answer of the last member only: a change of an earlier one is lost')


def round_trip(r):
    """a parameter dictionary flattened to a list and rebuilt is the dictionary"""
    pr = py.project()
    fl, re_ = pr.fn.get('aipy.fit.flatten_prms'), pr.fn.get('aipy.fit.reconstruct_prms')
    if fl is None or re_ is None:
        r.unsure('flatten_prms and reconstruct_prms not found')
        return
    sc, sq, sq2, sc2, sq3 = [('p', x) for x in ('scalar', 'list', 'list2', 'scalar2', 'list3')]
    shapes = [
        ({'a': sc}, 'one value'),
        ({'a': sq}, 'one list'),
        ({'a': sc, 'b': sq, 'c': sc2}, 'a list between values'),
        ({'a': sq, 'b': sq2, 'c': sc}, 'two lists'),
        ({'a': {'x': sc, 'y': sq}, 'b': {'x': sq2, 'y': sc2}}, 'members with values and lists'),
        ({'a': {'x': {'p': sc, 'q': sq}, 'y': sc2}, 'b': sq2, 'c': {}}, 'nested members'),
    ]
    for shape, label in shapes:
        it = absint.Interp(kinds={sc: 'scalar', sc2: 'scalar', sq: 'seq', sq2: 'seq', sq3: 'seq'})
        st = absint.St()

        def build(d):
            return it.new(st, 'dict', {C(k): build(v) if isinstance(v, dict) else v for k, v in d.items()})
        top = build(shape)
        want = it.freeze(st, top)
        try:
            for o in it.call_func(fl, [top], (), st):
                if o.kind != 'return' or o.value[0] != 'tup':
                    r.unsure('flattening %s could not be followed' % label)
                    continue
                lst, keys = o.value[1][:2]
                for p in it.call_func(re_, [lst, keys], (), o.st):
                    if p.kind != 'return':
                        r.unsure('rebuilding %s could not be followed' % label)
                        continue
                    r.count('shapes')
                    got = it.freeze(p.st, p.value)
                    if norm(got) == norm(want):
                        continue
                    if it.vague:
                        r.unsure('flatten/reconstruct of %s: %s' % (label, it.vague[0]))
                        continue
                    conds = ', '.join('%s %s' % ('' if v else 'not', show_cond(c)) for c, v in p.st.conds.items() if isinstance(c, tuple))
                    r.add('flatten', label, re_.where(), 'a parameter dictionary holding %s is not what reconstruct_prms rebuilds from flatten_prms%s: '
                          '%s becomes %s' % (label, ' (case: %s)' % conds if conds else '', showd(want), showd(got)))
        except absint.GaveUp as e:
            r.unsure('flatten/reconstruct of %s: %s' % (label, e))


def norm(t):
    """[*seq] is the sequence"""
    if isinstance(t, tuple):
        if t and t[0] == 'list' and len(t[1]) == 1 and t[1][0][0] == 'seg':
            return t[1][0][1]
        return tuple(norm(x) for x in t)
    return t


def show_cond(c):
    if c[0] == 'cmp':
        return '%s %s %s' % (show(c[2]), c[1], show(c[3]))
    return show(c)


def showd(t):
    if isinstance(t, tuple) and t and t[0] == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(k), showd(v)) for k, v in t[1])
    return show(t)


def run(tier):
    r = report.Result()
    pr = py.project()
    r.rule('Every name get_params gives can be asked for alone and gives the same value.')
    r.rule('Every name get_params gives is one set_params sets, at the place (attribute and element) get_params reads it from, alone, in pairs and all together; '
           'setting it leaves the others alone; set_params looks up no other names.')
    r.rule('set_params does not alter the values or the dictionary it is given.')
    r.rule('Where set_params reports changes it reports each, those of the object\'s parts and members included, and recomputes after the last change.')
    r.rule('A collection passes the parameters given under a name to the member whose parameters it gives under that name.')
    r.rule('reconstruct_prms rebuilds from the list and keys of flatten_prms the dictionary it was made of (lists of any length).')
    for c in pr.all_classes():
        if 'get_params' not in c.methods and 'set_params' not in c.methods:
            continue
        g, s = pr.method(c, 'get_params'), pr.method(c, 'set_params')
        if g is None or s is None:
            r.add('half', c.qual.replace('aipy.', ''), c.where(c.node), 'the class has %s but not its counterpart' % ('get_params' if g else 'set_params'))
            continue
        r.units.append(c.qual)
        try:
            member = any(isinstance(n, __import__('ast').Attribute) and n.attr == 'get_params' and
                         not (isinstance(n.value, __import__('ast').Attribute) and isinstance(n.value.value, __import__('ast').Name) and n.value.value.id == 'self')
                         and not (isinstance(n.value, __import__('ast').Call))
                         and not isinstance(py.project().resolve(g.mod, n.value), py.Class) for n in g.walk())
            (Container if member else Scene)(r, c).study()
        except absint.GaveUp as e:
            r.unsure('%s: %s' % (c.qual, e))
    round_trip(r)
    r.floor('classes', 4)
    r.floor('read_back', 20)
    return r
