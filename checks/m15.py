"""M15: a copied data set keeps its records, flags, variables and header items."""
from sa import absint, ir, py
from sa.absint import C, subterm
from checks.m12 import show

SELF, UV, PRE, DATA, FLAGS = ('p', 'self'), ('p', 'uv'), ('p', 'preamble'), ('p', 'data'), ('p', 'flags')
MASKED = ('array', 'masked_array', 'MaskedArray')
SAME = ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy', 'require', 'atleast_1d')
CPLX = ('complex64', 'complex128', 'csingle', 'cdouble', 'complex', 'singlecomplex', 'cfloat')


def ext(t):
    return t[1][1] if t[0] == 'call' and t[1][0] == 'ext' else None


def last(t):
    n = ext(t)
    return n.split('.')[-1] if n else None


def arg(t, k, name):
    for x, v in t[3]:
        if x == name:
            return v
    return t[2][k] if len(t[2]) > k else None


def typename(t):
    if t is None:
        return None
    if t[0] == 'ext':
        return t[1].split('.')[-1]
    if absint.isc(t, str):
        return t[1]
    return '?'


class Norm:
    """what a value amounts to, in terms of what the native layer returned or the caller gave"""

    def masked(self, t):
        """(data, mask) of a masked array made here, else None"""
        if t[0] == 'call' and t[1][0] == 'ext' and ('.ma.' in t[1][1] or t[1][1].startswith('ma.')):
            n = t[1][1].split('.')[-1]
            if n in MASKED:
                m = arg(t, 4 if n == 'array' else 1, 'mask')
                return (t[2][0], m) if t[2] and m is not None else None
            if n == 'masked_where' and len(t[2]) >= 2:
                return t[2][1], t[2][0]
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('copy', 'astype', 'view'):
            return self.masked(t[1][1])
        return None

    def data(self, t):
        """values of the visibilities, conversions that keep them removed; anything that may not keep them stays"""
        while True:
            m = self.masked(t)
            if m:
                t = m[0]
                continue
            if t[0] == 'at' and t[2] in ('data', '_data'):
                t = t[1]
                continue
            if ext(t) and '.ma.getdata' in ext(t) and t[2]:
                t = t[2][0]
                continue
            if last(t) in SAME and t[2] and typename(arg(t, 1, 'dtype')) in CPLX + (None,):
                t = t[2][0]
                continue
            if last(t) in ('complex64', 'complex128', 'csingle') and len(t[2]) == 1:
                t = t[2][0]
                continue
            if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('copy', 'astype') and (t[1][2] == 'copy' or t[2] and typename(t[2][0]) in CPLX):
                t = t[1][1]
                continue
            c = self.cut(t, self.data)
            return c if c is not None else t

    def cut(self, t, inner):
        """x[:n], x[0:n:1] as one form"""
        if t[0] == 'it' and t[2][0] == 'sl' and t[2][1] in (C(None), C(0)) and t[2][3] in (C(None), C(1)) and t[2][2] != C(None):
            return ('first', inner(t[1]), t[2][2])
        if t[0] == 'it' and t[2] == ('sl', C(None), C(None), C(None)):
            return inner(t[1])
        return None

    def flags(self, t):
        """(what, negated) of an array used as true/false"""
        neg = False
        boo = False
        while True:
            nm = last(t)
            if nm in ('logical_not',) and len(t[2]) >= 1:
                t, neg, boo = t[2][0], not neg, True
                continue
            if nm in SAME + ('int32', 'bool_', 'intc', 'getmaskarray', 'getmask') and t[2]:
                if nm in ('getmaskarray', 'getmask'):
                    m = self.masked(t[2][0])
                    t = m[1] if m else ('at', self.data(t[2][0]), 'mask')
                else:
                    t = t[2][0]
                continue
            if nm in ('where',) and len(t[2]) == 3 and t[2][1:] in ((C(0), C(1)), (C(False), C(True))):
                t, neg = t[2][0], not neg
                continue
            if nm in ('where',) and len(t[2]) == 3 and t[2][1:] in ((C(1), C(0)), (C(True), C(False))):
                t = t[2][0]
                continue
            if nm in ('equal', 'not_equal') and len(t[2]) == 2 and absint.isc(t[2][1]):
                t = ('cmp', 'Eq' if nm == 'equal' else 'NotEq', t[2][0], t[2][1])
            if t[0] == 'call' and t[1][0] == 'at' and t[1][2] in ('astype', 'copy', 'view') and typename(t[2][0] if t[2] else None) not in ('?',):
                t = t[1][1]
                continue
            if t[0] == 'cmp' and t[1] in ('Eq', 'NotEq') and t[3] in (C(0), C(False), C(1), C(True)):
                if (t[1] == 'Eq') != (t[3][1] in (1, True)):
                    neg = not neg
                t = t[2]
                continue
            if t[0] == 'op' and t[1] == 'Sub' and t[2] in (C(1), C(True)):
                t, neg = t[3], not neg
                continue
            if t[0] == 'un' and t[1] == 'Invert' and self.boolean(t[2]):
                t, neg = t[2], not neg
                continue
            if t[0] == 'at' and t[2] in ('mask', '_mask'):
                m = self.masked(t[1])
                if m:
                    t = m[1]
                    continue
                return ('at', self.data(t[1]), 'mask'), neg
            if nm in ('ones', 'ones_like') or nm == 'full' and arg(t, 1, 'fill_value') in (C(1), C(True)):
                return ('all',), neg
            if nm in ('zeros', 'zeros_like') or nm == 'full' and arg(t, 1, 'fill_value') in (C(0), C(False)):
                return ('all',), not neg
            c = self.cut(t, lambda x: x)
            if c is not None:
                if c[0] != 'first':
                    t = c
                    continue
                x, n = self.flags(c[1])
                return (x if x == ('all',) else ('first', x, c[2])), neg != n
            return t, neg

    def boolean(self, t):
        nm = last(t)
        if nm in ('logical_not', 'getmaskarray', 'equal', 'not_equal', 'isnan', 'isfinite'):
            return True
        if t[0] == 'cmp':
            return True
        if t[0] == 'at' and t[2] in ('mask', '_mask'):
            return True
        if t[0] == 'call' and t[1][0] == 'at' and t[1][2] == 'astype' and t[2] and typename(t[2][0]) in ('bool', 'bool_', '?b'):
            return True
        if t[0] == 'un' and t[1] == 'Invert' or t[0] == 'it' and t[2][0] == 'sl':
            return self.boolean(t[2] if t[0] == 'un' else t[1])
        return False


N = Norm()


def about_mask(t):
    """does a path condition ask whether there is a mask (rather than what it holds)"""
    s = repr(t)
    return "'mask'" in s or "'_mask'" in s or 'getmask' in s or 'is_masked' in s


def no_mask(conds):
    """does the path hold only for data without a mask: True, False, or None when the conditions are not understood"""
    v = False
    for k, b in conds.items():
        if k == '#exc' or not about_mask(k):
            continue
        r = None
        if k[0] == 'cmp':
            op, x, y = k[1:]
            if y[0] != 'c' and y[0] != 'ext':
                x, y = y, x
            if x[0] == 'len' and x[1][0] == 'at' and x[1][2] == 'shape' or x[0] == 'at' and x[2] == 'ndim' or last(x) == 'ndim':
                if y == C(0):
                    r = {'Eq': b, 'NotEq': not b, 'Gt': not b, 'LtE': b}.get(op)
            elif x[0] == 'at' and x[2] == 'shape' and y == ('tup', ()):
                r = {'Eq': b, 'NotEq': not b}.get(op)
            elif 'nomask' in repr(y) or y == C(False):
                r = {'Is': b, 'IsNot': not b}.get(op)
        elif last(k) == 'isscalar':
            r = b
        elif k[0] == 'at' and k[2] in ('shape', 'ndim'):
            r = not b
        elif last(k) == 'is_masked':
            r = not b
        elif k[0] == 'call' and k[1][0] == 'at' and k[1][2] == 'any' or last(k) == 'any':
            r = not b
        if r is None:
            return None
        v = v or r
    return v


def raw_calls(o, name):
    """the calls of a native method this path makes"""
    return [e for e in o.st.eff if e[0] == 'call' and e[1][0] == 'at' and e[1][2] == name]


class Copying(absint.Interp):
    """d.get(k, x) of a dictionary given: what it holds, or x"""

    def meth(self, b, name, a, kws, st, f, depth, n):
        if name == 'get' and b == ('p', 'override') and 1 <= len(a) <= 2 and not kws:
            out = []
            for t, s in self.truth(self.cmp('In', a[0], b, st), st):
                out.append((('it', b, a[0]) if t else a[1] if len(a) > 1 else C(None), s))
            return out
        return absint.Interp.meth(self, b, name, a, kws, st, f, depth, n)


class Check:
    def __init__(self, r):
        self.r, self.pr = r, py.project()
        self.cls = self.pr.mods['aipy.miriad'].classes.get('UV')
        if self.cls is None:
            raise ir.AnalysisBroken('aipy.miriad.UV is gone')
        self.m = {}
        for n in ('read', 'write', 'all', 'pipe', 'init_from_uv'):
            self.m[n] = self.pr.method(self.cls, n)
            if self.m[n] is None:
                raise ir.AnalysisBroken('UV.%s is gone' % n)

    def where(self, n, line=None):
        f = self.m[n]
        return '%s:%d' % (f.mod.path.split('/repo/')[-1] if '/repo/' in f.mod.path else f.mod.path, line or f.node.lineno)

    # ------------------------------------------------------------ one record
    def run(self, name, args, kws=(), st=None, **kw):
        it = absint.Interp(types={SELF: self.cls}, **kw)
        return it, it.call_func(self.m[name], args, kws, st or absint.St())

    def records(self, raw):
        """what read gives: [(value, state, the native record)]"""
        res = []
        it, outs = self.run('read', [SELF], (('raw', C(raw)),))
        for o in outs:
            self.r.count('paths')
            rd = raw_calls(o, 'raw_read')
            if len(rd) != 1:
                self.r.add('C1-record', 'read', self.where('read'), 'a path through read(raw=%s) takes %d native records (one wanted)' % (raw, len(rd)))
                continue
            e = rd[0]
            rec = ('call', e[1], e[2], e[3])
            if o.kind == 'return':
                res.append((it.freeze(o.st, o.value), o.st, rec))
            else:
                # the record may be refused only when nothing was read
                empty = [k for k, b in o.st.conds.items() if k != '#exc' and subterm(k, ('it', rec, C(3))) and self.empty(k, rec) == b]
                self.r.count('refusals')
                if not empty:
                    self.r.unsure('read(raw=%s) raises %s other than on an empty record' % (raw, o.value))
                elif o.value.split('.')[-1] not in ('IOError', 'OSError', 'EnvironmentError', 'EOFError', 'StopIteration'):
                    self.r.unsure('read(raw=%s) raises %s at the end of the data' % (raw, o.value))
        return res

    def empty(self, k, rec):
        n = ('it', rec, C(3))
        if k == n:
            return False
        if k[0] == 'cmp' and k[2] == n and k[3] in (C(0), C(1)):
            return {('Eq', 0): True, ('NotEq', 0): False, ('LtE', 0): True, ('Gt', 0): False, ('Lt', 1): True, ('GtE', 1): False}.get((k[1], k[3][1]))
        return None

    def compose(self):
        r = self.r
        r.rule('What read returns, handed to write, must reach the native writer as the preamble, visibilities and flags the native reader gave, cut to the number of '
               'channels read (polarity followed through every negation, conversions only to complex types).')
        cuts = self.native_cuts()
        for raw in (False, True):
            for v, st, rec in self.records(raw):
                parts = v[1] if v[0] == 'tup' else None
                want = 3 if raw else 2
                if parts is None or len(parts) != want:
                    r.unsure('read(raw=%s) returns %s: not understood' % (raw, show(v)))
                    continue
                if any(self.empty(k, rec) == b for k, b in st.conds.items() if k != '#exc'):
                    r.add('C1-empty', 'read', self.where('read'), 'an empty record is returned instead of refused: iteration never ends')
                    continue
                it, outs = self.run('write', [SELF] + list(parts), (), given=tuple(parts))
                for o in outs:
                    r.count('paths')
                    self.written(o, it, 'read(raw=%s) then write' % raw, rec, cuts)
        r.floor('written', 2)

    def native_cuts(self):
        """does the native reader itself return arrays of the length read"""
        m = ir.compile_extension('aipy._miriad')
        for f in m.functions.values():
            if any(True for _ in f.calls('uvread_c')):
                names = {i.callee() for i in f.calls()}
                if names & {'PyArray_Resize', 'PyArray_Newshape', 'PySequence_GetSlice', 'PyObject_GetItem'}:
                    return True
        return False

    def written(self, o, it, what, rec, cuts):
        r = self.r
        wr = raw_calls(o, 'raw_write')
        nm = no_mask(o.st.conds)
        if o.kind != 'return':
            if nm is False and not any(k != '#exc' for k in o.st.conds):
                r.add('C2-refused', 'write', self.where('write'), '%s: raises %s' % (what, o.value))
            return
        if nm:          # what read returns always has a mask
            return
        if len(wr) != 1:
            other = [k for k in o.st.conds if k != '#exc' and not about_mask(k)]
            if not wr and o.st.conds and not other:
                r.unsure('%s: nothing is written under a condition on the mask' % what)
            else:
                r.add('C2-count', 'write', self.where('write'), '%s: %d native records written (one wanted)%s' %
                      (what, len(wr), ', when ' + '; '.join(show(k) for k in other) if other else ''))
            return
        e = wr[0]
        a = [it.freeze(o.st, x) for x in e[2]]
        if len(a) != 3:
            r.unsure('%s: raw_write called with %d arguments' % (what, len(a)))
            return
        r.count('written')
        n = ('it', rec, C(3))
        pre, d, (fl, neg) = a[0], N.data(a[1]), N.flags(a[2])
        at = self.where('write', e[4])
        if pre != ('it', rec, C(0)):
            full = ('tup', tuple(('it', ('it', rec, C(0)), C(i)) for i in range(3)))
            if pre != full:
                if subterm(pre, rec):
                    r.unsure('%s: the preamble written is %s' % (what, show(pre)))
                else:
                    r.add('C2-preamble', 'write', at, '%s: the preamble written is %s, not the one read' % (what, show(pre)))
        for t, k, name in ((d, 1, 'visibilities'), (fl, 2, 'flags')):
            src = ('it', rec, C(k))
            if t == ('first', src, n) or t == src and cuts:
                continue
            if t == src:
                r.add('C2-length', '%s:%s' % ('read', name), self.where('read'),
                      '%s: the %s are not cut to the number of channels read: channels of the buffer beyond it become part of the record' % (what, name))
            elif t[0] == 'first' and t[1] == src:
                r.unsure('%s: the %s are cut to %s' % (what, name, show(t[2])))
            elif t == ('all',):
                if nm is None:
                    r.unsure('%s: all flags one value under a condition on the mask' % what)
                else:
                    r.add('C2-flags', 'write', at, '%s: the flags written do not depend on those read' % what)
            elif any(x[0] == 'call' and x not in (rec,) for x in calls_in(t)) and self.keeps(t, src) and not lossy(t):
                r.unsure('%s: the %s written are %s' % (what, name, show(t)))
            else:
                r.add('C2-%s' % name, 'write', at, '%s: the %s written are %s, not those read' % (what, name, show(t)))
        if fl[0] == 'first' and fl[1] == ('it', rec, C(2)) and neg:
            r.add('C2-polarity', 'write', at, '%s: the flags come back negated: good data are written as bad and bad as good' % what)

    def keeps(self, t, src):
        """made from the right array by a call not understood"""
        return subterm(t, src)

    def plain(self):
        """write on its own"""
        r = self.r
        r.rule('write(p, None) must write nothing; with flags given the file must get their negation, without flags that of the mask, and all good where there is no mask.')
        it, outs = self.run('write', [SELF, PRE, C(None)], ())
        for o in outs:
            r.count('paths')
            if raw_calls(o, 'raw_write'):
                r.add('C3-none', 'write', self.where('write'), 'write(preamble, None) writes a record: a record pipe was told to omit is kept')
            elif o.kind != 'return':
                r.add('C3-none', 'write', self.where('write'), 'write(preamble, None) raises %s instead of omitting the record' % o.value)
        it, outs = self.run('write', [SELF, PRE, C(None), FLAGS], (), given=(FLAGS,))
        for o in outs:
            r.count('paths')
            if raw_calls(o, 'raw_write') or o.kind != 'return':
                r.add('C3-none', 'write', self.where('write'), 'write(preamble, None, flags) does not omit the record')
        for fl in (C(None), FLAGS):
            it, outs = self.run('write', [SELF, PRE, DATA, fl], (), given=(DATA, FLAGS))
            for o in outs:
                r.count('paths')
                wr = raw_calls(o, 'raw_write')
                if o.kind != 'return' or len(wr) != 1 or len(wr[0][2]) != 3:
                    if o.kind == 'return' and not wr:
                        r.add('C3-lost', 'write', self.where('write'), 'a record with data is not written' +
                              (' when ' + '; '.join('%s is %s' % (show(k), b) for k, b in o.st.conds.items()) if o.st.conds else ''))
                    continue
                a = [it.freeze(o.st, x) for x in wr[0][2]]
                at = self.where('write', wr[0][4])
                t, neg = N.flags(a[2])
                d = N.data(a[1])
                nm = no_mask(o.st.conds)
                r.count('writes')
                if a[0] != PRE:
                    (r.unsure if subterm(a[0], PRE) else lambda s: r.add('C3-preamble', 'write', at, s))('the preamble written is %s' % show(a[0]))
                if d != DATA:
                    if any(subterm(x, DATA) for x in calls_in(d)) and not lossy(d):
                        r.unsure('the visibilities written are %s' % show(d))
                    else:
                        r.add('C3-data', 'write', at, 'the visibilities written are %s, not those given' % show(d))
                if fl == FLAGS:
                    good = t == FLAGS and neg
                    known = t in (FLAGS, ('all',)) or t == ('at', DATA, 'mask')
                else:
                    m = ('at', DATA, 'mask')
                    good = t == m and neg or t == ('all',) and not neg and nm
                    known = t == m and not nm or t == ('all',) and (neg or nm is False)
                if not good:
                    msg = 'with flags %s the file gets %s%s' % ('given' if fl == FLAGS else 'left out' + (' and data without a mask' if nm else ''), 'the negation of ' if neg else '',
                                                              'the same flag for every channel' if t == ('all',) else show(t))
                    if known:
                        r.add('C3-flags', 'write', at, msg)
                    else:
                        r.unsure(msg)
        r.floor('writes', 2)

    # ------------------------------------------------------------ iteration
    def iteration(self):
        r = self.r
        r.rule('all() must yield each result of read unchanged, with the caller\'s raw, and stop only where read reports the end.')
        for raw in (True, False):
            it, outs = self.run('all', [SELF], (('raw', C(raw)),), stop=lambda f: f is self.m['read'])
            seen = 0
            for o in outs:
                r.count('paths')
                reads = [e for e in o.st.eff if e[0] == 'call' and e[1][0] == 'bm' and e[1][2] == self.m['read'].qual]
                ys = [e for e in o.st.eff if e[0] in ('yield', 'yieldfrom')]
                if any(e[0] == 'yieldfrom' for e in ys):
                    r.unsure('all(raw=%s) delegates to another iterator' % raw)
                    return
                vals = [('call', e[1], tuple(it.freeze(o.st, x) for x in e[2]), tuple((k, it.freeze(o.st, v)) for k, v in e[3])) for e in reads]
                for e in reads:
                    r.count('reads')
                    got = dict(e[3]).get('raw', e[2][0] if e[2] else C(False))
                    if absint.isc(got) and bool(got[1]) != raw:
                        r.add('C4-raw', 'all', self.where('all', e[4]), 'all(raw=%s) reads with raw=%s' % (raw, got[1]))
                    elif not absint.isc(got):
                        r.unsure('all(raw=%s) reads with raw=%s' % (raw, show(got)))
                for y in ys:
                    seen += 1
                    r.count('yields')
                    v = it.freeze(o.st, y[1])
                    if v in vals or self.spread(v, vals, 3 if raw else 2):
                        continue
                    if v[0] in ('tup', 'it', 'call') and any(subterm(v, x) for x in vals):
                        r.add('C4-yield', 'all', self.where('all', y[2]), 'all(raw=%s) yields %s, not the record read' % (raw, show(v)))
                    else:
                        r.unsure('all(raw=%s) yields %s' % (raw, show(v)))
                if len(reads) > len(ys) and o.kind in ('return', 'next'):
                    r.add('C4-skip', 'all', self.where('all', reads[0][4]), 'all(raw=%s) reads a record and does not yield it%s' % (
                        raw, ' when ' + '; '.join('%s is %s' % (show(k), b) for k, b in o.st.conds.items() if k != '#exc') if o.st.conds else ''))
            if not seen:
                r.unsure('all(raw=%s): no yield seen' % raw)
        # which exceptions end the iteration quietly
        import ast
        f = self.m['all']
        for n in ast.walk(f.node):
            if isinstance(n, ast.ExceptHandler):
                r.count('handlers')
                ts = None if n.type is None else [py.dotted(x) for x in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type])]
                if ts is None or set(ts) & {'Exception', 'BaseException', 'RuntimeError'}:
                    if not any(isinstance(x, ast.Raise) for x in ast.walk(n)):
                        r.add('C4-end', 'all', self.where('all', n.lineno),
                              'a failure of the native reader (RuntimeError) ends the iteration as if the data were over: the copy is silently cut short')

    def spread(self, v, vals, n):
        return any(v == ('tup', tuple(('it', x, C(i)) for i in range(n))) for x in vals)

    # ------------------------------------------------------------ pipe
    def pipe(self):
        r = self.r
        r.rule('pipe must hand every record of the input to the callback once, copy the changed variables for every record before writing, write exactly what the callback returned, '
               'and leave the history as it was with the addition at its end.')
        names = {'all', 'write', 'read', '_wrhd', '_rdhd', '__getitem__', '__setitem__', 'init_from_uv', 'items', 'vars'}
        for raw in (True, False):
            MF, H = ('p', 'mfunc'), ('p', 'append2hist')
            it = absint.Interp(types={SELF: self.cls, UV: self.cls}, stop=lambda f: f.cls is self.cls and f.name in names, given=(UV, MF, H))
            for o in it.call_func(self.m['pipe'], [SELF, UV, MF, H, C(raw)], (), absint.St()):
                r.count('paths')
                n0 = len(r.findings)
                self.pipe_path(it, o, raw, MF, H)
                if it.vague and len(r.findings) > n0:
                    del r.findings[n0:]
                    r.unsure('pipe(raw=%s): %s' % (raw, it.vague[0]))
        r.floor('callbacks', 2)

    def pipe_path(self, it, o, raw, MF, H):
        r = self.r
        fz = lambda t: it.freeze(o.st, t)
        conds = '; '.join('%s is %s' % (show(k), b) for k, b in o.st.conds.items() if k != '#exc')
        when = ' when ' + conds if conds else ''
        if o.kind != 'return':
            r.unsure('pipe(raw=%s) raises %s%s' % (raw, o.value, when))
            return
        hist = rec = cb = None
        copied, written, wrote_rec = 0, [], []
        calls = []
        for e in o.st.eff:
            if e[0] == 'store' and e[1] == ('it', SELF, C('history')):
                hist = (fz(e[2]), e[3])
            if e[0] != 'call':
                continue
            fv, a, line = e[1], e[2], e[4]
            name = fv[2].split('.')[-1] if fv[0] in ('bm', 'at') else None
            base = fv[1] if fv[0] in ('bm', 'at') else None
            if base == SELF and name == '_wrhd' and a and fz(a[0]) == C('history'):
                hist = (fz(a[1]), line)
            elif base == UV and name == 'all':
                got = dict(e[3]).get('raw', a[0] if a else C(False))
                got = fz(got)
                r.count('inputs')
                if absint.isc(got):
                    if bool(got[1]) != raw:
                        r.add('C5-raw', 'pipe', self.where('pipe', line), 'pipe(raw=%s) reads with raw=%s' % (raw, got[1]))
                else:
                    r.unsure('pipe(raw=%s) reads with raw=%s' % (raw, show(got)))
                seq = ('call', fv, tuple(fz(x) for x in a), tuple((k, fz(v)) for k, v in e[3]))
                rec = seq
            elif fv == MF:
                cb = ('call', fv, tuple(fz(x) for x in a), tuple((k, fz(v)) for k, v in e[3]))
                calls.append((cb, line))
            elif base == SELF and name == 'copyvr':
                if a and fz(a[0]) == UV:
                    copied += 1
            elif base == SELF and name == 'write':
                written.append((tuple(fz(x) for x in a), dict((k, fz(v)) for k, v in e[3]), line, copied))
        # history
        old = ('it', SELF, C('history'))
        if hist is None:
            r.add('C5-history', 'pipe', self.where('pipe'), 'the history is not extended%s' % when)
        else:
            v = hist[0]
            parts = flat_sum(v)
            rd = [x for x in parts if x == old or x[0] == 'call' and x[1][0] == 'bm' and x[1][1] == SELF and x[1][2].endswith('._rdhd') and x[2] == (C('history'),)]
            ok = len(rd) == 1 and parts and parts[0] in rd and parts[-1] == H and all(absint.isc(x, str) for x in parts[1:-1])
            r.count('histories')
            if not ok:
                if parts == [H] or parts[:1] == [H] or v == old or not subterm(v, H):
                    r.add('C5-history', 'pipe', self.where('pipe', hist[1]), 'the history becomes %s, not what it was followed by append2hist' % show(v))
                else:
                    r.unsure('the history becomes %s' % show(v))
        if rec is None:
            r.unsure('pipe(raw=%s)%s: records are not taken from uv.all()' % (raw, when))
            return
        el = [x for x in it_of(calls[0][0], rec)] if calls else []
        if not calls:
            r.add('C5-callback', 'pipe', self.where('pipe'), 'records do not go through the callback%s' % when)
            return
        r.count('callbacks')
        if len(calls) > 1:
            r.add('C5-callback', 'pipe', self.where('pipe', calls[1][1]), 'the callback is called %d times for one record%s' % (len(calls), when))
        cb, line = calls[-1]
        k = 3 if raw else 2
        want = (UV,) + tuple(('it', el[0], C(i)) for i in range(k)) if el else None
        if el and cb[2] not in (want, (UV, ('star', el[0]))):
            if all(x in set(want) | {C(None)} for x in cb[2]) or len(cb[2]) == len(want):
                r.add('C5-callback', 'pipe', self.where('pipe', line), 'the callback gets (%s), not the input data set and the record' % ', '.join(show(x) for x in cb[2]))
            else:
                r.unsure('the callback gets (%s)' % ', '.join(show(x) for x in cb[2]))
        if not copied:
            r.add('C5-copyvr', 'pipe', self.where('pipe'), 'variables that changed with a record are not copied%s' % when)
        dropped = [c for c, b in o.st.conds.items() if c != '#exc' and b and c == ('cmp', 'Is', ('it', cb, C(1)), C(None))]
        dropped += [c for c, b in o.st.conds.items() if c != '#exc' and not b and c == ('cmp', 'IsNot', ('it', cb, C(1)), C(None))]
        if not written:
            if not dropped:
                r.add('C5-write', 'pipe', self.where('pipe'), 'a record the callback returned is not written%s' % when)
            return
        if len(written) > 1:
            r.add('C5-write', 'pipe', self.where('pipe', written[1][2]), 'a record is written %d times%s' % (len(written), when))
        a, kw, line, before = written[0]
        order = ['preamble', 'data', 'flags']
        vals = list(a) + [kw[n] for n in order[len(a):] if n in kw]
        full = [('it', cb, C(i)) for i in range(k)]
        if vals != full and vals != [('star', cb)] and vals != full + [C(None)]:
            if all(x in full or absint.isc(x) or x in [('it', el[0], C(i)) for i in range(k)] for x in vals):
                r.add('C5-write', 'pipe', self.where('pipe', line), 'write gets (%s), not what the callback returned%s' % (', '.join(show(x) for x in vals), when))
            else:
                r.unsure('write gets (%s)%s' % (', '.join(show(x) for x in vals), when))
        if copied and not before:
            r.add('C5-copyvr', 'pipe', self.where('pipe', line), 'the variables are copied after the record is written: they belong to the next one%s' % when)

    # ------------------------------------------------------------ initialisation
    def init(self):
        r = self.r
        r.rule('init_from_uv, for every header item and variable of the source: excluded ones are not written; overridden ones are written once with the override and not tracked; '
               'all others are written once with the source\'s value, and variables tracked for copying under their own name and declared with the source\'s type.')
        OV, EX = ('p', 'override'), ('p', 'exclude')
        names = {'items', 'vars', '_wrhd', '_rdhd', '__getitem__', '__setitem__', 'read', 'write', 'pipe', '_gen_vartable', 'all'}
        it = Copying(types={SELF: self.cls, UV: self.cls}, stop=lambda f: f.cls is self.cls and f.name in names, given=(OV, EX))
        outs = it.call_func(self.m['init_from_uv'], [SELF, UV, OV, EX], (), absint.St())
        todo = {}
        for o in outs:
            r.count('paths')
            if o.kind != 'return':
                r.unsure('init_from_uv raises %s' % o.value)
                continue
            for kind in ('items', 'vars'):
                self.init_path(it, o, kind, OV, EX, todo)
        if it.vague:
            r.unsure('init_from_uv: ' + it.vague[0])
            self.scenario()
            return
        for kind in ('items', 'vars'):
            got = {k[1] for k in todo if k[0] == kind}
            for c in ('excluded', 'overridden', 'copied'):
                if c in got:
                    r.count('cases')
            for (kd, c), (rule, msg, line) in sorted(todo.items(), key=repr):
                if kd != kind or rule is None or str(c).startswith('miss') and (kind, 'form') in todo:
                    continue
                if rule == '?':
                    r.unsure(msg)
                else:
                    r.add(rule, 'init_from_uv:' + kind, self.where('init_from_uv', line), msg)
        self.scenario()
        r.floor('scenario_names', 12)

    def init_path(self, it, o, kind, OV, EX, todo):
        fz = lambda t: it.freeze(o.st, t)
        srcs = [e for e in o.st.eff if e[0] == 'call' and e[1] == ('bm', UV, '%s.%s' % (self.cls.qual, kind))]
        what = 'header item' if kind == 'items' else 'variable'
        keys = set()
        for e in o.st.eff:
            for t in e:
                if isinstance(t, tuple):
                    keys |= set(self.elements(fz(t), kind))
        for c in o.st.conds:
            if c != '#exc':
                keys |= set(self.elements(c, kind))
        if len(keys) != 1:
            todo[(kind, 'form')] = ('?', 'init_from_uv: the %ss are not taken one by one from %s()' % (what, kind), None)
            return
        key, = keys
        status, odd = None, []
        facts = {}
        for c, b in o.st.conds.items():
            if c == '#exc' or not subterm(c, key):
                continue
            if c[0] == 'cmp' and c[1] in ('In', 'NotIn') and c[2] == key and c[3] in (OV, EX):
                facts[c[3]] = b == (c[1] == 'In')
            elif c[0] == 'cmp' and c[1] in ('Eq', 'NotEq') and key in c[2:] and absint.isc(c[3] if c[2] == key else c[2], str):
                n = (c[3] if c[2] == key else c[2])[1]
                if b == (c[1] == 'Eq'):
                    facts['name'] = n
            elif c[0] == 'cmp' and c[1] in ('In', 'NotIn') and c[2] == key and c[3][0] == 'tup':
                if b == (c[1] == 'In'):
                    facts['name'] = '/'.join(str(x[1]) for x in c[3][1] if absint.isc(x))
            else:
                odd.append(c)
        if facts.get(EX):
            status = 'excluded'
        elif facts.get('name') == 'corr' and kind == 'vars':
            return          # the visibilities themselves
        elif facts.get(OV):
            status = 'overridden'
        elif EX in facts and OV in facts or not odd:
            status = 'copied'
        if odd or status is None:
            todo[(kind, 'form')] = ('?', 'init_from_uv: %ss are told apart by %s' % (what, '; '.join(show(c) for c in odd) or 'nothing understood'), None)
            return
        special = facts.get('name')
        if status == 'copied' and (OV not in facts or EX not in facts):
            if special is None:
                # only reached when a test was skipped: the element may be excluded or overridden
                miss = 'exclude' if EX not in facts else 'override'
                todo[(kind, 'miss' + miss)] = ('C6-' + miss, 'a %s is copied without a look at %s' % (what, miss), None)
        writes, tracked, declared = [], [], []
        for e in o.st.eff:
            if e[0] == 'call':
                fv, a = e[1], [fz(x) for x in e[2]]
                name = fv[2].split('.')[-1] if fv[0] in ('bm', 'at') else None
                base = fv[1] if fv[0] in ('bm', 'at') else None
                if base == SELF and name in ('_wrhd', '__setitem__') and a and a[0] == key:
                    writes.append((a[1] if len(a) > 1 else None, None, e[4]))
                elif base == SELF and name == '_wrvr' and a and a[0] == key:
                    writes.append((a[2] if len(a) > 2 else None, a[1], e[4]))
                elif name == 'trackvr' and a and a[0] == key:
                    tracked.append((base, a[1] if len(a) > 1 else None, e[4]))
                elif name == 'add_var' and base == SELF and a and a[0] == key:
                    declared.append(a[1])
            elif e[0] == 'store' and e[1][0] == 'it' and fz(e[1][2]) == key:
                if e[1][1] == SELF:
                    writes.append((fz(e[2]), None, e[3]))
                else:
                    declared.append(fz(e[2]))
        src = [('it', UV, key)]
        if kind == 'vars':
            src.append(('call', ('at', UV, '_rdvr'), (key, ('it', ('at', UV, 'vartable'), key)), ()))
        src.append(('call', ('bm', UV, self.cls.qual + '._rdhd'), (key,), ()))
        named = ' called %r' % special if special else ''
        line = writes[0][2] if writes else None
        slot = (kind, status) if not special else (kind, status, special)
        bad = None
        if status == 'excluded':
            if writes:
                bad = ('C6-exclude', 'an excluded %s is written' % what)
            elif tracked:
                bad = ('C6-exclude', 'an excluded %s is tracked: it is copied with the first record that changes it' % what)
        else:
            wanted = [('it', OV, key)] if status == 'overridden' else src
            if status == 'overridden':
                wanted += [('call', ('at', OV, 'get'), (key,), ()), ('call', ('at', OV, '__getitem__'), (key,), ())]
            if not writes:
                bad = ('C6-lost', '%s %s%s is not written' % ({'overridden': 'an overridden', 'copied': 'a'}[status], what, named))
            elif len(writes) > 1:
                bad = ('C6-lost', 'a %s%s is written %d times' % (what, named, len(writes)))
            elif writes[0][0] not in wanted:
                others = [('it', OV, key)] + src
                if writes[0][0] in others or absint.isc(writes[0][0]):
                    bad = ('C6-value', '%s %s%s is written as %s' % ({'overridden': 'an overridden', 'copied': 'a'}[status], what, named, show(writes[0][0])))
                else:
                    bad = ('?', 'init_from_uv: a %s is written as %s' % (what, show(writes[0][0])))
            if kind == 'vars' and bad is None:
                vt = ('it', ('at', UV, 'vartable'), key)
                ty = writes[0][1]
                if ty is not None and ty != vt and not (declared and ty in declared):
                    bad = ('C6-type' if absint.isc(ty) else '?', 'a variable is written with type %s' % show(ty))
                if bad is None and not declared:
                    bad = ('C6-type', 'a variable is not declared in the copy\'s vartable: uv[name] does not find it')
                elif bad is None and vt not in declared:
                    bad = ('C6-type' if absint.isc(declared[-1]) else '?', 'a variable is declared with type %s' % show(declared[-1]))
                if bad is None and status == 'overridden' and tracked:
                    bad = ('C6-track', 'an overridden variable is tracked: copyvr replaces the override with the first record that changes it')
                if bad is None and status == 'copied':
                    if not [t for t in tracked if t[0] == UV]:
                        bad = ('C6-track', 'a copied variable is not tracked in the source: copyvr never updates it')
                    elif absint.isc(tracked[0][1], str) and 'c' not in tracked[0][1][1]:
                        bad = ('C6-track', 'a copied variable is tracked with code %r, not for copying' % tracked[0][1][1])
        if bad:
            todo.setdefault(slot + (bad[0],) if False else (kind, slot), (bad[0], bad[1], line))
        else:
            todo.setdefault((kind, status), (None, None, None))

    def elements(self, t, kind):
        """terms standing for an element of uv.items() / uv.vars()"""
        src = ('call', ('bm', UV, '%s.%s' % (self.cls.qual, kind)), (), ())
        if isinstance(t, tuple):
            if t and t[0] == 'it' and t[2][:1] == ('idx',):
                b = t[1]
                while b[0] == 'call' and b[1][0] == 'ext' and b[1][1].split('.')[-1] in ('sorted', 'list', 'tuple', 'set', 'reversed') and b[2]:
                    b = b[2][0]
                if b == src:
                    yield t
                    return
            for x in t:
                if isinstance(x, tuple):
                    yield from self.elements(x, kind)

    def scenario(self):
        """the same with the names there are: every item of itemtable, some variables, one of each overridden and excluded"""
        r = self.r
        tab = self.pr.mods['aipy.miriad'].globals.get('itemtable')
        import ast
        names = []
        v = tab if isinstance(tab, ast.AST) else None
        if isinstance(v, ast.Assign):
            v = v.value
        if isinstance(v, ast.Dict):
            names = [k.value for k in v.keys if isinstance(k, ast.Constant)]
        if not names:
            names = ['obstype', 'history', 'freq0', 'ngains', 'nspect0', 'duration', 'stopt']
        varn = ['antpos', 'baseline', 'corr', 'coord', 'dec', 'inttime', 'lst', 'nchan', 'pol', 'ra', 'sdf', 'sfreq', 'telescop', 'time', 'ut']
        cls = self.cls

        class It(absint.Interp):
            def apply(self, fv, a, kws, st, f, depth, n):
                if fv == ('bm', UV, cls.qual + '.items'):
                    return [(self.new(st, 'list', [C(x) for x in names]), st)]
                if fv == ('bm', UV, cls.qual + '.vars'):
                    return [(self.new(st, 'list', [C(x) for x in varn]), st)]
                return absint.Interp.apply(self, fv, a, kws, st, f, depth, n)
        stops = {'items', 'vars', '_wrhd', '_rdhd', '__getitem__', '__setitem__', 'read', 'write', 'pipe', '_gen_vartable', 'all'}
        mine = [n for n in names if n not in ('vartable', 'history')]
        for ov, ex in (((mine[0], 'pol'), (mine[1], 'lst')), ((mine[1], 'antpos', 'history'), (mine[0], 'dec')), ((), ())):
            it = It(types={SELF: cls, UV: cls}, stop=lambda f: f.cls is cls and f.name in stops)
            st = absint.St()
            OV = it.new(st, 'dict', {C(x): ('p', 'override:' + x) for x in ov})
            EX = it.new(st, 'list', [C(x) for x in ex])
            try:
                outs = it.call_func(self.m['init_from_uv'], [SELF, UV, OV, EX], (), st)
            except absint.GaveUp as e:
                r.unsure('init_from_uv: %s' % e)
                return
            # an override may be any value, 0 or '' too
            strange = [c for o in outs for c in o.st.conds if c != '#exc' and not (c[0] == 'p' and c[1].startswith('override:'))]
            if it.vague or strange or any(o.kind != 'return' for o in outs):
                r.unsure('init_from_uv on given names: %s' % (it.vague[0] if it.vague else show(strange[0]) if strange else 'raises'))
                continue
            for o in outs:
                self.judge(o, it, names, varn, ov, ex)

    def judge(self, o, it, names, varn, ov, ex):
        r = self.r
        fz = lambda t: it.freeze(o.st, t)
        writes, tracked = {}, set()
        for e in o.st.eff:
            if e[0] == 'call' and e[1][0] in ('bm', 'at'):
                n, a = e[1][2].split('.')[-1], [fz(x) for x in e[2]]
                if e[1][1] == SELF and n in ('_wrhd', '__setitem__') and len(a) == 2:
                    writes.setdefault(a[0], []).append(a[1])
                elif e[1][1] == SELF and n == '_wrvr' and len(a) == 3:
                    writes.setdefault(a[0], []).append(a[2])
                elif n == 'trackvr' and e[1][1] == UV and len(a) == 2 and absint.isc(a[1], str) and 'c' in a[1][1]:
                    tracked.add(a[0])
            elif e[0] == 'store' and e[1][0] == 'it' and e[1][1] == SELF:
                writes.setdefault(fz(e[1][2]), []).append(fz(e[2]))
        for n in names + varn:
            r.count('scenario_names')
            w = writes.get(C(n), [])
            kind = 'items' if n in names else 'vars'
            at = self.where('init_from_uv')
            if n in ex or n == 'corr' and kind == 'vars':
                if w or C(n) in tracked:
                    r.add('C6-exclude', 'init_from_uv:' + kind, at, '%r, excluded, is %s' % (n, 'written' if w else 'tracked'))
            elif n in ov:
                if w != [('p', 'override:' + n)]:
                    r.add('C6-value', 'init_from_uv:' + kind, at, '%r, overridden, is written as %s' % (n, [show(x) for x in w]))
                elif C(n) in tracked:
                    r.add('C6-track', 'init_from_uv:' + kind, at, '%r, overridden, is tracked' % n)
            else:
                if len(w) != 1 or not subterm(w[0], UV) or not subterm(w[0], C(n)):
                    r.add('C6-value' if w else 'C6-lost', 'init_from_uv:' + kind, at, '%r is %s' % (n, 'written as %s' % [show(x) for x in w] if w else 'not written'))
                elif kind == 'vars' and C(n) not in tracked:
                    r.add('C6-track', 'init_from_uv:' + kind, at, '%r is not tracked for copying' % n)


def lossy(t):
    """a conversion to a type that does not hold complex numbers, or a part of them"""
    if isinstance(t, tuple):
        if t and t[0] == 'call':
            ty = None
            if t[1][0] == 'at' and t[1][2] == 'astype' and t[2]:
                ty = typename(t[2][0])
            elif last(t) in SAME:
                ty = typename(arg(t, 1, 'dtype'))
            if ty in ('float32', 'float64', 'float', 'single', 'double', 'int', 'int32', 'int16', 'int64', 'float16') or last(t) in ('real', 'imag', 'abs', 'absolute', 'conj', 'conjugate'):
                return True
            if t[1][0] == 'at' and t[1][2] in ('conj', 'conjugate'):
                return True
        if t and t[0] == 'at' and t[2] in ('real', 'imag'):
            return True
        return any(lossy(x) for x in t if isinstance(x, tuple))
    return False


def calls_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 'call':
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from calls_in(x)


def it_of(t, seq):
    """elements of seq within t"""
    if isinstance(t, tuple):
        if t and t[0] == 'it' and t[2][:1] == ('idx',):
            b = t[1]
            while b[0] == 'call' and b[1][0] == 'ext' and b[2] and b != seq:
                b = b[2][0]
            if b == seq:
                yield t
                return
        for x in t:
            if isinstance(x, tuple):
                yield from it_of(x, seq)


def flat_sum(t):
    if t[0] == 'op' and t[1] == 'Add':
        return flat_sum(t[2]) + flat_sum(t[3])
    if t[0] == 'fmt':
        return [C(x) if isinstance(x, str) else x[1] if x[0] == 'str' else x for x in t[1]]
    if t[0] == 'call' and t[1] == ('at', C(''), 'join') and t[2] and t[2][0][0] in ('list', 'tup'):
        return list(t[2][0][1])
    return [t]


def run(tier):
    from sa import report
    r = report.Result()
    c = Check(r)
    c.compose()
    c.plain()
    c.iteration()
    c.pipe()
    c.init()
    from checks import m15n
    m15n.run(r)
    return r
