"""M08: baseline numbering."""
import ast

from sa import ir, py, cg
from sa.affine import PyEval, IREval, Region, Aff, var, num, isaff, same, undecided, UNK
from sa.ir import AnalysisBroken

TOP = 2046      # largest antenna number the numbering can represent


def starts(lo=0, hi=TOP):
    a = Region({'i': lo, 'j': lo}, {'i': hi, 'j': hi}, {('i', 'j', 0)})
    b = Region({'i': lo, 'j': lo}, {'i': hi, 'j': hi}, {('j', 'i', 1)})
    a.tighten()
    b.tighten()
    return [a, b]


def canon(q):
    """the canonical pair in this region"""
    return [var('i'), var('j')] if any(x == 'i' and y == 'j' for x, y, k in q.le) else [var('j'), var('i')]


def pair_ok(q, v, want):
    return isinstance(v, tuple) and v[0] == 'tuple' and len(v[1]) == len(want) and all(same(q, a, b) for a, b in zip(v[1], want))


R = []


def need(v, what):
    if undecided(v):
        R[0].unsure('%s uses arithmetic the analysis does not model' % what)
        return False
    return True


def int_fmt(fmt):
    """positions (argument units) of a CPython format: list of code letters"""
    out = []
    k = 0
    while k < len(fmt):
        c = fmt[k]
        if c in '()[]{}, |$:;':
            if c in ':;':
                break
            k += 1
            continue
        code = c
        if k + 1 < len(fmt) and fmt[k + 1] in '!&#*':
            code += fmt[k + 1]
            k += 1
        out.append(code)
        k += 1
    return out


def slots(codes):
    """[(code, first argument index)]"""
    n = 0
    out = []
    for c in codes:
        out.append((c, n))
        n += 2 if c in ('O!', 'O&', 's#', 'z#', 'y#') else 1
    return out


def run(tier):
    from sa.report import Result
    r = Result()
    R[:] = [r]
    p = py.project()
    mir = p.mods['aipy.miriad']
    for n in ('ij2bl', 'bl2ij'):
        if n not in mir.funcs:
            raise AnalysisBroken('aipy.miriad.%s not found' % n)
    E = PyEval(p)
    enc, dec = mir.funcs['ij2bl'], mir.funcs['bl2ij']
    r.rule('Each encoder and decoder is reduced to a finite list of (region of antenna numbers, affine form); decoding is composed '
           'with encoding and must give back the pair, in canonical order, on every region of 0..%d squared.' % TOP)
    leaves = []
    for st in starts():
        for q, v in E.call(enc, [var('i'), var('j')], st):
            if not need(v, enc.qual):
                continue
            r.count('encode_regions')
            if not isaff(v):
                r.add('P1-encode', 'ij2bl', enc.where(), 'for %s the baseline number is not a single-valued code of the pair' % q)
                continue
            leaves.append((q, v))
            r.sample('ij2bl: %s -> %r' % (q, v))
            for q2, w in E.call(dec, [v], q):
                if not need(w, dec.qual):
                    continue
                r.count('round_trips')
                if not pair_ok(q2, w, canon(q2)):
                    r.add('P1-round-trip', 'bl2ij(ij2bl)', dec.where(), 'for antennas with %s, ij2bl gives %r and bl2ij gives %s: not the pair it came from'
                          % (q2, v, show(w)))
    if not leaves:
        raise AnalysisBroken('ij2bl returns nothing')
    # wrappers on the antenna array
    phs = p.mods['aipy.phs'].classes.get('AntennaArray')
    for name in ('ij2bl', 'bl2ij'):
        f = phs and p.method(phs, name)
        if not f:
            continue
        r.count('wrappers')
        if name == 'ij2bl':
            for st in starts():
                for q, v in E.call(f, [UNK, var('i'), var('j')], st):
                    if not need(v, f.qual):
                        continue
                    for q2, v2 in leaves:
                        q3 = meet(q, q2)
                        if q3 is not None and not same(q3, v, v2):
                            r.add('P2-wrapper', f.qual, f.where(), 'for %s gives %s, aipy.miriad.ij2bl gives %r' % (q3, show(v), v2))
        else:
            for q, v in leaves:
                for q2, w in E.call(f, [UNK, v], q):
                    if not need(w, f.qual):
                        continue
                    if not pair_ok(q2, w, canon(q2)):
                        r.add('P2-wrapper', f.qual, f.where(), 'for %s does not decode %r to the pair' % (q2, v))
    # baseline and polarisation packed together
    pol = p.mods['aipy.pol']
    tab = codes(mir, r)
    if 'ijp2blp' in pol.funcs and 'blp2ijp' in pol.funcs and tab:
        for st in starts():
            st.lo['p'], st.hi['p'] = min(tab), max(tab)
            for q, v in E.call(pol.funcs['ijp2blp'], [var('i'), var('j'), var('p')], st):
                if not need(v, 'pol.ijp2blp'):
                    continue
                for q2, w in E.call(pol.funcs['blp2ijp'], [v], q):
                    if not need(w, 'pol.blp2ijp'):
                        continue
                    r.count('round_trips')
                    if not pair_ok(q2, w, canon(q2) + [var('p')]):
                        r.add('P3-round-trip', 'blp2ijp(ijp2blp)', pol.funcs['blp2ijp'].where(),
                              'for %s, ijp2blp gives %s and blp2ijp gives %s' % (q2, show(v), show(w)))
    native(r, leaves, E, dec)
    r.floor('encode_regions', 2)
    r.floor('round_trips', 4)
    r.floor('native_regions', 4)
    r.assumptions = ['Antenna numbers are integers in 0..%d; the baseline number travels through MIRIAD as a 32-bit float, which is exact below 2**24 (checked).' % TOP]
    return r


def codes(mir, r):
    """values of the str2pol table; names and codes must map one to one"""
    d = mir.globals.get('str2pol')
    if not isinstance(d, ast.Dict):
        return []
    out = {}
    for k, v in zip(d.keys, d.values):
        try:
            kk, vv = ast.literal_eval(k), ast.literal_eval(v)
        except ValueError:
            continue
        if vv in out.values():
            r.add('P4-code-reused', 'str2pol/%s' % kk, mir.where(v), 'polarisation code %s stands for two names: pol2str cannot tell them apart' % vv)
        out[kk] = vv
    r.count('polarisation_codes', len(out))
    return list(out.values())


def show(v):
    if isinstance(v, tuple) and v and v[0] == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in v[1])
    if isinstance(v, tuple) and v and v[0] == 'unk':
        return 'a value that depends on the other antenna'
    return str(v)


def meet(a, b):
    q = a.copy()
    for v in b.lo:
        q.lo[v] = max(q.lo.get(v, b.lo[v]), b.lo[v])
        q.hi[v] = min(q.hi.get(v, b.hi[v]), b.hi[v])
    q.le |= b.le
    if ('i', 'j') in {(x, y) for x, y, k in q.le} and ('j', 'i') in {(x, y) for x, y, k in q.le}:
        s = {(x, y): k for x, y, k in q.le}
        if s[('i', 'j')] + s[('j', 'i')] > 0:
            return None
    return q if q.tighten() else None


def arg_cell(mem, p, k):
    """value of element k of the array p points at"""
    return mem.get(('p', p[1], p[2] + k)) if isinstance(p[2], int) else None


def native(r, leaves, E, dec):
    m = ir.compile_extension('aipy._miriad')
    eps = cg.entry_points(m)
    writers = [f for f in map(m.functions.get, eps) if f and reaches(m, f, 'uvwrite_c')]
    readers = [f for f in map(m.functions.get, eps) if f and reaches(m, f, 'uvread_c')]
    if not writers or not readers:
        raise AnalysisBroken('no entry point calls uvwrite_c / uvread_c')
    r.rule('The native writer\'s baseline code must be what ij2bl gives for the same ordered pair and decode, natively and in Python, to the pair; the native reader must decode every code.')
    for w in writers:
        for st in starts():
            got = []

            def hook(i, args, s):
                c = i.callee()
                if c == 'PyArg_ParseTuple':
                    fmt = m.string(i.x['args'][1])
                    if fmt is None:
                        return None
                    ints = [a for code, a in slots(int_fmt(fmt)) if code == 'i']
                    if len(ints) != 2:
                        return None
                    for name, k in zip('ij', ints):
                        s.mem[args[2 + k]] = var(name)
                    return [(s, num(1))]
                if c == 'uvwrite_c':
                    p = args[1]
                    got.append((s.region, arg_cell(s.mem, p, 4), m.where(i)))
                    return [(s, None)]
                return None
            IREval(m, hook).run(w, [('p', ('arg', k), 0) for k in range(len(w.params))], st)
            if not got:
                raise AnalysisBroken('%s: no path to uvwrite_c' % w.name)
            for q, v, at in got:
                if v is None:
                    v = UNK
                if not need(v, 'the baseline slot handed to uvwrite_c'):
                    continue
                r.count('native_regions')
                r.sample('raw_write: %s -> %r' % (q, v))
                if not isaff(v):
                    r.add('P5-native-encode', 'raw_write', at, 'for %s the baseline number is not a single-valued code of the pair' % q)
                    continue
                pairs = [[var('i'), var('j')], canon(q)]
                for q2, x in E.call(dec, [v], q):
                    if not any(pair_ok(q2, x, p) for p in pairs):
                        r.add('P5-native-encode', 'bl2ij(raw_write)', at, 'for %s the file gets %r, which bl2ij decodes to %s' % (q2, v, show(x)))
                for q2, x in leaves:
                    if canon(q) == canon(q2) == [var('i'), var('j')]:
                        q3 = meet(q, q2)
                        if q3 is not None and not same(q3, v, x):
                            r.add('P5-native-differs', 'raw_write', at, 'for %s the file gets %r, ij2bl gives %r' % (q3, v, x))
                for rd in readers:
                    decode_native(r, m, rd, q, v, pairs)
    for rd in readers:
        for q, v in leaves:
            decode_native(r, m, rd, q, v, [canon(q)])
    # the library's own decoder (antenna selection)
    lib = [f for f in m.functions.values() if [t for t, _ in f.params] == ['i32', 'ptr', 'ptr'] and 'bas' in f.name
           and 0 < sum(1 for _ in f.insts()) < 80]
    for f in lib:
        ok = True
        for q, v in leaves:
            for s, _ in IREval(m).run(f, [v, ('p', ('arg', 1), 0), ('p', ('arg', 2), 0)], q):
                a, b = s.mem.get(('p', ('arg', 1), 0), UNK), s.mem.get(('p', ('arg', 2), 0), UNK)
                if not need(a, f.name):
                    continue
                if not need(b, f.name):
                    continue
                r.count('library_decoder_regions')
                want = [x.add(num(1)) for x in canon(s.region)]
                if not pair_ok(s.region, ('tuple', [a, b]), want):
                    r.add('P6-library-decoder', f.name, m.where(next(iter(f.insts()))), 'for %s decodes %r to (%s, %s), not to the pair counted from 1'
                          % (s.region, v, show(a), show(b)))
    r.count('library_decoders', len(lib))
    r.floor('library_decoders', 1)


def decode_native(r, m, rd, q, v, pairs):
    got = []

    def hook(i, args, s):
        c = i.callee()
        if c == 'PyArg_ParseTuple':
            return [(s, num(1))]
        if c == 'uvread_c':
            p = args[1]
            for k in range(5):
                s.mem[('p', p[1], p[2] + k)] = UNK
            s.mem[('p', p[1], p[2] + 4)] = v
            return [(s, None)]
        if c == 'Py_BuildValue':
            fmt = m.string(i.x['args'][0])
            ints = [a for code, a in slots(int_fmt(fmt)) if code == 'i'] if fmt else []
            if '(ii)' in (fmt or ''):
                got.append((s.region, ('tuple', [args[1 + ints[0]], args[1 + ints[1]]]), m.where(i)))
            return [(s, UNK)]
        return None
    IREval(m, hook, limit=60000).run(rd, [('p', ('arg', k), 0) for k in range(len(rd.params))], q)
    if not got:
        raise AnalysisBroken('%s: the antenna pair is not built from the baseline read' % rd.name)
    for q2, w, at in got:
        if not need(w, 'the antenna pair returned by the reader'):
            continue
        r.count('native_regions')
        if not any(pair_ok(q2, w, p) for p in pairs):
            r.add('P5-native-decode', 'raw_read', at, 'for %s the baseline number %r is returned as %s' % (q2, v, show(w)))


def reaches(m, f, name, depth=3):
    if any(True for _ in f.calls(name)):
        return True
    return depth > 0 and any(m.functions.get(c.callee()) is not None and c.callee() != f.name and reaches(m, m.functions[c.callee()], name, depth - 1)
                             for c in f.calls() if c.callee() in m.functions)
