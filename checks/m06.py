"""M06: header items read back as the value that was written."""
import re

from sa import ir
from sa.capi import Ext
from sa.ir import AnalysisBroken, base_name
from sa.native import native
from sa.pathsim import C, root
from sa.proto import follow, norm, strip, describe, methods, INTCONV
from sa.report import Result

WIDTH = {'i': 32, 'h': 16, 'b': 8, 'l': 64, 'n': 64, 'L': 64, 'q': 64}
CELL = {2: ('i32', 'int'), 3: ('i32', 'int'), 8: ('i64', 'int'), 4: ('float', 'float'), 5: ('double', 'float'), 7: ('float', 'complex'), 1: ('i8', 'text')}
BITS = {2: 32, 3: 16, 8: 64}
TYNAME = {1: 'byte', 2: 'int', 3: 'int2', 4: 'real', 5: 'double', 7: 'complex', 8: 'int8', 6: 'text'}
SIZES = {2: 4, 3: 2, 4: 4, 5: 8, 7: 8, 8: 8}


def simp(t):
    if t[0] == 'op' and t[1] == 'mul' and t[3] == C(1):
        return simp(t[2])
    return t


def good(h):
    """the ways that return a result"""
    for w in h.ways:
        if w.st.truth(w.val) is False or w.st.facts.get('exc'):
            continue
        yield w


def conv_of(st, t):
    """(conversion, object) a stored number comes from"""
    return st.facts.get(('conv', strip(t)), (None, None))


def casts(t):
    out = []
    while t[0] == 'cv':
        out.append(t[1])
        t = t[2]
    return out


def narrowed(cs, ty, cell):
    """what changes of width (outermost first) do to the values a stored type can hold; a value they alter"""
    b, W = BITS[ty], int(cell[1:])
    for v in (0, 1, -1, (1 << (b - 1)) - 1, -(1 << (b - 1)), 1 << (b - 2), 255 % (1 << (b - 1)), 256):
        x = v & ((1 << W) - 1)
        wide = W
        for c in reversed(cs):
            m = re.match(r'(trunc|zext|sext)(\d+)$', c)
            if not m:
                return None
            n = int(m.group(2))
            x &= (1 << n) - 1
            wide = n
            if m.group(1) != 'trunc':
                wide = 64
                if m.group(1) == 'sext' and x >> (n - 1):
                    x |= ((1 << 64) - 1) ^ ((1 << n) - 1)
        if x >> (wide - 1):
            x -= 1 << wide
        y = x
        if y != v:
            return v
    return None


def check_value_put(r, where, rule, ctx, ty, st, cells, obj=None):
    """a number stored for writing is the object's value, in full, in the representation the type needs"""
    cell, kind = CELL[ty]
    want = {0: 'first'} if kind != 'complex' else {0: 'PyComplex_RealAsDouble', 4: 'PyComplex_ImagAsDouble'}
    for off, conv in want.items():
        c = cells.get(off)
        if c is None:
            r.unsure('%s: what is stored at byte %d' % (ctx, off))
            continue
        v, lty = c
        n, o = conv_of(st, v)
        if n is None:
            if strip(v)[0] in ('c', 'f'):
                r.add(rule + '-value', ctx, where, '%s: a constant is stored instead of the value given' % ctx)
            else:
                r.unsure('%s: where the stored value comes from' % ctx)
            continue
        r.count('conversions')
        if lty != cell:
            r.add(rule + '-representation', ctx, where, '%s: a %s is stored where the library takes a %s as %s' % (ctx, lty, TYNAME[ty], cell))
        bad = None
        if kind == 'int' and n not in INTCONV:
            bad = 'converted by %s, which loses what an integer can hold' % n
        elif kind == 'float' and n in INTCONV:
            bad = 'converted by %s, which drops the fraction' % n
        elif kind == 'float' and n == 'PyComplex_ImagAsDouble':
            bad = 'the imaginary part'
        elif kind == 'complex' and n != conv:
            bad = 'converted by %s at byte %d, not %s' % (n, off, conv)
        cs = casts(v)
        if kind == 'int' and any(x.startswith('fp') or x.endswith('fp') for x in cs) or kind != 'int' and any(x.startswith('fpto') for x in cs):
            bad = 'converted through another kind of number'
        if ty == 5 and 'fptrunc' in cs:
            bad = 'a double passes through single precision'
        if bad:
            r.add(rule + '-value', ctx, where, '%s: what is stored is %s' % (ctx, bad))
        if kind == 'int' and BITS[ty] < 64:
            lo, hi, ne = st.rng(strip(v))
            n2 = BITS[ty] - 1
            if lo < -(1 << n2) or hi > (1 << n2) - 1:
                r.add(rule + '-range', ctx, where, '%s: a value outside %d bits is stored cut off instead of refused' % (ctx, BITS[ty]))
            elif lo > -(1 << n2) or hi < (1 << n2) - 1:
                r.add(rule + '-refuses', ctx, where, '%s: values that fit %d bits are refused (only %d..%d are accepted)' % (ctx, BITS[ty], lo, hi))


def check_value_got(r, where, rule, ctx, ty, kind, terms, fill, st, code=None):
    """a number handed to Python is the one the library filled in"""
    cell, want = CELL[ty]
    if kind is None:
        r.unsure('%s: what is returned' % ctx)
        return
    if kind != want:
        r.add(rule + '-value', ctx, where, '%s: a %s is returned for a stored %s' % (ctx, kind, TYNAME[ty]))
        return
    offs = [0] if want != 'complex' else [0, 4]
    for t, off in zip(terms, offs):
        v = strip(t)
        if v[0] != 'elem':
            if v[0] in ('c', 'f'):
                r.add(rule + '-value', ctx, where, '%s: a constant is returned' % ctx)
            else:
                r.unsure('%s: where the returned value comes from' % ctx)
            continue
        r.count('conversions')
        if v[1][:2] != fill[:2]:
            r.unsure('%s: which read the returned value comes from' % ctx)
        elif v[3]:
            r.unsure('%s: which element is returned' % ctx)
        elif v[2] != off:
            r.add(rule + '-value', ctx, where, '%s: the value returned lies at byte %d of what was read, not %d' % (ctx, v[2], off))
        elif v[4] != cell:
            r.add(rule + '-representation', ctx, where, '%s: a %s filled in as %s is taken as %s' % (ctx, TYNAME[ty], cell, v[4]))
        cs = casts(t)
        if want == 'int' and any(x.startswith('si') or x.startswith('ui') for x in cs) or want != 'int' and any(x.startswith('fpto') for x in cs):
            r.add(rule + '-value', ctx, where, '%s: converted through another kind of number' % ctx)
        if ty == 5 and 'fptrunc' in cs:
            r.add(rule + '-value', ctx, where, '%s: a double passes through single precision' % ctx)
        if want == 'int' and cs and v[4] == cell:
            lost = narrowed(cs, ty, cell)
            if lost is not None:
                r.add(rule + '-value', ctx, where, '%s: a change of width alters what is returned: a stored %d comes back different' % (ctx, lost))
    if code in WIDTH and want == 'int' and WIDTH[code] < (64 if cell == 'i64' else 32):
        r.add(rule + '-representation', ctx, where, '%s: a %s is returned through format %s, %d bits' % (ctx, TYNAME[ty], code, WIDTH[code]))


def table(r, name, h, kind):
    """letter -> the accesses made for it"""
    out = {}
    for w in good(h):
        hs = [e for e in w.ev if e[0] == 'hio']
        if w.letter is None or len(hs) != 1 or hs[0][2] is None or hs[0][1] is None:
            r.unsure('%s: a way through it is not recognised' % name)
            continue
        out.setdefault(w.letter, []).append((hs[0], w))
        r.count('ways')
    return out


def native_items(r, E, unw):
    h = {n: follow(E, n, unw) for n in ('hread', 'hwrite', 'hread_init', 'hwrite_init')}
    for n in h:
        if h[n] is None:
            raise AnalysisBroken('no native function %s' % n)
    fnw = {n: E.m.where(next(i for i in h[n].fn.insts() if E.m.line(i)[1])) for n in h}
    rd, wr = table(r, 'hread', h['hread'], 0), table(r, 'hwrite', h['hwrite'], 1)
    for l in sorted(set(rd) ^ set(wr)):
        r.add('L-types', l, fnw['hread'], 'header type %r can be %s but not %s' % (l, *(('read', 'written') if l in rd else ('written', 'read'))))
    for l in sorted(set(rd) & set(wr)):
        r.count('header_types')
        tr, tw = {e[2] for e, w in rd[l]}, {e[2] for e, w in wr[l]}
        if tr != tw:
            r.add('L-stored-type', l, fnw['hread'], 'header type %r is written as %s and read as %s' % (
                l, '/'.join(TYNAME.get(x, str(x)) for x in sorted(tw)), '/'.join(TYNAME.get(x, str(x)) for x in sorted(tr))))
            continue
        lr, lw = {simp(norm(e[5])) for e, w in rd[l]}, {simp(norm(e[5])) for e, w in wr[l]}
    for l in rd:
        for e, w in rd[l]:
            ctx = 'hread type %r' % l
            check_args(r, fnw['hread'], ctx, e, w, 0)
            where = E.m.where(w.inst)
            mk = w.st.facts.get(('made', w.st.facts.get(('from', w.val), w.val)))
            kind, items = describe(w.st, E.m, None, w.val)
            if kind != 'tuple' or len(items) != 2:
                r.unsure('%s: the form of its result' % ctx)
                continue
            ik, iv = describe(w.st, E.m, *items[1])
            if ik == 'int' and simp(iv[0]) != simp(e[5]):
                r.add('L-increment', 'hread/' + l, fnw['hread'], '%s advances by %s after reading %s bytes' % (ctx, show(iv[0]), show(e[5])))
            r.count('increments')
            vk, vt = describe(w.st, E.m, *items[0])
            if e[2] == 1:
                if vk in ('bytes', 'str'):
                    p = vt[0]
                    if p[2] is None or p[1] != root(p[1]) or p[2][:2] != ('hio', 0):
                        r.unsure('%s: which bytes are returned' % ctx)
                    elif vk == 'str':
                        r.add('L-text', 'hread/' + l, fnw['hread'], '%s decodes part of a text on its own: a character that spans reads is lost' % ctx)
                    elif len(vt) > 1 and simp(vt[1]) != simp(e[5]):
                        r.add('L-text', 'hread/' + l, fnw['hread'], '%s returns %s bytes after reading %s' % (ctx, show(vt[1]), show(e[5])))
                    elif len(vt) == 1:
                        r.add('L-text', 'hread/' + l, fnw['hread'], '%s returns the bytes up to the first NUL, not the bytes read' % ctx)
            else:
                check_value_got(r, fnw['hread'], 'L', ctx, e[2], vk, vt, ('hio', 0), w.st, items[0][0])
                if e[5] != C(SIZES.get(e[2], -1)):
                    r.add('L-size', 'hread/' + l, fnw['hread'], '%s reads %s bytes of a %s' % (ctx, show(e[5]), TYNAME[e[2]]))
    for l in wr:
        for e, w in wr[l]:
            ctx = 'hwrite type %r' % l
            check_args(r, fnw['hwrite'], ctx, e, w, 1)
            kind, items = describe(w.st, E.m, None, w.val)
            if kind == 'int' and simp(items[0]) != simp(e[5]):
                r.add('L-increment', 'hwrite/' + l, fnw['hwrite'], '%s advances by %s after writing %s bytes' % (ctx, show(items[0]), show(e[5])))
            r.count('increments')
            if e[2] != 1 and e[5] != C(SIZES.get(e[2], -1)):
                r.add('L-size', 'hwrite/' + l, fnw['hwrite'], '%s writes %s bytes of a %s' % (ctx, show(e[5]), TYNAME[e[2]]))
    for letter, e, src, cells, st, i in h['hwrite'].puts:
        if e[0] != 'hio' or letter is None or e[2] is None:
            continue
        ctx = 'hwrite type %r' % letter
        where = E.m.where(i)
        if e[2] == 1:
            text(r, where, 'L', ctx, src, e[5], 0)
        else:
            check_value_put(r, where, 'L', ctx, e[2], st, {k[0]: v for k, v in [((kk,), vv) for kk, vv in cells.items()]})
    # what marks the type of an item
    G = native().m
    wi, ri = {}, {}
    for w in good(h['hwrite_init']):
        hs = [e for e in w.ev if e[0] == 'hio']
        kind, items = describe(w.st, E.m, None, w.val)
        if w.letter is None or len(hs) != 1 or hs[0][3][0] != 'g' or kind != 'int':
            r.unsure('hwrite_init: a way through it is not recognised')
            continue
        wi[w.letter] = (hs[0], items[0])
        check_tag_io(r, fnw['hwrite_init'], 'hwrite_init type %r' % w.letter, hs[0], 1)
    for w in good(h['hread_init']):
        hs = [e for e in w.ev if e[0] == 'hio']
        tag = w.st.facts.get(('tagged',))
        kind, items = describe(w.st, E.m, None, w.val)
        lit = None
        if kind == 'tuple' and len(items) == 2 and items[0][0] in ('s', 'y') and items[0][1][0] == 'g':
            lit = E.m.string(('glob', items[0][1][1]))
        ik, iv = describe(w.st, E.m, *items[1]) if kind == 'tuple' and len(items) == 2 else (None, [])
        if tag is None or lit is None or ik != 'int' or len(hs) != 1:
            r.unsure('hread_init: a way through it is not recognised')
            continue
        ri.setdefault(tag, []).append((lit, iv[0]))
        check_tag_io(r, fnw['hread_init'], 'hread_init of %s' % tag, hs[0], 0)
    byte = {}
    for tag in {e[3][1] for e, o in wi.values()} | set(ri):
        g = G.globals.get(tag)
        m = re.search(r'\[4 x i8\] (c"([^"]*)"|zeroinitializer)', g or '')
        if not m:
            r.unsure('the bytes of %s' % tag)
            continue
        b = '\\00' * 4 if 'zero' in m.group(1) else m.group(2)
        byte.setdefault(b, []).append(tag)
    for b, tags in byte.items():
        if len(tags) > 1:
            r.add('L-tags', '/'.join(sorted(tags)), fnw['hwrite_init'], 'the type marks %s are the same bytes: an item cannot be told apart' % ', '.join(sorted(tags)))
    for l, (e, off) in sorted(wi.items()):
        tag = e[3][1]
        if tag not in ri:
            if ri:
                r.add('L-tags', 'unread/' + l, fnw['hread_init'], 'items marked %s (type %r) are not recognised when read' % (tag, l))
            continue
        r.count('type_marks')
        for lit, off2 in ri[tag]:
            if lit != l:
                r.add('L-tags', 'letter/' + l, fnw['hread_init'], 'items written as %r are read as %r' % (l, lit))
            if off2 != off:
                r.add('L-tags', 'offset/' + l, fnw['hread_init'], 'values of a %r item are written from byte %s and read from byte %s' % (l, show(off), show(off2)))
        if off[0] == 'c' and off[1] < 4:
            r.add('L-tags', 'overlap/' + l, fnw['hwrite_init'], 'the first value of a %r item overlaps its type mark' % l)
    r.floor('header_types', 4)
    r.floor('type_marks', 4)
    return h


def text(r, where, rule, ctx, src, n, extra):
    """characters handed to the library: the UTF-8 bytes and their number (+ a terminating NUL)"""
    if src[0] != 'utf8':
        if src[0] == 'gep' and src[1][0] == 'utf8':
            r.add(rule + '-text', ctx, where, '%s skips the first bytes of a string' % ctx)
        else:
            r.unsure('%s: which bytes of a string are written' % ctx)
        return
    want = ('utf8len', src[1])
    n = simp(n)
    k = 0
    if n[0] == 'op' and n[1] == 'add' and n[3][0] == 'c':
        k, n = n[3][1], n[2]
    if n != want:
        r.add(rule + '-text', ctx, where, '%s: the number of bytes written (%s) is not the length of the encoded string' % (ctx, show(n)))
    elif k != extra:
        r.add(rule + '-text', ctx, where, '%s: %d bytes are written for a string of n bytes where n%s is needed' % (ctx, k, '+%d' % extra if extra else ''))
    r.count('conversions')


def check_args(r, where, ctx, e, w, write):
    if e[1] != write:
        r.add('L-direction', ctx, where, '%s %s instead' % (ctx, 'writes' if e[1] else 'reads'))
    if e[4][0] == 'num' and e[6][0] == 'num' and e[4] != e[6]:
        if (e[6][2], e[4][2]) != (0, 1):
            r.add('L-arguments', ctx, where, '%s: the item or the offset used is not the one given' % ctx)
    elif e[4][0] == 'c':
        r.add('L-arguments', ctx, where, '%s works at offset %s, whatever offset is asked for' % (ctx, show(e[4])))
    elif e[4][0] == 'op' and e[4][2][0] == 'num' and e[4][3][0] == 'c':
        # shifted alike on both sides would still agree: compared by the caller
        r.add('L-arguments', ctx, where, '%s works at %s, not at the offset it is given' % (ctx, show(e[4])))
    else:
        r.unsure('%s: the item or offset it works at' % ctx)


def check_tag_io(r, where, ctx, e, write):
    if (e[1], e[2]) != (write, 1) or e[4] != C(0) or e[5] != C(4):
        r.add('L-tags', ctx, where, '%s does not %s the 4 bytes at offset 0 that mark the type' % (ctx, 'write' if write else 'read'))


def show(t):
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'utf8len':
        return 'the length of the string'
    if t[0] == 'num':
        return 'argument %d' % t[2]
    if t[0] == 'op':
        return '(%s %s %s)' % (show(t[2]), {'add': '+', 'mul': '*', 'sub': '-'}.get(t[1], t[1]), show(t[3]))
    if t[0] == 'problen':
        return 'the stored length'
    if t[0] == 'dim':
        return 'the length of the array'
    return 'another value'


def run(tier):
    r = Result()
    unw = {base_name(n) for n in native().mu}
    E = Ext('aipy._miriad', ['miriad_wrap.cpp'])
    r.units = ['aipy._miriad:miriad_wrap.cpp (hread, hwrite, hread_init, hwrite_init)', 'aipy._miriad:headio.c (type marks)', 'aipy/miriad.py']
    r.rule('Every way through the native header accessors is followed per type letter, over a model of the CPython interface: the stored type, '
           'size, offset and item handed to hio_c, the object conversion behind the bytes written, the bytes behind the object returned, the '
           'increment reported. The tables of the writer and of the reader must be inverse to one another, as must the type marks.')
    native_items(r, E, unw)
    from checks import m06py
    m06py.run(r)
    r.assumptions = ['the hio_c primitive reads back the bytes it wrote (M03, M04) and byte order conversions are inverse (M05)']
    return r
