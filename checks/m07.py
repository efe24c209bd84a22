"""M07: UV variables read back as the value that was written."""
from sa.capi import Ext, LAYOUT
from sa.ir import AnalysisBroken, base_name
from sa.native import native
from sa.pathsim import C, root, Hooks, RState, Sim
from sa.proto import follow, describe, strip
from sa.report import Result
from checks.m06 import narrowed, BITS, CELL, TYNAME, casts, check_value_got, check_value_put, good, show, simp, text

LAY = {'i32': ('i32', 1), 'float': ('float', 1), 'double': ('double', 1), 'i64': ('i64', 1)}
CELLB = {1: 1, 2: 4, 3: 4, 4: 4, 5: 8, 7: 8}
FILEB = {1: 1, 2: 4, 3: 2, 4: 4, 5: 8, 7: 8}


def taken_whole(via, ty):
    """whether elements of a copied array are taken in the representation they were stored in, unaltered"""
    cell, _, chain = via.partition(' ')
    if cell != CELL[ty][0]:
        return False
    return not chain or ty not in BITS or narrowed(chain.split(), ty, cell) is None


def layout(ty):
    cell, kind = CELL[ty]
    return (cell, 2) if kind == 'complex' else (cell, 1)


def names(a, b):
    return '/'.join(TYNAME.get(x, str(x)) for x in sorted(a)), '/'.join(TYNAME.get(x, str(x)) for x in sorted(b))


def accessors(r, E, unw):
    hg, hp = follow(E, '_rdvr', unw), follow(E, '_wrvr', unw)
    if hg is None or hp is None:
        raise AnalysisBroken('no native variable accessors')
    wg = E.m.where(next(i for i in hg.fn.insts() if E.m.line(i)[1]))
    wp = E.m.where(next(i for i in hp.fn.insts() if E.m.line(i)[1]))
    gets, puts = {}, {}
    for w in good(hg):
        e = [x for x in w.ev if x[0] == 'get']
        if w.letter is None or len(e) != 1 or e[0][1] is None:
            r.unsure('_rdvr: a way through it is not recognised')
            continue
        gets.setdefault(w.letter, []).append((e[0], w))
        r.count('ways')
    for p in hp.puts:
        if p[1][0] != 'put':
            continue
        if p[0] is None or p[1][1] is None:
            r.unsure('_wrvr: a way through it is not recognised')
            continue
        puts.setdefault(p[0], []).append(p)
        r.count('ways')
    for w in good(hp):
        if w.letter is not None and not any(x[0] == 'put' for x in w.ev):
            r.add('V-dropped', '_wrvr/' + w.letter, wp, '_wrvr of type %r can succeed without writing anything' % w.letter)
        elif w.letter is not None and sum(x[0] == 'put' for x in w.ev) > 1:
            r.add('V-twice', '_wrvr/' + w.letter, wp, '_wrvr of type %r writes the variable more than once' % w.letter)
    for l in sorted(set(gets) ^ set(puts)):
        r.add('V-types', l, wg, 'variable type %r can be %s but not %s' % (l, *(('read', 'written') if l in gets else ('written', 'read'))))
    for l in sorted(set(gets) & set(puts)):
        r.count('variable_types')
        a, b = {e[1] for e, w in gets[l]}, {p[1][1] for p in puts[l]}
        if a != b:
            r.add('V-stored-type', l, wg, 'variable type %r is read as %s and written as %s' % ((l,) + names(a, b)))
    # ---- reading
    shapes = {}
    for l in gets:
        for e, w in gets[l]:
            ty = e[1]
            ctx = '_rdvr type %r' % l
            n = simp(e[3])
            want = ('problen',)
            if ty == 1:
                want = ('op', 'add', want, C(1))
            probed = any(x[0] == 'prob' and x[1] == e[4] for x in w.ev)
            if not probed:
                r.unsure('%s: where the length comes from' % ctx)
                continue
            if n != want and (n[0] == 'c' or n[0] == 'op' and n[2] == ('problen',) or n == ('problen',)):
                if not (n[0] == 'c' and w.st.value(('problen',)) == n[1] and ty != 1):
                    r.add('V-count', '_rdvr/' + l, wg, '%s asks for %s elements of a variable that has %s' % (ctx, show(n), show(('problen',))))
            elif n != want:
                r.unsure('%s: how many elements it asks for' % ctx)
            kind, terms = describe(w.st, E.m, None, w.val)
            if ty == 1:
                p = terms[0] if kind in ('bytes', 'str') else None
                if p is None or p[2] is None or p[2][:2] != ('get', 1):
                    r.unsure('%s: what text it returns' % ctx)
                    continue
                if p[1] != root(p[1]):
                    r.add('V-text', '_rdvr/' + l, wg, '%s returns the text without its beginning' % ctx)
                cmpd = w.st.facts.get(('same', p[2]), frozenset()) - {0}
                ln = simp(terms[1]) if len(terms) > 1 else None
                if cmpd:
                    r.add('V-text', '_rdvr/' + l, wg, '%s tells character %s apart from the others: text containing it reads back differently' % (ctx, sorted(cmpd)))
                if ln is not None and ln[0] == 'op' and ln[1] == 'add' and ln[2] == ('problen',):
                    if ln[3][1] > 0:
                        r.add('V-text', '_rdvr/' + l, wg, '%s returns more than the stored text' % ctx)
                    elif not w.st.facts.get(('same', p[2])):
                        r.add('V-text', '_rdvr/' + l, wg, '%s drops %d characters of the text, whatever they are' % (ctx, -ln[3][1]))
                shapes.setdefault(l, set()).add('text')
                r.count('conversions')
            elif kind == 'array':
                a = terms[0]
                mk = w.st.facts.get(('made', a))
                tn = w.st.value(('tnum', a))
                if tn is not None and LAYOUT.get(tn) != layout(ty):
                    r.add('V-representation', '_rdvr/' + l, wg, '%s: an array of %s is returned for %s elements' % (ctx, LAYOUT.get(tn), TYNAME[ty]))
                if tn is not None:
                    shapes.setdefault(l, set()).add(('array', tn))
                d = w.st.facts.get(('newdim', a, 0))
                if d is None or w.st.value(('nd', a)) != 1:
                    r.unsure('%s: the shape of the array returned' % ctx)
                elif d != ('problen',):
                    if d[0] == 'c' or d[0] == 'op':
                        r.add('V-count', '_rdvr/%s/array' % l, wg, '%s returns an array of %s for %s elements' % (ctx, show(d), show(('problen',))))
                    else:
                        r.unsure('%s: the length of the array returned' % ctx)
                if e[2] == ('data', a):
                    r.count('conversions')
                elif e[2][0] == 'addr' or e[2][0] == 'v':
                    cells = w.st.facts.get(('cells', a), frozenset())
                    bad = [c for c in cells if c[0] == 'copy' and (c[2] != 0 or c[1][:2] != e[:2])]
                    if bad:
                        r.add('V-elements', '_rdvr/' + l, wg, '%s: element k of the array is not element k of the variable (shifted by %d)' % (ctx, bad[0][2]))
                    elif ('wrong',) in cells:
                        r.add('V-elements', '_rdvr/' + l, wg, '%s: the elements are copied in another order' % ctx)
                    elif not cells and w.st.rng(('problen',))[0] > 0:
                        r.add('V-elements', '_rdvr/' + l, wg, '%s: the array returned is never filled' % ctx)
                    elif any(c[0] == 'copy' and not taken_whole(c[3], ty) for c in cells):
                        r.add('V-representation', '_rdvr/%s/copy' % l, wg, '%s: elements are taken as %s' % (ctx, sorted(c[3] for c in cells if c[0] == 'copy')))
                    elif cells and not any(c[0] == 'copy' and c[4] for c in cells) and any(c[0] == 'copy' for c in cells) and not any(c[0] == 'other' for c in cells):
                        r.add('V-elements', '_rdvr/%s/first' % l, wg, '%s: the first element of the array is never filled' % ctx)
                    else:
                        r.count('conversions')
                else:
                    r.unsure('%s: what fills the array' % ctx)
            elif kind in ('int', 'float', 'complex'):
                lo, hi, ne = w.st.rng(('problen',))
                if (lo, hi) != (1, 1):
                    if 1 < hi < (1 << 40) or hi >= (1 << 40):
                        r.add('V-count', '_rdvr/%s/scalar' % l, wg, '%s returns one element of a variable that may have more' % ctx)
                check_value_got(r, wg, 'V', ctx, ty, kind, terms, ('get', ty), w.st)
                shapes.setdefault(l, set()).add(kind)
            else:
                r.unsure('%s: what it returns' % ctx)
    # ---- writing
    takes = {}
    for l in puts:
        for letter, e, src, cells, st, i in puts[l]:
            ty = e[1]
            ctx = '_wrvr type %r' % l
            n = simp(e[3])
            if ty == 1:
                text(r, E.m.where(i), 'V', ctx, src, e[3], 1)
                takes.setdefault(l, []).append(('text', st))
            elif src[0] == 'data' or src[0] == 'gep' and root(src)[0] == 'data':
                if src[0] == 'gep':
                    r.add('V-elements', ctx, E.m.where(i), '%s does not write the array from its beginning' % ctx)
                    continue
                a = src[1]
                tn = st.value(('tnum', a))
                if tn is None:
                    r.unsure('%s: the type of the array written' % ctx)
                elif LAYOUT.get(tn) != layout(ty):
                    r.add('V-representation', ctx, E.m.where(i), '%s: elements of %s are written as %s' % (ctx, LAYOUT.get(tn), TYNAME[ty]))
                o = a
                mk = st.facts.get(('made', a))
                if mk and mk[2]:
                    o = mk[2][0]
                if n[0] == 'dim' and n[2] == C(0) and n[1] in (a, o) or n[0] == 'size' and n[1] in (a, o):
                    if n[0] == 'dim' and not any(st.value(('nd', x)) == 1 for x in (a, o)):
                        r.add('V-count', ctx, E.m.where(i), '%s writes only as many elements as the array has rows' % ctx)
                    r.count('conversions')
                elif n[0] == 'c' or n[0] == 'op' and n[2][0] in ('dim', 'size'):
                    r.add('V-count', ctx, E.m.where(i), '%s writes %s elements, not all of the array' % (ctx, show(n)))
                else:
                    r.unsure('%s: how many elements are written' % ctx)
                takes.setdefault(l, []).append(('array', st, o))
            else:
                if n != C(1):
                    if n[0] == 'c':
                        r.add('V-count', ctx, E.m.where(i), '%s writes %s elements for one value' % (ctx, show(n)))
                    else:
                        r.unsure('%s: how many elements are written' % ctx)
                cells = {k: v for k, v in cells.items()}
                check_value_put(r, E.m.where(i), 'V', ctx, ty, st, cells)
                takes.setdefault(l, []).append((CELL[ty][1], st))
    # ---- what reading returns, writing takes
    for l in sorted(set(shapes) & set(takes)):
        for s in sorted(shapes[l], key=str):
            if isinstance(s, tuple):
                ok = any(t[0] == 'array' and s[1] not in t[1].rng(('tnum', t[2]))[2] and
                         t[1].rng(('tnum', t[2]))[0] <= s[1] <= t[1].rng(('tnum', t[2]))[1] for t in takes[l])
                if not ok:
                    r.add('V-refused', '%s/array' % l, wp, 'the arrays that _rdvr returns for type %r (numpy type %d) are refused by _wrvr' % (l, s[1]))
            elif not any(t[0] == s for t in takes[l]):
                r.add('V-refused', '%s/%s' % (l, s), wp, 'the %s that _rdvr returns for type %r is refused by _wrvr' % (s, l))
            r.count('results_taken_back')
    r.floor('variable_types', 3)


class LHooks(Hooks):
    """uvputvr_c / uvgetvr_c: names for the fields of a variable, the conditions met on the way"""

    def __init__(self, m, fn):
        self.m, self.fn = m, fn
        self.outs = []
        self.copies = []

    def load(self, sim, st, i, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        if i.ty == 'i8' and root(loc)[0] != 'g':
            return None
        if loc[0] == 'gep' and loc[1] == ('var',):
            return ('fld', loc[2][-1])
        if loc == ('var',):
            return ('fld', 0)
        if loc[0] == 'gep' and loc[1][0] == 'g' and isinstance(loc[2][-1], tuple):
            return ('tab', loc[1][1], loc[2][-1])
        return ('at', loc)

    def call(self, sim, st, i, args):
        n = i.callee()
        if n is None:
            return None
        b = base_name(n)
        if b in ('bugv_c', 'bug_c'):
            sev = st.value(args[0])
            if sev in (ord('f'), None):
                return [(st, None, 'stop')]
            return [(st, None, 'ret')]
        if b in ('uv_mkvar', 'uv_locvar'):
            t = ('var',)
            st.con[t] = (0 if b == 'uv_locvar' else 1, 1 << 60, frozenset())
            return [(st, t, 'ret')]
        if b == 'hio_c':
            if args[2] == ('arg', 1):
                st.facts['wrote'] = 1
                if args[3] != ('arg', 3):
                    st.facts['other'] = 1
            return [(st, None, 'ret')]
        if b == 'memcmp' or b == 'bcmp':
            st.facts[('bound', args[2])] = 1
        if b in ('Realloc', 'Malloc', 'realloc_c', 'malloc_c', 'mrealloc_c'):
            return [(st, ('newbuf',), 'ret')]
        return [(st, None, 'ret')] if not n.startswith('llvm.') else None

    def store(self, sim, st, i, loc, val):
        pass

    def special(self, sim, st, i):
        n = i.callee() or ''
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            return None
        return None

    def branch(self, sim, st, cond, truth):
        if st.rng(('arg', 4))[1] <= 0:
            st.facts['empty'] = 1
        t, neg = cond, not truth
        while t[0] == 'not':
            t, neg = t[1], not neg
        if t[0] != 'icmp':
            return
        p, a, b = t[1:4]
        if p in ('eq', 'ne') and b[0] != 'c' and a[0] != 'c':
            if (p == 'eq') != neg:
                st.facts[('eq', frozenset((a, b)))] = 1
        if p in ('slt', 'ult', 'sle', 'sge', 'uge', 'sgt') and b[0] == 'op':
            st.facts[('bound', b)] = 1


def fld(t):
    """(field number of the variable) a term was loaded from"""
    return t[1] if t[0] == 'fld' else None


def size_of(t, table):
    """table[type] as an operand"""
    return t[0] == 'tab' and t[1] == table and t[2] == ('arg', 1)


def library(r):
    m = native().m
    # ---- tables
    f = None
    tabs = {}
    for g in ('internal_size', 'external_size', 'type_flag'):
        for name in m.globals:
            if base_name(name) == g or name == g:
                tabs[g] = name
    if len(tabs) == 3:
        vals = {g: {} for g in tabs}
        for fn in m.functions.values():
            for i in fn.insts():
                if i.op == 'store' and i.ops[1][0] == 'gep' and i.ops[1][2][0] == 'glob':
                    for g, nm in tabs.items():
                        if i.ops[1][2][1] == nm and i.ops[0][0] == 'int' and i.ops[1][-1][0] == 'int':
                            vals[g].setdefault(i.ops[1][-1][1], set()).add(i.ops[0][1])
                            f = i
        for ty in (1, 2, 3, 4, 5, 7):
            for g, want, what in (('internal_size', CELLB, 'in memory'), ('external_size', FILEB, 'in the file')):
                v = vals[g].get(ty)
                if v is None:
                    r.unsure('%s[%s]' % (g, TYNAME[ty]))
                elif v != {want[ty]}:
                    r.add('V-size', '%s/%s' % (g, TYNAME[ty]), m.where(f), '%s: %s says %s elements take %s bytes %s, they take %d' % (
                        'uv_init', g, TYNAME[ty], sorted(v), what, want[ty]))
                r.count('table_entries')
        flags = {}
        for ty, v in vals['type_flag'].items():
            for x in v:
                flags.setdefault(x, set()).add(ty)
        table_in(r, m, flags, f)
    else:
        r.unsure('the size tables of uvio.c')
    # ---- putting and getting
    for name in ('uvputvr_c', 'uvgetvr_c'):
        fn = m.functions.get(name)
        if fn is None:
            raise AnalysisBroken('no function %s' % name)
        h = LHooks(m, fn)
        where = m.where(next(i for i in fn.insts() if m.line(i)[1]))
        h.where = where
        h.r = r
        PutSim(fn, h, mod=m, split=30).run(RState())
        if name == 'uvputvr_c':
            put(r, h, where)
        else:
            get(r, h, where)


class PutSim(Sim):
    def call(self, i, st, work):
        n = i.callee() or ''
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            args = [self.term(st, a) for a in i.x['args']]
            self.h.copies.append((args[0], args[1], args[2], st.copy(), i))
            st.facts[('copied', args[0], args[1], args[2])] = 1
            return self.after(i, [(st, None, 'ret')], work)
        return Sim.call(self, i, st, work)

    def havoc(self, *a):
        pass


def put(r, h, where):
    def ret(sim, st, inst, val):
        h.outs.append(st.copy())
    h.ret = ret
    h.outs = []
    PutSim(h.fn, h, mod=h.m, split=30).run(RState())
    nw = 0
    for st in h.outs:
        F = st.facts
        if F.get('wrote'):
            nw += 1
            r.count('put_ways')
            if F.get('other'):
                r.add('V-put', 'uvputvr_c/data', where, 'uvputvr_c writes something else than the values it is given')
            same = any(k[0] == 'eq' and ('arg', 3) in k[1] and any(x == ('newbuf',) or fld(x) is not None for x in k[1]) for k in F if isinstance(k, tuple) and k[0] == 'eq')
            kept = [k for k in F if isinstance(k, tuple) and k[0] == 'copied' and k[2] == ('arg', 3)]
            if not same and not kept:
                r.add('V-remember', 'uvputvr_c', where, 'uvputvr_c can write a new value to the file and leave the remembered one as it was: reading the variable gives the old value')
            for k in kept:
                t = k[3]
                if t[0] == 'op' and t[1] == 'mul':
                    s, n = (t[2], t[3]) if t[3] == ('arg', 4) else (t[3], t[2])
                    if n == ('arg', 4) and size_of(s, 'external_size'):
                        r.add('V-remember', 'uvputvr_c/size', where, 'uvputvr_c remembers a value by its size in the file, not in memory')
                elif t == ('arg', 4):
                    r.add('V-remember', 'uvputvr_c/size', where, 'uvputvr_c remembers only as many bytes as there are elements')
        else:
            if F.get('empty'):
                continue
            r.count('put_ways')
            bounds = [k[1] for k in F if isinstance(k, tuple) and k[0] == 'bound']
            good = [b for b in bounds if b[0] == 'op' and b[1] == 'mul' and ('arg', 4) in b[2:] and any(size_of(x, 'internal_size') for x in b[2:] if isinstance(x, tuple))]
            samelen = [k for k in F if isinstance(k, tuple) and k[0] == 'eq' and any(x[0] == 'op' and x[1] == 'mul' and ('arg', 4) in x[2:] for x in k[1])]
            if not samelen:
                r.add('V-put', 'uvputvr_c/length', where, 'uvputvr_c can leave a variable unwritten although its length changed')
            if not bounds:
                r.add('V-put', 'uvputvr_c/compare', where, 'uvputvr_c can leave a variable unwritten without comparing its value to the last one written')
            elif not good:
                if any(b[0] == 'op' and b[1] == 'mul' and ('arg', 4) in b[2:] and any(size_of(x, 'external_size') for x in b[2:] if isinstance(x, tuple)) for b in bounds):
                    r.add('V-put', 'uvputvr_c/compare', where, 'uvputvr_c compares values by their size in the file: a change in the rest of an element is not written')
                else:
                    r.unsure('uvputvr_c: how much of a value is compared')
    if nw == 0:
        r.unsure('uvputvr_c: no way writes data')


def get(r, h, where):
    if not h.copies:
        r.unsure('uvgetvr_c: no copy found')
    for dst, src, n, st, i in h.copies:
        r.count('get_ways')
        F = st.facts
        if dst != ('arg', 3):
            r.unsure('uvgetvr_c: where it copies to')
            continue
        typed = any(isinstance(k, tuple) and k[0] == 'eq' and ('arg', 1) in k[1] and any(fld(x) is not None for x in k[1]) for k in F)
        if not typed:
            r.add('V-get', 'uvgetvr_c/type', h.m.where(i), 'uvgetvr_c hands out a variable as whatever type it is asked for')


def table_in(r, m, flags, f):
    fn = m.functions.get('uv_vartable_in')
    if fn is None:
        r.unsure('the reader of the variable table')
        return
    got = {}

    class H(Hooks):
        def branch(self, sim, st, cond, truth):
            if truth and cond[0] == 'icmp' and cond[1] == 'eq' and cond[3][0] == 'c':
                st.facts['letter'] = cond[3][1]

        def call(self, sim, st, i, args):
            b = base_name(i.callee() or '')
            if b in ('bugv_c', 'bug_c'):
                return [(st, None, 'stop')]
            if b == 'uv_mkvar':
                got.setdefault(st.facts.get('letter'), set()).add(st.value(args[2]))
                st.facts.pop('letter', None)
            return None
    h = H()
    h.m = m
    Sim(fn, h, mod=m, split=20).run()
    if set(got) == {None} or not got:
        r.unsure('the letters of the variable table')
        return
    where = m.where(next(i for i in fn.insts() if m.line(i)[1]))
    for x, tys in sorted(flags.items()):
        if len(tys) > 1:
            r.add('V-letters', 'type_flag/' + chr(x), m.where(f), 'types %s share the letter %r' % (sorted(TYNAME.get(t, t) for t in tys), chr(x)))
            continue
        if x not in got:
            r.add('V-letters', 'unread/' + chr(x), where, 'variables listed as %r in a data-set are not recognised when it is opened' % chr(x))
        elif got[x] != tys and None not in got[x]:
            r.add('V-letters', 'letter/' + chr(x), where, '%s variables are listed as %r and come back as %s' % (
                '/'.join(TYNAME.get(t, str(t)) for t in tys), chr(x), '/'.join(TYNAME.get(t, str(t)) for t in got[x])))
        r.count('table_letters')


def run(tier):
    r = Result()
    unw = {base_name(n) for n in native().mu}
    E = Ext('aipy._miriad', ['miriad_wrap.cpp'])
    r.units = ['aipy._miriad:miriad_wrap.cpp (_rdvr, _wrvr)', 'aipy._miriad:uvio.c (uvputvr_c, uvgetvr_c, uv_vartable_in, size tables)']
    r.rule('Every way through the native variable accessors is followed per type letter over a model of the CPython and numpy interfaces: stored '
           'type, element count, the object conversion behind what is stored, what is returned and from where. The two must be inverse. In the '
           'library, every way through uvputvr_c that writes a value also remembers it, every way that does not has compared it; the type and '
           'size tables agree with each other and with the reader of the variable table.')
    accessors(r, E, unw)
    library(r)
    r.assumptions = ['the hio_c primitive reads back the bytes it wrote (M03, M04) and byte order conversions are inverse (M05)',
                     'arrays of wider integers are converted by numpy with truncation (FORCECAST), which is the interface documented for them']
    return r
