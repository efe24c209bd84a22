"""M10: native code touches only memory inside the arrays and buffers it is given."""
import itertools
import os
import re

from sa import ir
from sa.bounds import Bounds, Ctx, Poly, PROVED, REFUTED, UNDECIDED, TYSIZE, show
from sa.capi import CHooks, Ext, NPYNAME, SIZE, run as crun
from sa.ir import AnalysisBroken, base_name
from sa.cg import entry_points
from sa.fixbuf import Fixed
from sa.native import flat, native
from sa.pathsim import root, C
from sa.report import Result

EXTS = [('aipy.utils', None), ('aipy._dsp', None), ('aipy._deconv', None), ('aipy._miriad', ['miriad_wrap.cpp'])]
# element held in memory for each MIRIAD type: (scalar, scalars per element)
MEM = {'H_BYTE': ('i8', 1), 'H_INT': ('i32', 1), 'H_INT2': ('i32', 1), 'H_REAL': ('float', 1), 'H_DBLE': ('double', 1), 'H_CMPLX': ('float', 2),
       'H_INT8': ('i64', 1)}
FILESIZE = {'H_BYTE': 1, 'H_INT': 4, 'H_INT2': 2, 'H_REAL': 4, 'H_DBLE': 8, 'H_CMPLX': 8, 'H_INT8': 8}


def htypes():
    out = {}
    t = ''.join(open(os.path.join(ir.REPO, 'aipy/_miriad/mir', h), encoding='latin-1').read() for h in ('miriad.h', 'hio.h'))
    for m in re.finditer(r'^\s*#\s*define\s+(H_\w+)\s+(\d+)\b', t, re.M):
        if m.group(1) in MEM:
            out[int(m.group(2))] = m.group(1)
    if len(out) < 5:
        raise AnalysisBroken('the MIRIAD type codes were not found in miriad.h')
    return out


class Facts:
    """prove linear facts about terms from one abstract state"""

    def __init__(self, st, hooks):
        self.ctx = Ctx(st, hooks)
        self.st = st
        self.rel = []
        for t, (lo, hi, ne) in st.con.items():
            if t[0] == 'icmp' and lo == 1:
                a, b = self.ctx.poly(t[2]), self.ctx.poly(t[3])
                if t[1] == 'slt':
                    self.rel.append(b - a - Poly.const(1))
                elif t[1] == 'sle':
                    self.rel.append(b - a)
                elif t[1] == 'eq':
                    self.rel += [a - b, b - a]

    def nonneg(self, p, depth=2):
        tot = p.get((), 0)
        ok = True
        for m, c in p.items():
            if m == ():
                continue
            lo, hi = self.mono(m)
            v = lo if c > 0 else hi
            if v is None:
                ok = False
                break
            tot += c * v
        if ok and tot >= 0:
            return True
        return depth > 0 and any(self.nonneg(p - f, depth - 1) for f in self.rel if f.atoms() & p.atoms())

    def mono(self, m):
        lo, hi = 1, 1
        for a in m:
            l, h = self.ctx.lower(a), self.ctx.upper(a)
            if l < -(1 << 62):
                return (None, None) if len(m) > 1 else (None, h if h < 1 << 62 else None)
            if l < 0 and len(m) > 1:
                return None, None
            lo, hi = lo * l, None if hi is None or h > 1 << 62 else hi * h
        return lo, hi

    def refute(self, p):
        """values the caller may choose for the quantities in p, consistent with every relation known, for which p < 0"""
        at, facts = set(p.atoms()), set()
        while True:
            new = [k for k, f in enumerate(self.rel) if k not in facts and f.atoms() & at]
            if not new:
                break
            for k in new:
                facts.add(k)
                at |= self.rel[k].atoms()
        facts = [self.rel[k] for k in facts]
        if len(at) > 5 or not all(a[0] in ('dim', 'num', 'ld', 'out') for a in at):
            return False
        at = sorted(at, key=repr)
        choices = []
        for a in at:
            lo, hi = self.ctx.lower(a), self.ctx.upper(a)
            c = [0, 1, 2, 3, 5] if lo < -(1 << 62) else [lo, lo + 1, lo + 2, lo + 4]
            if lo < 0:
                c += [-4, -1]
            if hi is not None and hi < 1 << 40:
                c += [hi, hi - 1]
            else:
                c += [1 << 20]
            choices.append([x for x in set(c) if lo <= x and (hi is None or x <= hi)])
        for vals in itertools.product(*choices):
            env = dict(zip(at, vals))
            if value(p, env) < 0 and all(value(f, env) >= 0 for f in facts):
                return True
        return False

    def within(self, e, size, n):
        """e >= 0 and e + n <= size -> (verdict, text)"""
        goals = [(e, 'starts before'), (size - e - n, 'ends after')]
        bad = [(g, t) for g, t in goals if not self.nonneg(g)]
        if not bad:
            return PROVED, ''
        for g, t in bad:
            if g.value() is not None or self.refute(g):
                return REFUTED, '%s bytes from byte %s: %s the %s bytes there are' % (n, e, t, size)
        return UNDECIDED, '%s bytes from byte %s within %s' % (n, e, size)


def value(p, env):
    tot = 0
    for m, c in p.items():
        for a in m:
            c *= env[a]
        tot += c
    return tot


class Hooks(CHooks):
    def __init__(self, m, fn, unw, types, repo, r):
        CHooks.__init__(self, m, fn, unw)
        self.kernels, self.acc, self.types, self.repo, self.r = {}, {}, types, repo, r

    def offset(self, ctx, loc, fn=None):
        """byte offset of a location from its root, or None (byte-wise geps only, or through known allocas)"""
        if loc[0] != 'gep':
            return Poly()
        base = self.offset(ctx, loc[1])
        if base is None:
            return None
        return base, loc[2]

    def load(self, sim, st, i, loc):
        self.touch(sim, st, i, loc, i.ty)
        return CHooks.load(self, sim, st, i, loc)

    def store(self, sim, st, i, loc, val):
        self.touch(sim, st, i, loc, i.ty)

    def note(self, i, verdict, kind, text):
        k = (id(i), kind)
        old = self.acc.get(k)
        rank = {PROVED: 0, UNDECIDED: 1, REFUTED: 2}
        if old is None or rank[verdict] > rank[old[1]]:
            self.acc[k] = (i, verdict, kind, text)

    def touch(self, sim, st, i, loc, ty):
        """an access the entry point makes itself"""
        r = root(loc)
        if r[0] != 'data':
            return
        a = r[1]
        F = Facts(st, self)
        off = self.bytes_from(F, i, loc)
        if off is None:
            return self.note(i, UNDECIDED, 'address', 'an address the analysis cannot resolve')
        bad = F.ctx.access_ok(a, i.op == 'store')
        if bad:
            return self.note(i, REFUTED, 'behaved', '%s %s' % (show(a), bad))
        self.note(i, *self.inside(F, a, off, ty))

    def bytes_from(self, F, i, loc):
        """byte offset of an array access (char and scalar pointer arithmetic)"""
        if loc[0] != 'gep':
            return Poly()
        base = self.bytes_from(F, i, loc[1])
        if base is None or len(loc[2]) != 1:
            return None
        k = loc[2][0]
        el = self.elems.get(id(i))
        if el is None:
            return None
        sz = TYSIZE.get(el.pop(0) if el else 'i8')
        return None if sz is None else base + F.ctx.poly(k if isinstance(k, tuple) else C(k)) * Poly.const(sz)

    @property
    def elems(self):
        """element types of the gep chain of each access, innermost first"""
        out = {}
        for i in self.fn.insts():
            if i.op in ('load', 'store'):
                v = i.ops[0] if i.op == 'load' else i.ops[1]
                ch = []
                while v[0] == 'reg' and v[1] in self.fn.defs:
                    d = self.fn.defs[v[1]]
                    if d.op == 'getelementptr':
                        ch.insert(0, d.x.get('elem'))
                        v = d.ops[0]
                    elif d.op in ('bitcast', 'freeze'):
                        v = d.ops[0]
                    else:
                        break
                out[id(i)] = ch
        return out

    def inside(self, F, a, off, ty):
        ctx = F.ctx
        sz = TYSIZE.get(ty)
        if sz is None:
            return UNDECIDED, 'address', 'an access of type %s' % ty
        if F.st.value(('nd', a)) is None:
            return (REFUTED if ctx.given(a) else UNDECIDED), 'rank', 'elements of %s are used, its rank was not checked' % show(a)
        lay = ctx.layout(a)
        if lay is None:
            return (REFUTED if ctx.given(a) else UNDECIDED), 'type', 'elements of %s are used as %s, its type was not checked' % (show(a), ty)
        if lay[0] != ty:
            return REFUTED, 'type', '%s is accessed as %s, its elements are %s' % (show(a), ty, NPYNAME[ctx.tnum(a)])
        nd = ctx.nd(a)
        esz = Poly.const(TYSIZE[lay[0]] * lay[1])
        strides = [x for x in off.atoms() if x[0] == 'stride']
        if not strides:
            if off and not ctx.packed(a):
                return UNDECIDED, 'contiguity', '%s is walked as packed memory' % show(a)
            n = esz
            for k in range(nd):
                n = n * ctx.poly(('dim', a, C(k)))
            v, t = F.within(off, n, Poly.const(sz))
            return v, 'bounds', '%s: %s' % (show(a), t)
        worst = (PROVED, 'bounds', '')
        rest = off
        for s in strides:
            if s[1] != a:
                return REFUTED, 'stride', '%s is addressed with the strides of %s' % (show(a), show(s[1]))
            sp = rest.split(s)
            k = s[2][1] if isinstance(s[2], tuple) else s[2]
            if sp is None or not isinstance(k, int):
                return UNDECIDED, 'address', 'a non-linear stride'
            rest = sp[1]
            if k >= nd:
                return REFUTED, 'rank', 'dimension %d of %s is used, it has rank %d' % (k, show(a), nd)
            v, t = F.within(sp[0], ctx.poly(('dim', a, C(k))), Poly.const(1))
            if v == REFUTED:
                return v, 'bounds', '%s, dimension %d: index %s of %s' % (show(a), k, sp[0], ctx.poly(('dim', a, C(k))))
            if v != PROVED:
                worst = v, 'bounds', '%s, dimension %d: %s' % (show(a), k, t.replace('bytes', 'elements'))
        if rest and worst[0] == PROVED:
            v, t = F.within(rest, esz, Poly.const(sz))
            worst = v, 'bounds', '%s: %s' % (show(a), t)
        return worst

    # ---- what library calls read or write through a pointer
    def buffer(self, sim, st, i, ptr, scalar, nbytes, what):
        F = Facts(st, self)
        r = root(ptr)
        off = Poly()
        if ptr[0] == 'gep':
            if len(ptr[2]) == 1 and ptr[1] == r and isinstance(ptr[2][0], int) and r[0] == 'addr':
                d = self.fn.defs.get(r[1])
                off = Poly.const(ptr[2][0])
            else:
                return self.note(i, UNDECIDED, 'buffer', '%s: a pointer into %s' % (what, show(r)))
        if r[0] == 'addr':
            d = self.fn.defs[r[1]]
            t = d.x.get('alloc')
            cnt = 1
            while t and t.startswith('['):
                n, t = t[1:-1].strip().split(' x ', 1)
                cnt *= int(n)
            sz = TYSIZE.get(t)
            if sz is None or d.ops:
                return self.note(i, UNDECIDED, 'buffer', '%s: a local of type %s' % (what, t))
            if t not in ('i8', scalar):
                return self.note(i, REFUTED, 'buffer-type', '%s is given a local %s for %s data' % (what, t, scalar))
            v, tx = F.within(off, Poly.const(sz * cnt), nbytes)
            return self.note(i, v, 'buffer', '%s: %s' % (what, tx))
        if r[0] == 'data':
            a = r[1]
            ctx = F.ctx
            lay = ctx.layout(a)
            bad = ctx.access_ok(a, False)
            if bad:
                return self.note(i, REFUTED, 'behaved', '%s: %s %s' % (what, show(a), bad))
            mine = ctx.given(a)
            if lay is None:
                return self.note(i, REFUTED if mine else UNDECIDED, 'type', '%s: the element type of %s was not checked' % (what, show(a)))
            if lay[0] != scalar and (what.split()[0] not in ('uvgetvr_c', 'uvputvr_c', 'hio_c') or scalar != 'i8'):
                return self.note(i, REFUTED, 'type', '%s: %s holds %s, %s is expected' % (what, show(a), NPYNAME[ctx.tnum(a)], scalar))
            nd = ctx.nd(a)
            if nd is None:
                return self.note(i, REFUTED if mine else UNDECIDED, 'rank', '%s: the rank of %s was not checked' % (what, show(a)))
            if not ctx.packed(a):
                return self.note(i, REFUTED if mine else UNDECIDED, 'contiguity', '%s: %s was not checked to be contiguous' % (what, show(a)))
            n = Poly.const(TYSIZE[lay[0]] * lay[1])
            for k in range(nd):
                n = n * ctx.poly(('dim', a, C(k)))
            v, tx = F.within(off, n, nbytes)
            return self.note(i, v, 'buffer', '%s, %s: %s' % (what, show(a), tx))
        if r[0] == 'utf8':
            n = Poly.atom(('utf8len', r[1])) + Poly.const(1)
            v, tx = F.within(off, n, nbytes)
            return self.note(i, v, 'buffer', '%s: %s' % (what, tx))
        if r[0] == 'g':
            m = re.search(r'(?:global|constant) \[\s*(\d+) x i8\s*\]', str(self.m.globals.get(r[1]) or ''))
            if m:
                v, tx = F.within(off, Poly.const(int(m.group(1))), nbytes)
                return self.note(i, v, 'buffer', '%s: %s' % (what, tx))
        self.note(i, UNDECIDED, 'buffer', '%s: a pointer the analysis cannot resolve' % what)

    def extra(self, sim, st, i, n, args):
        P = lambda t: Ctx(st, self).poly(t)
        if n in ('uvread_c', 'uvwrite_c'):
            self.buffer(sim, st, i, args[1], 'double', Poly.const(40), n + ' preamble')
            cnt = P(args[4])
            self.buffer(sim, st, i, args[2], 'float', cnt * Poly.const(8), n + ' data')
            self.buffer(sim, st, i, args[3], 'i32', cnt * Poly.const(4), n + ' flags')
            self.r.count('library_buffers', 3)
        elif n in ('uvgetvr_c', 'uvputvr_c', 'uvrdvr_c'):
            ty = st.value(args[1])
            if self.types.get(ty) is None:
                self.note(i, UNDECIDED, 'buffer', '%s: type code %s' % (n, ty))
            else:
                sc, per = MEM[self.types[ty]]
                if n == 'uvrdvr_c':
                    return None
                self.buffer(sim, st, i, args[3], sc, P(args[4]) * Poly.const(TYSIZE[sc] * per), n + ' value')
                self.r.count('library_buffers')
        elif n == 'hio_c':
            ty = st.value(args[2])
            if self.types.get(ty) is None:
                self.note(i, UNDECIDED, 'buffer', '%s: type code %s' % (n, ty))
            else:
                sc, per = MEM[self.types[ty]]
                k = TYSIZE[sc] * per // FILESIZE[self.types[ty]]
                self.buffer(sim, st, i, args[3], sc, P(args[5]) * Poly.const(k), n + ' value')
                self.r.count('library_buffers')
        elif i.callee() in self.repo and self.m.functions.get(i.callee()) is not None:
            self.kernels.setdefault((i.callee(), self.sig(st, args)), (i, list(args), st.copy()))
        return None

    def sig(self, st, args):
        """what distinguishes one call state from another for the callee: everything known about its arguments"""
        about = set()
        for a in args:
            about.add(a)
        con = frozenset((t, c) for t, c in st.con.items() if mentions(t, about))
        return (tuple(args), con)


def mentions(t, about):
    if t in about:
        return True
    return isinstance(t, tuple) and any(mentions(x, about) for x in t if isinstance(x, tuple))


def run(tier):
    r = Result()
    unw = {base_name(n) for n in native().mu}
    types = htypes()
    r.rule('Every load and store a native entry point makes through an array, and every one made by the loops it calls, is resolved to '
           '(array, byte offset) and shown to lie inside the array: the types, ranks, shapes and contiguity tested on the way to the call '
           'are collected path by path, index ranges follow from dominating branches and inductive loop bounds. Buffers handed to the MIRIAD '
           'library are compared with the number of elements requested of it. Divisors are shown to be non-zero.')
    for ext, only in EXTS:
        E = Ext(ext, only)
        r.units += ['%s:%s' % (ext, s) for s in (only or E.m.srcs)]
        repo = {f.name for f in E.m.repo_defined()}
        for f in E.entries():
            h = Hooks(E.m, f, unw if ext == 'aipy._miriad' else None, types, repo, r)
            crun(h, E.m, relational=True)
            r.count('entry_points')
            name = '%s/%s' % (ext, base_name(f.name))
            for (k, text), (i, trail) in h.found.items():
                if k == 'unchecked-object':
                    r.add('A-object', '%s/%s' % (name, text[:60]), E.m.where(i), text, trailtext(E, trail))
            for i, v, kind, text in h.acc.values():
                r.count('direct_accesses')
                report(r, E, i, v, kind, text, name)
            for (kn, _), (site, args, st) in h.kernels.items():
                k = E.m.functions[kn]
                if not k.blocks:
                    continue
                B = Bounds(k, {reg: a for (ty, reg), a in zip(k.params, args)}, Ctx(st, h))
                r.count('kernel_calls')
                via = ['called from %s (%s)' % (base_name(f.name), E.m.where(site))]
                for x in k.insts():
                    if x.op in ('load', 'store'):
                        a = B.access(x)
                        if a is not None:
                            r.count('kernel_accesses')
                            report(r, E, x, a[0], a[1], a[2], '%s>%s' % (name, base_name(kn)), via)
                for x, v, text in B.divisors():
                    r.count('divisors')
                    report(r, E, x, v, 'divisor', text, '%s>%s' % (name, base_name(kn)), via)
    N = flat()
    F = Fixed(N)
    names = N.reach(entry_points(N.m))
    r.rule('Text formatted, scanned or copied into an array of fixed size by the functions the entry points reach is bounded by the array: by '
           'a precision, a width, the size given, or the size of the buffer it comes from; bytes of a file and counts that grow are compared '
           'before they index a table.')
    for i, text in F.scan(names):
        r.add('F-fixed', '%s/%s' % (base_name(i.fn.name), text[:90]), N.m.where(i), text, [])
    r.count('fixed_buffer_sites', F.sites)
    r.floor('fixed_buffer_sites', 40)
    r.floor('entry_points', 8)
    r.floor('kernel_accesses', 40)
    r.floor('library_buffers', 5)
    r.assumptions = ['sizes and products of sizes do not overflow the index types', 'arrays are aligned and in native byte order',
                     'other threads do not reshape arrays during a call']
    return r


def trailtext(E, trail):
    return ['line %s:%s' % E.m.line(x) for x in trail if E.m.line(x)[1]][-12:]


def report(r, E, i, verdict, kind, text, name, path=()):
    r.count('obligations')
    if verdict == REFUTED:
        r.add('A-' + kind, '%s/%s' % (name, re.sub(r'%[\w.]+', '%', text)[:90]), E.m.where(i), text, list(path))
    elif verdict == UNDECIDED:
        r.unsure('%s %s: %s %s' % (E.m.where(i), name, kind, text))
