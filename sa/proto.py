"""What a typed native accessor does for each type letter: the library calls it makes, what it passes them, and what it
makes of the result.  Collected path by path over the CPython/numpy model (sa.capi)."""
import re

from sa.bounds import Ctx, TYSIZE
from sa.ir import base_name
from sa.capi import CHooks, parse_fmt, run as crun
from sa.pathsim import C, INF, root

INTCONV = {'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsSsize_t', 'PyNumber_AsSsize_t', '_PyLong_AsInt', 'PyLong_AsInt', 'PyLong_AsUnsignedLong'}
FLTCONV = {'PyFloat_AsDouble', 'PyComplex_RealAsDouble', 'PyComplex_ImagAsDouble'}
LIB = {'hio_c', 'uvgetvr_c', 'uvputvr_c', 'uvprobvr_c', 'uvread_c', 'uvwrite_c'}


class Way:
    """one way through the accessor"""

    def __init__(self, letter, ev, val, st, i):
        self.letter, self.ev, self.val, self.st, self.inst = letter, ev, val, st, i


class PHooks(CHooks):
    def __init__(self, m, fn, unw):
        CHooks.__init__(self, m, fn, unw)
        self.ways = []
        self.bufs = self.buffers(fn)
        self.puts = []      # states at calls that hand values to the library: (letter, event, state, inst)

    def buffers(self, fn):
        """locals handed to the library as data"""
        out = set()
        for i in fn.calls():
            if i.callee() and base_name(i.callee()) in LIB:
                for v in i.x['args'][2:3] if 'uvprobvr' in i.callee() else i.x['args'][3:4]:
                    while v[0] == 'reg' and v[1] in fn.defs and fn.defs[v[1]].op in ('getelementptr', 'bitcast', 'freeze'):
                        v = fn.defs[v[1]].ops[0]
                    if v[0] == 'reg' and v[1] in fn.defs and fn.defs[v[1]].op == 'alloca':
                        out.add(v[1])
        return out

    # ---- letters
    def letter(self, st):
        v = st.facts.get(('is',))
        return chr(v) if v else None

    # ---- addresses
    def where(self, i, loc, ptr):
        """(root, byte offset) of an address, offset None when it varies"""
        off = 0
        var = None
        v = ptr
        chain = []
        fn = self.fn
        while v[0] == 'reg' and v[1] in fn.defs:
            d = fn.defs[v[1]]
            if d.op == 'getelementptr':
                chain.append(d)
                v = d.ops[0]
            elif d.op in ('bitcast', 'freeze'):
                v = d.ops[0]
            else:
                break
        l = loc
        for d in chain:
            if l[0] != 'gep':
                continue        # a zero offset
            ty = d.x.get('elem')
            ks = l[2]
            if len(ks) == len(d.ops) - 1:
                for n, k in enumerate(ks):
                    if n:
                        ty = ty[1:-1].strip().split(' x ', 1)[1] if ty.startswith('[') else None
                    sz = tysize(ty)
                    if isinstance(k, tuple):
                        if var is not None or sz is None:
                            return root(loc), None, None
                        var = (k, sz)
                    elif sz is None and k:
                        return root(loc), None, None
                    else:
                        off += k * (sz or 0)
            l = l[1]
        return root(loc), off, var

    def load(self, sim, st, i, loc):
        if loc[0] == 'str':
            return ('letter', loc)
        if loc[0] == 'g' and re.match(r'global|constant|external global', str(self.m.globals.get(loc[1]) or '')) and ' x i8]' in self.m.globals[loc[1]]:
            return ('tag', loc[1])
        r = root(loc)
        fill = st.facts.get(('filled', r))
        if fill is not None:
            rr, off, var = self.where(i, loc, i.ops[0])
            if off is not None:
                return ('elem', fill, off, var or (), i.ty)
            return None
        return CHooks.load(self, sim, st, i, loc)

    def intcast(self, st, i, term):
        """a number of a filled buffer: record what changes of width do to it"""
        v = strip(term)
        if v[0] != 'elem' or v[4] not in ('i16', 'i32', 'i64') or i.op not in ('trunc', 'zext', 'sext'):
            return term
        if i.op == 'sext' and term[0] != 'cv':
            return term
        w = i.ty if i.op == 'trunc' else i.x['from']
        return ('cv', i.op + w[1:], term) if re.match(r'i\d+$', w) else term

    def store(self, sim, st, i, loc, val):
        r, off, var = self.where(i, loc, i.ops[1])
        if r[0] == 'data':
            st.facts[('cells', r[1])] = st.facts.get(('cells', r[1]), frozenset()) | {self.cell(val, off, var)}
        elif r[0] == 'addr':
            st.facts.pop(('filled', r), None)
            if off is not None and var is None and r[1] in self.bufs:
                st.facts[('cell', r, off)] = (val, i.ty)
        CHooks.store(self, sim, st, i, loc, val)

    def cell(self, val, off, var):
        """an element copied into an array: which element of what, relative to where it goes"""
        v = strip(val)
        if v[0] != 'elem' or off is None:
            return ('other',)
        sz = TYSIZE.get(v[4], 4)
        k = C(0)
        if var is not None:
            t = var[0]
            if t[0] == 'op' and t[1] == 'mul' and var[1] == 1:
                k = t[3] if t[2][0] == 'stride' else t[2] if t[3][0] == 'stride' else ('?',)
            elif t[0] == 'stride':
                k = C(1)
            else:
                k = t if var[1] == sz else ('?',)
        if off % sz or v[2] % sz:
            return ('other',)
        s = C(0)
        if v[3]:
            s = v[3][0] if v[3][1] == sz else ('?',)
        a, b = off // sz, v[2] // sz
        if k[0] == 'c' and s[0] == 'c':
            return ('copy', v[1], k[1] + a - s[1] - b, via(val, v[4]), k[1] + a == 0)
        if k[0] == 'c' and s[0] == 'op' and s[2] == ('problen',) or s[0] == 'c' and k[0] == 'op' and k[2] == ('problen',):
            return ('wrong',)       # counted from the end
        if k == s and k[0] != '?':
            return ('copy', v[1], a - b, via(val, v[4]), False)
        return ('other',)

    def branch(self, sim, st, cond, truth):
        t, neg = cond, not truth
        while t[0] == 'not':
            t, neg = t[1], not neg
        if t[0] != 'icmp' or t[1] not in ('eq', 'ne') or (t[1] == 'eq') == neg:
            return
        a, b = t[2], t[3]
        if b[0] in ('elem', 'letter'):
            a, b = b, a
        if b[0] in ('strcmp', 'memcmp'):
            a, b = b, a
        if a[0] == 'elem' and b[0] == 'c':
            st.facts[('same', a[1])] = st.facts.get(('same', a[1]), frozenset()) | {b[1]}
        if a[0] == 'strcmp' and b == C(0) and len(a[1]) == 1:
            st.facts[('is',)] = ord(a[1])
        if a[0] == 'memcmp' and b == C(0):
            st.facts[('tagged',)] = a[1]
        if a[0] == 'elem' and b[0] == 'tag':
            st.facts[('tagged',)] = b[1]
        if a[0] == 'letter' and b[0] == 'c':
            st.facts[('is',)] = b[1]

    # ---- calls
    def call(self, sim, st, i, args):
        n = self.cname(sim, st, i)
        if n in ('strcmp', 'strncmp'):
            for x, y in ((0, 1), (1, 0)):
                lit = self.m.string(i.x['args'][y])
                if args[x][0] == 'str' and lit is not None:
                    return [(st, ('strcmp', lit), 'ret')]
        if n in ('memcmp', 'bcmp', 'strncmp'):
            for x, y in ((0, 1), (1, 0)):
                if args[y][0] == 'g' and st.facts.get(('filled', root(args[x]))) is not None and args[2] == C(4):
                    return [(st, ('memcmp', args[y][1]), 'ret')]
        outs = CHooks.call(self, sim, st, i, args)
        if outs is None:
            return None
        if n in INTCONV or n in FLTCONV:
            for s, t, how in outs:
                if t and not s.facts.get('exc') or t and n in FLTCONV:
                    s.facts[('conv', t)] = (n, args[0])
        elif n and (n.startswith('PyLong_From') or n.startswith('PyFloat_From') or n.startswith('PyComplex_From') or n.startswith('PyBytes_From') or
                    n.startswith('PyUnicode_') or n in ('Py_BuildValue', '_Py_BuildValue_SizeT', 'PyTuple_Pack')):
            fmt = self.m.string(i.x['args'][0]) if 'BuildValue' in n else None
            for s, t, how in outs:
                if t and t[0] != 'c':
                    cells = tuple((off, v) for k, a in enumerate(args) for (off, v) in self.cells(s, a)) if n.endswith('AndSize') else ()
                    src = tuple(s.facts.get(('filled', root(a))) if a[0] in ('addr', 'gep') else None for a in args)
                    s.facts[('made', t)] = (n, fmt, tuple(args), src)
        elif n in ('PyArray_New', 'PyArray_SimpleNew', 'PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_FromArray'):
            for s, t, how in outs:
                if t and t[0] != 'c':
                    s.facts[('made', t)] = (n, None, tuple(args), ())
        return outs

    def cells(self, st, ptr):
        r = root(ptr)
        return sorted(((k[2], v) for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'cell' and k[1] == r), key=repr)

    def event(self, st, ev):
        st.facts[('ev',)] = st.facts.get(('ev',), ()) + (ev,)

    def extra(self, sim, st, i, n, args):
        if n not in LIB:
            if i.callee() and n not in ('__cxa_end_catch',) and not n.startswith('_ZN'):
                for a in args:
                    if a[0] in ('addr', 'gep'):
                        r = root(a)
                        st.facts.pop(('filled', r), None)
                        for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == 'cell' and k[1] == r]:
                            del st.facts[k]
            return None
        unw = None
        if i.op == 'invoke' and self.may_unwind(i):
            unw = st.copy()
            sim.havoc(unw, i, args)
        if n == 'hio_c':
            wr = st.value(args[1])
            ev = ('hio', wr, st.value(args[2]), root(args[3]), args[4], args[5], args[0], str(i.block) + ':' + str(i.line if hasattr(i, 'line') else ''))
            buf = args[3] if not wr else None
        elif n == 'uvgetvr_c':
            ev = ('get', st.value(args[1]), root(args[3]), args[4], args[2])
            buf = args[3]
        elif n == 'uvputvr_c':
            ev = ('put', st.value(args[1]), root(args[3]), args[4], args[2])
            buf = None
        elif n == 'uvprobvr_c':
            ev = ('prob', args[1])
            buf = args[2]
        else:
            ev = (n,) + tuple(args[1:])
            buf = None
        if buf is None:
            src = args[3] if n in ('hio_c', 'uvputvr_c') else ('c', 0)
            self.puts.append((self.letter(st), ev, src, dict(self.cells(st, src)), st.copy(), i))
        sim.havoc(st, i, args)
        self.event(st, ev)
        if buf is not None:
            for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == 'cell' and k[1] == root(buf)]:
                del st.facts[k]
            if root(buf)[0] in ('addr', 'data'):
                st.facts[('filled', root(buf))] = ev[:2] if n == 'uvprobvr_c' else ev[:3]
        if n == 'uvprobvr_c' and args[3][0] == 'addr':
            st.mem[args[3]] = ('problen',)
        outs = [(st, None, 'ret')]
        if unw is not None:
            outs.append((unw, None, 'unwind'))
        return outs

    def done(self, sim, st, inst, val):
        self.ways.append(Way(self.letter(st), st.facts.get(('ev',), ()), val, st.copy(), inst))


def tysize(t):
    if t is None:
        return None
    if t in TYSIZE:
        return TYSIZE[t]
    if t.startswith('['):
        n, e = t[1:-1].strip().split(' x ', 1)
        s = tysize(e)
        return None if s is None else int(n) * s
    return None


def methods(m):
    """{name Python sees: function} from the method tables"""
    out = {}
    for g, t in m.globals.items():
        if 'PyMethodDef' in t:
            for a, b in re.findall(r'%struct\.PyMethodDef \{ ptr @([\w.]+), ptr @([\w.]+)', t):
                n = m.string(('glob', a))
                if n:
                    out[n] = b
    return out


def follow(E, name, unw):
    """every way through the function Python calls `name`, or None if there is no such function"""
    f = E.m.functions.get(methods(E.m).get(name))
    if f is None or not f.blocks:
        return None
    h = PHooks(E.m, f, unw)
    crun(h, E.m, split=60)
    return h


def norm(t):
    """terms of two functions compared: block and register names dropped from argument slots"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('num', 'obj', 'str'):
            return (t[0], t[2])
        return tuple(norm(x) for x in t)
    return t


def tuple_items(m, made):
    """the values a result tuple is built from: [(format code, term)] or None"""
    n, fmt, args, src = made
    if n.endswith('BuildValue') or 'BuildValue' in n:
        if fmt is None:
            return None
        out, p = [], 1
        for code, cnt, opt in parse_fmt(fmt.replace('[', '(').replace(']', ')')):
            if p >= len(args):
                return None
            out.append((code, args[p]))
            p += cnt
        return out
    if n == 'PyTuple_Pack':
        return [('O', a) for a in args[1:]]
    return None


KIND = {'i': 'int', 'l': 'int', 'n': 'int', 'L': 'int', 'h': 'int', 'b': 'int', 'f': 'float', 'd': 'float'}


def describe(st, m, code, t):
    """a result value as (kind, [terms it is made of])"""
    if code in KIND:
        return KIND[code], [t]
    mk = st.facts.get(('made', st.facts.get(('from', t), t)))
    if mk is None:
        return None, []
    n, fmt, args, src = mk
    if n.startswith('PyLong_From'):
        return 'int', list(args[:1])
    if n.startswith('PyFloat_From'):
        return 'float', list(args[:1])
    if n.startswith('PyComplex_FromDoubles'):
        return 'complex', list(args[:2])
    if n.startswith('PyBytes_From') or n.startswith('PyUnicode_'):
        return ('bytes' if n.startswith('PyBytes') else 'str'), [('ptr', args[0], src[0])] + list(args[1:2])
    if n.startswith('PyArray_'):
        return 'array', [st.facts.get(('from', t), t)]
    it = tuple_items(m, mk)
    if it is not None:
        return 'tuple', it
    return None, []


def strip(t):
    while t[0] == 'cv':
        t = t[2]
    return t


def via(t, ty):
    """the type an element is taken as, and the changes of width on the way"""
    while t[0] == 'cv':
        ty += ' ' + t[1] if t[1][:4] in ('trun', 'zext', 'sext') else ''
        t = t[2]
    return ty
