"""M05: the visibility stream is scanned with the layout it is written with; byte order conversions are inverse."""
import re

from sa.bytemap import ByteMap, Undecided
from sa.ir import AnalysisBroken, base_name, regs_of
from sa.native import flat, strip
from sa.pathsim import C, Hooks, RState, Sim, depth, root
from sa.report import Result
from sa.sccp import SCCP

TYNAME = {1: 'byte', 2: 'int', 3: 'int2', 4: 'real', 5: 'double', 6: 'text', 7: 'complex', 8: 'int8'}
FILEB = {1: 1, 2: 4, 3: 2, 4: 4, 5: 8, 7: 8, 8: 8}
CELLB = {1: 1, 2: 4, 3: 4, 4: 4, 5: 8, 7: 8, 8: 8}


# ------------------------------------------------------------ byte order

def closure(f, regs):
    """registers whose value derives from these by address arithmetic, casts and phis"""
    out = set(regs)
    changed = True
    while changed:
        changed = False
        for i in f.insts():
            if i.res and i.res not in out and i.op in ('getelementptr', 'bitcast', 'phi', 'select'):
                ops = [i.ops[0]] if i.op == 'getelementptr' else [v for v, _ in i.x['inc']] if i.op == 'phi' else i.ops[-2:] if i.op == 'select' else i.ops
                if any(r in out for o in ops for r in regs_of(o)):
                    out.add(i.res)
                    changed = True
    return out


def ratio(f, v):
    """(base register, numerator, denominator) of a count"""
    num = den = 1
    for _ in range(12):
        v = strip(f, v)
        if v[0] != 'reg':
            return None
        d = f.defs.get(v[1])
        if d is None:
            break
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            v = d.ops[0]
            continue
        c = next((o[1] for o in d.ops if o[0] == 'int'), None)
        x = next((o for o in d.ops if o[0] != 'int'), None)
        if d.op == 'mul' and c is not None:
            num *= c
        elif d.op in ('udiv', 'sdiv') and d.ops[1][0] == 'int':
            den *= d.ops[1][1]
        elif d.op == 'shl' and d.ops[1][0] == 'int':
            num <<= d.ops[1][1]
        elif d.op in ('lshr', 'ashr') and d.ops[1][0] == 'int':
            den <<= d.ops[1][1]
        else:
            break
        v = x
    return v[1], num, den


class Conv:
    """a call in hio_c that takes elements from one representation to the other"""

    def __init__(self, call, name, src, dst, count):
        self.call, self.name, self.src, self.dst, self.count = call, name, src, dst, count


def conversions(m, f, ty, dw):
    """the conversions reachable for a type and a direction"""
    s = SCCP(f, {f.params[1][1]: dw, f.params[2][1]: ty})
    reach = [i for b in f.order if b in s.blocks for i in f.blocks[b].insts]
    user = closure(f, {f.params[3][1]})
    out = []
    for i in reach:
        if i.op not in ('call', 'invoke'):
            continue
        n = i.callee() or ''
        if n.startswith('llvm.mem') or n in ('memcpy', 'memmove'):
            a = [strip(f, x) for x in i.x['args']]
            mine = [x[0] == 'reg' and x[1] in user for x in a[:2]]
            if any(mine):
                out.append(Conv(i, None, 1, 0, i.x['args'][2]))
                out[-1].user = mine.index(True)
        elif n in m.functions and f.name != n:
            a = [strip(f, x) for x in i.x['args']]
            ps = m.functions[n].params
            ptr = [k for k, (t, r) in enumerate(ps) if t == 'ptr']
            num = [k for k, (t, r) in enumerate(ps) if t in ('i32', 'i64')]
            mine = [k for k in ptr if a[k][0] == 'reg' and a[k][1] in user]
            if len(ptr) == 2 and len(num) == 1 and len(mine) == 1:
                other = [k for k in ptr if k not in mine][0]
                src, dst = (mine[0], other) if dw else (other, mine[0])
                c = Conv(i, n, src, dst, i.x['args'][num[0]])
                c.user = mine[0]
                c.num = num[0]
                out.append(c)
    return out


def bytemap(m, name, src, dst, num):
    """the byte map of a conversion routine, forwarding routines looked through"""
    for _ in range(3):
        f = m.functions[name]
        calls = [i for i in f.calls() if i.callee() in m.functions]
        ps = {r: k for k, (t, r) in enumerate(f.params)}
        if len(f.order) == 1 and len(calls) == 1:
            a = [strip(f, x) for x in calls[0].x['args']]
            pos = {ps[x[1]]: k for k, x in enumerate(a) if x[0] == 'reg' and x[1] in ps}
            if {src, dst, num} <= set(pos):
                name, src, dst, num = calls[0].callee(), pos[src], pos[dst], pos[num]
                continue
        break
    b = ByteMap(m.functions[name], src, dst).run()
    b.name, b.nparam = name, num
    return b


def turns(b):
    """whether the loop makes exactly as many turns as it is asked for: True / False / None"""
    c = b.count
    if c is None:
        return None
    p, x, y = c[1], c[2], c[3]
    if y[0] in ('i', 'lin'):
        x, y = y, x
        p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
    if y != ('n', b.nparam):
        return None
    r, k, o = (x[1], 1, 0) if x[0] == 'i' else x[1:]
    if not b.unit(r) or k != 1:
        return None
    extra = {'slt': 0, 'ult': 0, 'ne': 0, 'sle': 1, 'ule': 1}.get(p)
    return None if extra is None else extra - o == 0


def byte_order(r, n):
    m = n.m
    f = m.functions.get('hio_c')
    if f is None or len(f.params) < 7:
        raise AnalysisBroken('no hio_c')
    maps = {}
    bases = {}
    for ty in sorted(FILEB):
        both = {}
        for dw in (1, 0):
            cs = conversions(m, f, ty, dw)
            for c in cs:
                rt = ratio(f, c.count)
                if rt is not None:
                    bases.setdefault(rt[0], []).append((ty, dw))
            both[dw] = cs
        if not both[0] and not both[1]:
            r.unsure('hio_c: how %s elements are converted' % TYNAME[ty])
            continue
        for dw in (0, 1):
            if not both[dw]:
                r.add('L-untransferred', 'hio_c/%s' % TYNAME[ty], m.where(both[1 - dw][0].call),
                      'hio_c %s %s elements and never %s them' % (('writes', TYNAME[ty], 'reads') if not dw else ('reads', TYNAME[ty], 'writes')))
        if not both[0] or not both[1]:
            continue
        for dw in (0, 1):
            for c in both[dw]:
                try:
                    if c.name is None:
                        k = 'write' if dw else 'read'
                        want = 1 if dw else 0
                        if c.user != want:
                            r.add('L-direction', 'hio_c/%s/%s' % (TYNAME[ty], k), m.where(c.call), 'hio_c copies the wrong way when it %ss %s elements' % (k, TYNAME[ty]))
                        b = Ident()
                    else:
                        key = (c.name, c.src, c.dst, c.num)
                        if key not in maps:
                            maps[key] = bytemap(m, *key)
                            t = turns(maps[key])
                            if t is False:
                                r.add('L-count', base_name(c.name), m.where(m.functions[c.name].blocks[m.functions[c.name].order[0]].insts[0]),
                                      '%s does not convert exactly the elements it is asked for' % base_name(c.name))
                            r.count('conversion_routines')
                        b = maps[key]
                    c.map = b
                except Undecided as e:
                    r.unsure('%s: %s' % (base_name(c.name), e))
                    c.map = None
        for w in both[1]:
            for u in both[0]:
                if w.map is None or u.map is None:
                    continue
                pair(r, m, f, ty, w, u)
        for dw in (0, 1):
            for c in both[dw]:
                if c.map is not None:
                    counts(r, m, f, ty, dw, c)
    steps = {}
    for ty in FILEB:
        for c in conversions(m, f, ty, 1):
            if c.name is None:
                steps[ty] = (1, 1)
            else:
                b = maps.get((c.name, c.src, c.dst, c.num))
                if b is not None:
                    steps[ty] = (b.sstep, b.dstep)
    advance(r, m, f, steps)
    if len(bases) > 1:
        main = max(bases, key=lambda b: len(bases[b]))
        for b, who in bases.items():
            if b != main:
                r.unsure('hio_c: the number of bytes transferred for %s' % sorted(who))
    r.floor('conversion_pairs', 4)
    return steps


def advance(r, m, f, steps):
    """the caller's memory is gone through as fast as the file"""
    tabs = size_tables(m)
    user = closure(f, {f.params[3][1]})
    phis = {x[1] for i in f.insts() if i.op == 'phi' and i.res in user for x, _ in i.x['inc'] if x[0] == 'reg'}
    for i in f.insts():
        if i.op != 'getelementptr' or i.res not in phis or i.res not in user:
            continue
        v = i.ops[-1]
        tab = None
        for _ in range(6):
            v = strip(f, v)
            d = f.defs.get(v[1]) if v[0] == 'reg' else None
            if d is None or d.op != 'mul':
                break
            for x, y in ((0, 1), (1, 0)):
                e = strip(f, d.ops[x])
                e = f.defs.get(e[1]) if e[0] == 'reg' else None
                g = table(f, e)
                if g:
                    tab, v = g, d.ops[y]
                    break
            else:
                break
        if v[0] != 'reg' or tab is not None and tab not in tabs:
            r.unsure('hio_c: how fast the memory of the caller is gone through')
            continue
        for ty, (mem, fil) in sorted(steps.items()):
            k = tabs[tab].get(ty) if tab else 1
            if k is not None and k * fil != mem:
                r.add('L-advance', 'hio_c/%s' % TYNAME[ty], m.where(i), 'hio_c goes %d bytes further in memory for each byte of %s elements in the file, an element being %d and %d bytes' % (
                    k, TYNAME[ty], mem, fil))
            elif k is not None:
                r.count('advances')


def table(f, e):
    """the table a load indexes"""
    if e is None or e.op != 'load':
        return None
    g = e.ops[0]
    if g[0] == 'reg':
        d = f.defs.get(g[1])
        if d is None or d.op != 'getelementptr' or d.ops[0][0] != 'glob':
            return None
        return base_name(d.ops[0][1])
    return None


def sizes(r, m, used, tabs, steps):
    """tables of sizes in the file and in memory that are used together are in proportion"""
    seen = set()
    for f in m.functions.values():
        here = {}
        for i in f.insts():
            g = table(f, i)
            if g in tabs and len(tabs[g]) > 3:
                here.setdefault(g, i)
        for e in sorted(used & set(here)):
            for g in sorted(set(here) - used):
                if (e, g) in seen or set(tabs[g]) != set(tabs[e]) or max(tabs[g].values()) > 16:
                    continue
                seen.add((e, g))
                for ty, (mem, fil) in sorted(steps.items()):
                    if ty in tabs[e] and tabs[g][ty] * fil != tabs[e][ty] * mem:
                        r.add('L-sizes', '%s/%s' % (g, TYNAME[ty]), m.where(here[g]), '%s elements count as %d bytes in the file (%s) and %d in memory (%s), where %d bytes in the file '
                              'take %d in memory' % (TYNAME[ty], tabs[e][ty], e, tabs[g][ty], g, fil, mem))
                    elif ty in tabs[e]:
                        r.count('sizes')


class Ident:
    out = {0: ('src', 0)}
    sstep = dstep = 1
    base = 0
    name = 'memcpy'


def pair(r, m, f, ty, w, u):
    """what is written and read back is what was there"""
    a, b = w.map, u.map
    what = '%s and %s' % (base_name(a.name), base_name(b.name))
    con = 'hio_c/%s' % TYNAME[ty]
    where = m.where(u.call)
    if a.dstep != b.sstep:
        r.add('L-size', con, where, '%s elements take %d bytes of the file when written and %d when read (%s)' % (TYNAME[ty], a.dstep, b.sstep, what))
        return
    if a.sstep != b.dstep:
        r.add('L-size', con, where, '%s elements take %d bytes of memory when written and %d when read (%s)' % (TYNAME[ty], a.sstep, b.dstep, what))
        return
    r.count('conversion_pairs')
    carried = {v[1]: k for k, v in a.out.items() if v[0] == 'src'}
    top = max(carried, default=None)
    for k in range(b.dstep):
        v = b.out.get(k)
        if v is None:
            r.add('L-bytes', con + '/byte', where, 'byte %d of %s elements is never set when they are read (%s)' % (k, TYNAME[ty], what))
            return
        if v[0] == '?':
            r.unsure('%s: byte %d' % (con, k))
            return
        src = a.out.get(v[1]) if v[0] in ('src', 'sgn') else None
        if v[0] in ('src', 'sgn') and src is None:
            r.add('L-bytes', con + '/byte', where, 'byte %d of %s elements comes from a byte of the file that is never written (%s)' % (k, TYNAME[ty], what))
            return
        if src is not None and src[0] == '?':
            r.unsure('%s: byte %d' % (con, k))
            return
        if v[0] == 'src' and src != ('src', k) or v[0] == 'sgn' and (src != ('src', top) or k <= top) or v[0] == 'k':
            r.add('L-bytes', con + '/byte', where, '%s elements are not read back as they were written: byte %d %s (%s)' % (
                TYNAME[ty], k, 'is always %d' % v[1] if v[0] == 'k' else 'is filled with the sign of byte %d' % src[1] if v[0] == 'sgn' and src[0] == 'src'
                else 'comes from byte %s' % (src[1],), what))
            return
    for j in range(a.dstep):
        if a.out.get(j) != ('src', a.dstep - 1 - j) and a.dstep > 1:
            r.add('L-order', con + '/order', m.where(w.call), '%s elements are not written most significant byte first (%s)' % (TYNAME[ty], base_name(a.name)))
            return


def counts(r, m, f, ty, dw, c):
    rt = ratio(f, c.count)
    k = 'write' if dw else 'read'
    step = c.map.dstep if dw else c.map.sstep
    if rt is None:
        r.unsure('hio_c: how many %s elements it %ss' % (TYNAME[ty], k))
        return
    if rt[1] * step != rt[2]:
        r.add('L-count', 'hio_c/%s/%s' % (TYNAME[ty], k), m.where(c.call), 'hio_c converts %d/%d elements of %d bytes per byte when it %ss %s elements' % (
            rt[1], rt[2], step, k, TYNAME[ty]))
    else:
        r.count('counts')


# ------------------------------------------------------------ the stream

class Deep(Sim):
    """keeps whole arithmetic terms"""

    def arith(self, st, op, a, b, i):
        from sa.sccp import binop
        if a[0] == 'c' and b[0] == 'c':
            v = binop(op, a[1], b[1], 64)
            if v is not None:
                return C(v)
        if op == 'shl' and b[0] == 'c' and 0 <= b[1] < 32:
            op, b = 'mul', C(1 << b[1])
        if b == C(0) and op in ('add', 'sub', 'or', 'xor'):
            return a
        if depth(a) < 40 and depth(b) < 40:
            return ('op', op, a, b)
        return self.fresh(st, ('v', i.res))


    def kill_alias(self, st, loc):
        gone = {l for l in st.mem if l != loc and not apart(l, loc)}
        for l in gone:
            del st.mem[l]
        if gone:
            st.facts['gone'] = st.facts.get('gone', frozenset()) | gone


def chain(loc):
    out = []
    while loc[0] == 'gep':
        out.insert(0, loc[2])
        loc = loc[1]
    return loc, out


def apart(a, b):
    """two locations that do not overlap (distinct members of structures do not)"""
    (x, p), (y, q) = chain(a), chain(b)
    if x == y:
        for s, t in zip(p, q):
            if s == t:
                continue
            return len(s) == len(t) and any(isinstance(u, int) and isinstance(v, int) and u != v for u, v in zip(s, t))
        return False
    if x[0] in ('addr', 'g') or y[0] in ('addr', 'g'):
        return True
    i, j = member(a), member(b)
    return i is not None and j is not None and i != j


def member(loc):
    """the number of the structure member"""
    if loc[0] == 'gep' and len(loc[2]) == 2 and loc[2][0] == 0 and isinstance(loc[2][1], int):
        return loc[2][1]
    return 0 if loc[0] != 'gep' else None


class SHooks(Hooks):
    derived = ('hdr',)

    def __init__(self, n, fn, ext):
        self.n, self.m, self.fn, self.ext = n, n.m, fn, ext
        self.done = []
        self.uvoff = None

    def intcast(self, st, i, t):
        if i.op == 'trunc' and t[0] not in ('c', 'icmp', 'not') and i.ty in ('i8', 'i16'):
            return ('low', i.ty, t)
        if i.op == 'trunc' and t[0] == 'op' and i.ty == 'i32' and self.offset(t):
            return ('low', i.ty, t)
        return t

    def offset(self, t):
        return occurs(('P',), t)

    def load(self, sim, st, i, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        if loc[0] == 'gep' and loc[1][0] == 'g' and base_name(loc[1][1]) in self.ext and len(loc[2]):
            return ('tab', base_name(loc[1][1]), loc[2][-1])
        b, k = split(loc)
        if b in st.facts.get('hdrbuf', ()) and isinstance(k, int):
            return ('hdr', b, k)
        if loc in st.facts.get('gone', ()):
            return None
        return ('at', loc)

    def call(self, sim, st, i, args):
        if self.n.stops(i, [st.value(a) for a in args]):
            return [(st, None, 'stop')]
        b = base_name(i.callee() or '')
        if b == 'hio_c':
            return self.io(sim, st, i, args)
        if i.callee() == self.fn.name:
            return None
        if i.res and i.ty == 'ptr':
            t = ('obj', b)
            st.con[t] = (1, 1 << 62, frozenset())
            return [(st, t, 'ret')]
        if i.callee() in self.m.functions and not (i.callee() or '').startswith('llvm.'):
            # the bookkeeping of the stream does not move behind the routine's back
            return [(st, None, 'ret')]
        return None

    def out_args(self, i):
        return set()

    def io(self, sim, st, i, args):
        dw, ty, buf, off, n = (args[k] for k in (1, 2, 3, 4, 5))
        ev = st.facts.get('ev', ())
        w = st.value(dw)
        e = ('w' if w else 'r', ty, off, n, buf, self.m.where(i))
        if w and st.value(ty) == 1 and st.value(n) == 4:
            e = ('head', self.kind(sim, st, buf), off, self.index(st, buf), buf, self.m.where(i))
        elif w == 0 and st.value(ty) == 1 and st.value(n) == 4:
            e = ('scan', None, off, None, buf, self.m.where(i))
            st.facts['hdrbuf'] = st.facts.get('hdrbuf', frozenset()) | {buf}
            if any(x[0] == 'scan' for x in ev):
                self.done.append((st.copy(), ev, off))
                return [(st, None, 'stop')]
        elif w == 0 and root(buf)[0] != 'addr':
            st.mem[buf] = ('read', buf)
        elif w == 0:
            st.mem[buf] = ('read', buf)
        st.facts['ev'] = ev + (e,)
        if len(ev) > 12:
            raise AnalysisBroken('%s: too many transfers' % self.fn.name)
        # the status is the business of M03
        if args[6][0] in ('addr', 'gep', 'arg'):
            st.mem[args[6]] = C(0)
        return [(st, None, 'ret')]

    def kind(self, sim, st, buf):
        v = st.mem.get(byte(buf, 2))
        if v is not None:
            return st.value(v)
        if buf[0] == 'g':
            bs = initial(self.m, buf[1])
            if bs and len(bs) > 2 and not stored(self.m, buf[1], 2):
                return bs[2]
        return None

    def index(self, st, buf):
        return st.mem.get(buf) or st.mem.get(byte(buf, 0))

    def ret(self, sim, st, i, val):
        self.done.append((st.copy(), st.facts.get('ev', ()), None))


def split(loc):
    k = 0
    while loc[0] == 'gep':
        x = loc[2]
        if isinstance(x[-1], int) and all(y == 0 for y in x[:-1]):
            k += x[-1]
        else:
            return loc, (k or 0)
        loc = loc[1]
    return loc, k


def byte(buf, k):
    return buf if k == 0 else ('gep', buf, (0, k)) if buf[0] in ('g', 'addr') else ('gep', buf, (k,))


def initial(m, g):
    d = str(m.globals.get(g) or '')
    x = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', d)
    if x:
        return [int(t[1:], 16) if t[0] == '\\' else ord(t) for t in re.findall(r'\\[0-9A-Fa-f]{2}|.', x.group(1))]
    x = re.search(r'\[\s*\d+ x i8\s*\] \[([^\]]*)\]', d)
    if x:
        return [int(t) for t in re.findall(r'i8 (-?\d+)', x.group(1))]
    if 'zeroinitializer' in d:
        return [0] * 8
    return None


def stored(m, g, k):
    """whether anything stores to byte k of a global"""
    for f in m.functions.values():
        for i in f.insts():
            if i.op == 'store':
                v = strip(f, i.ops[1])
                if v[0] == 'gep' and v[2] == ('glob', g) and v[-1] == ('int', k):
                    return True
                if v[0] == 'reg':
                    d = f.defs.get(v[1])
                    if d is not None and d.op == 'getelementptr' and d.ops[0] == ('glob', g):
                        return True
    return False


def occurs(x, t):
    if t == x:
        return True
    return isinstance(t, tuple) and any(occurs(x, y) for y in t if isinstance(y, tuple))


def ev(t, env):
    """the value of a term, or None"""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'tab':
        return env.get('tab', {}).get(t[1])
    if t[0] == 'low':
        v = ev(t[2], env)
        if v is None:
            return None
        b = {'i8': 8, 'i16': 16, 'i32': 32}[t[1]]
        v &= (1 << b) - 1
        return v - (1 << b) if v >> (b - 1) else v
    if t[0] == 'op':
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1),
                    'udiv': lambda: a // b, 'srem': lambda: a - (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) * b, 'urem': lambda: a % b,
                    'and': lambda: a & b, 'or': lambda: a | b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: a >> b,
                    'xor': lambda: a ^ b}[t[1]]()
        except (ZeroDivisionError, KeyError, ValueError):
            return None
    return None


def leaves(t, out):
    if t[0] == 'op':
        leaves(t[2], out)
        leaves(t[3], out)
    elif t[0] == 'low':
        leaves(t[2], out)
    elif t[0] not in ('c', 'tab'):
        out.add(t)
    return out


def tables(t, out):
    if t[0] == 'tab':
        out.add(t)
    elif t[0] == 'op':
        tables(t[2], out)
        tables(t[3], out)
    elif t[0] == 'low':
        tables(t[2], out)
    return out


class Record:
    def __init__(self, kind, P, pay, nxt, where, index=None, st=None):
        self.kind, self.P, self.pay, self.nxt, self.where, self.index, self.st = kind, P, pay, nxt, where, index, st


def writers(r, n, seen, ext):
    m = n.m
    out = []
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None or not any(c.callee() == 'hio_c' and const(c, 1) == 1 and const(c, 2) == 1 and const(c, 5) == 4 for c in f.calls()):
            continue
        if not writes_stream(m, f):
            continue
        h = SHooks(n, f, ext)
        Deep(f, h, mod=m, split=60).run(RState())
        got = False
        for st, evs, _ in h.done:
            heads = [k for k, e in enumerate(evs) if e[0] == 'head']
            for x, k in enumerate(heads):
                e = evs[k]
                end = heads[x + 1] if x + 1 < len(heads) else len(evs)
                nxt = evs[end][2] if end < len(evs) else None
                if nxt is None:
                    loc = e[2][1] if e[2][0] == 'at' else None
                    if loc is None:
                        loc = base_loc(evs[heads[0]][2])
                    nxt = st.mem.get(loc) if loc is not None else None
                if e[1] is None or nxt is None:
                    r.unsure('%s: a record it writes' % base_name(name))
                    continue
                got = True
                out.append(Record(e[1], e[2], evs[k + 1:end], nxt, e[5], e[3], st))
        if got:
            r.count('stream_writers')
    return out


def base_loc(t):
    """where the offset the term starts from is kept"""
    ls = [x for x in leaves(t, set()) if x[0] == 'at']
    return ls[0][1] if len(ls) == 1 else None


def const(c, k):
    a = c.x['args']
    return a[k][1] if k < len(a) and a[k][0] == 'int' else None


def writes_stream(m, f):
    """a header is written wherever the stream has got to"""
    return any(const(c, 1) == 1 and const(c, 2) == 1 and const(c, 5) == 4 and const(c, 4) is None for c in f.calls('hio_c'))


def readers(r, n, seen, ext):
    m = n.m
    out = []
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None or not any(c.callee() == 'hio_c' and const(c, 1) == 0 and const(c, 2) == 1 and const(c, 5) == 4 for c in f.calls()):
            continue
        h = SHooks(n, f, ext)
        Deep(f, h, mod=m, split=80).run(RState())
        got = False
        for st, evs, nxt in h.done:
            sc = [k for k, e in enumerate(evs) if e[0] == 'scan']
            if len(sc) != 1:
                continue
            k = sc[0]
            lo, hi, ne = st.rng(('hdr', evs[k][4], 2))
            if lo != hi:
                continue
            P = evs[k][2]
            if nxt is None:
                loc = base_loc(P) or (P[1] if P[0] == 'at' else None)
                v = st.mem.get(loc) if loc is not None else None
                if v is None or v == P:
                    continue
                nxt = v
            got = True
            out.append(Record(lo, P, evs[k + 1:], nxt, evs[k][5], None, st))
        if got:
            r.count('stream_readers')
    return out


def size_tables(m):
    """tables filled with constants, element by element"""
    tabs = {}
    for fn in m.functions.values():
        for i in fn.insts():
            if i.op == 'store' and i.ops[0][0] == 'int' and i.ops[1][0] == 'gep' and i.ops[1][2][0] == 'glob' and i.ops[1][-1][0] == 'int':
                tabs.setdefault(base_name(i.ops[1][2][1]), {}).setdefault(i.ops[1][-1][1], set()).add(i.ops[0][1])
    return {g: {k: next(iter(v)) for k, v in t.items() if len(v) == 1} for g, t in tabs.items()}


class Shape:
    """what a record looks like for one element type and one number of elements"""

    def __init__(self, rec, ty, size, k, p, tabs):
        self.rec = rec
        env = {'tab': {g: v.get(ty) for g, v in tabs.items()}}
        self.free = None
        for x in leaves(rec.P, set()):
            env.setdefault(x, p)
        start = ev(rec.P, env)
        if start is None:
            self.free = rec.P
            return
        env[rec.P] = start
        # an unknown that is a number of bytes: the length of the payload
        for e in rec.pay:
            env.update(self.solve(e[3], env, size * k if rec.kind != 0 else 4, k))
        if rec.kind == 1 and not rec.pay:
            for x in leaves(rec.nxt, set()):
                env.setdefault(x, size * k)
        self.pay = []
        for e in rec.pay:
            o, n = ev(e[2], env), ev(e[3], env)
            if o is None or n is None:
                self.free = e[2] if o is None else e[3]
                return
            self.pay.append((e[1][1] if e[1][0] == 'c' else None, o - start, n))
        v = ev(rec.nxt, env)
        if v is None:
            self.free = rec.nxt
            return
        self.next = v - start

    def solve(self, t, env, v, k):
        """an unknown of its own is given the value, a number of elements its share of it"""
        if ev(t, env) is not None:
            return {}
        if t[0] == 'op' and t[1] == 'mul':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                x = ev(b, env)
                if x:
                    return self.solve(a, env, v // x, k)
        if t[0] in ('op', 'low'):
            return {}
        # what the caller passes is a number of elements
        return {t: k if t[0] == 'arg' else v}


KIND = {0: 'length', 1: 'value', 2: 'end-of-record'}


def stream(r, n, steps):
    m = n.m
    seen = n.reach(n.eps)
    tabs = size_tables(m)
    ws = writers(r, n, seen, set(tabs))
    rs = readers(r, n, seen, set(tabs))
    if not ws or not rs:
        r.unsure('the stream: no writer or no scanner of its records recognised (%d, %d)' % (len(ws), len(rs)))
        return
    used = {x[1] for w in ws + rs for t in [w.nxt] + [y for e in w.pay for y in (e[2], e[3])] for x in tables(t, set())}
    sizes(r, m, used, tabs, steps)
    said = set()

    def say(rule, con, where, msg):
        if (rule, con) not in said:
            said.add((rule, con))
            r.add(rule, con, where, msg)

    for w in ws:
        name = KIND.get(w.kind, w.kind)
        mine = [x for x in rs if x.kind == w.kind]
        if not mine:
            say('L-record', 'record %s' % name, w.where, '%s records are written and the scanner has no case for them' % name)
            continue
        bad = None
        for ty, size in FILEB.items():
            if not all(t.get(ty) for g, t in tabs.items() if g in used):
                continue
            for k in range(1, 25):
                for p in (0, 8, 1024):
                    a = Shape(w, ty, size, k, p, tabs)
                    if a.free is not None:
                        bad = ('?', w, a.free)
                        break
                    for x in mine:
                        b = Shape(x, ty, size, k, p, tabs)
                        if b.free is not None:
                            bad = ('?', x, b.free)
                            break
                        d = differ(a, b, ty)
                        if d:
                            bad = ('!', x, d % {'ty': TYNAME[ty], 'k': k})
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                break
        if bad and bad[0] == '?':
            r.unsure('%s record at %s: %s' % (name, bad[1].where, str(bad[2])[:80]))
        elif bad:
            say('L-record', 'record %s' % name, bad[1].where, '%s records written at %s: %s' % (name, w.where, bad[2]))
        else:
            r.count('record_layouts')
        if w.kind == 0 and w.pay:
            v = w.pay[0][4] and w.st.mem.get(w.pay[0][4])
            val = [x for x in ws if x.kind == 1 and x.st is w.st and x.pay]
            if v is not None and val and v != val[0].pay[0][3] and ('at', w.pay[0][4]) != val[0].pay[0][3]:
                say('L-length', 'record length', w.where, 'the length recorded at %s is not the number of bytes of the value that follows' % w.where)
    ls = {x.pay[0][4] for x in rs if x.kind == 0 and x.pay}
    for x in rs:
        if x.kind == 1 and x.pay and x.pay[0][3][0] == 'at' and ls and not any(same_member(x.pay[0][3][1], l) for l in ls):
            say('L-length', 'record value', x.where, 'the bytes of a value read are not the length that was read for it')


def same_member(a, b):
    return path(a)[-1:] == path(b)[-1:]


def differ(a, b, ty):
    """how the record read differs from the one written"""
    if a.next != b.next:
        return 'the next one is %d bytes on when written and %d when read (%%(k)d %%(ty)s elements)' % (a.next, b.next)
    if b.pay and len(a.pay) != len(b.pay):
        return '%d transfers when written, %d when read' % (len(a.pay), len(b.pay))
    for x, y in zip(a.pay, b.pay):
        if x[0] is not None and y[0] is not None and x[0] != y[0]:
            return 'the payload is written as %s and read as %s' % (TYNAME.get(x[0], x[0]), TYNAME.get(y[0], y[0]))
        if x[1] != y[1]:
            return 'the payload is written at byte %d and read from byte %d (%%(ty)s elements)' % (x[1], y[1])
        if x[2] != y[2]:
            return 'the payload is %d bytes when written and %d when read (%%(k)d %%(ty)s elements)' % (x[2], y[2])
    return None


# ------------------------------------------------------------ bookkeeping items

class KHooks(SHooks):
    """header items written and read back by name"""

    def __init__(self, n, fn):
        SHooks.__init__(self, n, fn, ())
        self.wrote, self.read, self.texts, self.known = [], [], [], []

    def call(self, sim, st, i, args):
        b = base_name(i.callee() or '')
        key = text(self.m, args[1]) if len(args) > 2 else None
        if re.match(r'wrhd[a-z]_c$', b) and key:
            v = st.value(args[2]) if b[4] != 'a' else text(self.m, args[2])
            (self.texts if b[4] == 'a' else self.wrote).append((key, b[4], args[2] if b[4] != 'a' else v, self.m.where(i)))
            return [(st, None, 'ret')]
        if re.match(r'rdhd[a-z]_c$', b) and key:
            if b[4] == 'a':
                st.facts['text'] = st.facts.get('text', frozenset()) | {(args[2], key, self.m.where(i))}
                self.known.append((key, None, self.m.where(i)))
            else:
                st.mem[args[2]] = ('hd', key, b[4])
                if member(args[2]) is not None:
                    self.read.append((key, b[4], args[2], self.m.where(i)))
            return [(st, None, 'ret')]
        if b in ('strcmp', 'strncmp'):
            for x, y in ((0, 1), (1, 0)):
                for buf, k, w in st.facts.get('text', ()):
                    lit = text(self.m, args[y])
                    if args[x] == buf and lit is not None:
                        self.known.append((k, lit, self.m.where(i)))
            return [(st, None, 'ret')]
        if i.callee() in self.m.functions and not i.ty == 'ptr':
            return [(st, None, 'ret')]
        return SHooks.call(self, sim, st, i, args)

    def store(self, sim, st, i, loc, v):
        if v[0] == 'hd' and path(loc):
            self.read.append((v[1], v[2], loc, self.m.where(i)))


def path(loc):
    """the members a location is reached through"""
    out = ()
    while loc[0] == 'gep':
        x = tuple(k for k in loc[2] if k != 0)
        out = x + out
        loc = loc[1]
    return out


def text(m, t):
    while t[0] == 'gep' and not any(t[2]):
        t = t[1]
    if t[0] != 'g':
        return None
    d = str(m.globals.get(t[1]) or '')
    if ' constant ' not in d:
        return None
    bs = initial(m, t[1])
    return bytes(bs).split(b'\0')[0].decode('latin-1') if bs else None


def items(r, n):
    m = n.m
    wrote, read, texts, known = [], [], [], []
    for name in sorted(n.reach(n.eps)):
        f = m.functions.get(name)
        if f is None or not any(re.match(r'(wr|rd)hd[a-z]_c$', base_name(c.callee() or '')) for c in f.calls()):
            continue
        h = KHooks(n, f)
        Deep(f, h, mod=m, split=8).run(RState())
        wrote += h.wrote
        read += h.read
        texts += h.texts
        known += h.known
    wp, rp = {}, {}
    for key, l, v, w in wrote:
        if v[0] == 'at' and path(v[1]):
            wp.setdefault(key, {})[path(v[1])] = (l, w)
        else:
            wp.setdefault(key, {})[None] = (l, w)
    for key, l, loc, w in read:
        rp.setdefault(key, {})[path(loc)] = (l, w)
    where = {p: k for k, ps in wp.items() for p in ps if p is not None}
    for key in sorted(set(wp) & set(rp)):
        r.count('items_restored')
        for p, (l, w) in sorted(rp[key].items(), key=str):
            if p in where and p not in wp[key] and None not in wp[key]:
                r.add('L-item', 'item %s' % key, w, 'item %s is read into what is saved in item %s' % (key, where[p]))
    done = set()
    for key, _, lit, w in texts:
        lits = {x for k, x, _ in known if k == key and x is not None}
        if lit is None or not lits or (key, lit) in done:
            continue
        done.add((key, lit))
        r.count('item_texts')
        if lit not in lits:
            r.add('L-text', 'item %s' % key, w, 'item %s is written as "%s", which is not recognised when it is read back (%s)' % (
                key, lit, ', '.join('"%s"' % x for x in sorted(lits))))


RULES = {
    'L-direction': 'a copy transfers towards the caller when reading and from it when writing',
    'L-untransferred': 'every element type that is written is read, and the other way round',
    'L-size': 'an element takes the same number of bytes, in memory and in the file, both ways',
    'L-bytes': 'each byte of an element read back is the byte that was there when it was written',
    'L-order': 'elements are most significant byte first in the file',
    'L-count': 'as many elements are converted as the bytes transferred hold',
    'L-advance': 'the memory of the caller is gone through as fast as the file',
    'L-sizes': 'the sizes of elements in the file and in memory are in the proportion the conversions have',
    'L-record': 'payload type, place and length and the place of the next record are the same when a record is written and scanned',
    'L-length': 'the length recorded for a variable is the number of bytes of its values',
    'L-item': 'what is saved in an item is what the item restores',
    'L-text': 'every text an item is given is recognised when it is read back',
}


def run(tier):
    r = Result()
    n = flat()
    r.units = ['aipy._miriad:hio.c (hio_c), pack.c', 'aipy._miriad:uvio.c (stream writers and scanners)']
    stream(r, n, byte_order(r, n))
    items(r, n)
    for name, text in RULES.items():
        r.rule('%s: %s' % (name, text))
    return r
