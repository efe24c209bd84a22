"""Fixed buffers and tables of the MIRIAD layer: text formatted or scanned into an array of fixed size, and indices into
one, that nothing on the way has bounded.  Only positive arguments are findings: what is not understood is not reported."""
import re

from sa.ir import base_name

ARRAY = re.compile(r'\[\s*(\d+) x (.*?)\s*\]$')
THROUGH = ('add', 'sub', 'mul', 'phi', 'sext', 'zext', 'trunc', 'freeze', 'srem', 'select')


class Fixed:
    def __init__(self, N):
        self.N, self.m = N, N.m
        self.callers = {}
        for f in self.m.functions.values():
            if f.blocks:
                for i in f.calls():
                    for t in N.g.targets.get(id(i)) or ():
                        self.callers.setdefault(t, []).append(i)
        self.sites = 0

    def d(self, f, v):
        return f.defs.get(v[1]) if v[0] == 'reg' else None

    def bare(self, f, v):
        for _ in range(10):
            i = self.d(f, v)
            if i is None or i.op not in ('bitcast', 'sext', 'zext', 'trunc', 'freeze'):
                return v
            v = i.ops[0]
        return v

    def room(self, f, v):
        """bytes of the fixed array v points at the start of, if it is one"""
        if v[0] == 'glob':
            g = self.m.globals.get(v[1]) if hasattr(self.m, 'globals') else None
            mm = ARRAY.search(str(g)) if isinstance(g, str) else None
            return int(mm.group(1)) if mm and mm.group(2) == 'i8' else None
        i = self.d(f, v)
        if i is None:
            return None
        if i.op == 'alloca':
            mm = ARRAY.match(i.x['alloc'].strip())
            return int(mm.group(1)) if mm and mm.group(2).strip() == 'i8' else None
        if i.op == 'getelementptr':
            mm = ARRAY.match(i.x['elem'].strip())
            if mm and mm.group(2).strip() == 'i8' and all(o == ('int', 0) for o in i.ops[1:]):
                return int(mm.group(1))
            if all(o == ('int', 0) for o in i.ops[1:]):
                return self.room(f, i.ops[0])
        return None

    def text(self, f, v, seen=()):
        """longest text v may be: a number, 'any', or None (unknown)"""
        s = self.m.string(v)
        if s is not None:
            return len(s)
        n = self.room(f, v)
        if n is not None:
            return n - 1
        i = self.d(f, v)
        if self.measured(f, v):
            return 'looked'                     # its length is looked at
        if i is None and v[0] == 'reg':
            k = [k for k, (t, r) in enumerate(f.params) if r == v[1]]
            if not k:
                return None
            if (f.name, k[0]) in seen:
                return 0
            cs = self.callers.get(f.name, [])
            ls = [self.text(c.fn, c.ops[k[0]], seen + ((f.name, k[0]),)) if k[0] < len(c.ops) else None for c in cs]
            return 'any' if 'any' in ls else None if not ls or None in ls or 'looked' in ls else max(ls)
        if i is not None and i.op in ('call', 'invoke') and i.callee() == 'getenv':
            return 'any'
        if i is not None and i.op in ('phi', 'select'):
            vs = [o for o in i.ops if o[0] in ('reg', 'glob')] if i.op == 'select' else [o for o in i.ops if o[0] in ('reg', 'glob')]
            ls = [self.text(f, o, seen) for o in vs if (f.name, o) not in seen][:6]
            return 'any' if 'any' in ls else None
        return None

    def measured(self, f, v, depth=0):
        for c in f.calls():
            for k, o in enumerate(c.ops):
                if o[0] != 'reg' or self.bare(f, o) != v:
                    continue
                if c.callee() in ('strlen', 'strnlen', '__strlen_chk', 'memchr'):
                    return True
                for t in self.N.g.targets.get(id(c)) or ():
                    g = self.m.functions.get(t)
                    if depth < 2 and g is not None and g.blocks and k < len(g.params) and \
                            self.measured(g, ('reg', g.params[k][1]), depth + 1):
                        return True
        return False

    def scan(self, names):
        for n in sorted(names):
            f = self.m.functions.get(n)
            if f is None or not f.blocks:
                continue
            for i in f.insts():
                if i.op in ('call', 'invoke'):
                    c = i.callee() or ''
                    if c in ('sprintf', '__sprintf_chk'):
                        yield from self.sprintf(f, i, 1 if c == 'sprintf' else 3)
                    elif c.endswith('sscanf'):
                        yield from self.sscanf(f, i)
                    elif c in ('snprintf', '__snprintf_chk', 'strncpy', 'fgets', 'memcpy', 'memset', 'memmove') or c.startswith('llvm.mem'):
                        k = 1 if c in ('snprintf', '__snprintf_chk', 'fgets') else 2
                        room, n = self.room(f, i.ops[0]), i.ops[k]
                        if room is not None and n[0] == 'int':
                            self.sites += 1
                            if n[1] > room:
                                yield i, '%d bytes are allowed into a buffer of %d' % (n[1], room)
                    elif c in ('strcpy', '__strcpy_chk'):
                        room, t = self.room(f, i.ops[0]), self.text(f, i.ops[1])
                        if room is not None and (t == 'any' or isinstance(t, int)):
                            self.sites += 1
                            if t == 'any' or t >= room:
                                yield i, 'text of %s is copied to a buffer of %d' % ('any length' if t == 'any' else 'up to %d bytes' % t, room)
                elif i.op == 'getelementptr':
                    yield from self.index(f, i)

    def sprintf(self, f, i, k):
        room = self.room(f, i.ops[0])
        fmt = self.m.string(i.ops[k])
        if room is None or fmt is None:
            return
        self.sites += 1
        a = k + 1
        total = len(re.sub(r'%[-+ #0]*\d*(?:\.\d+)?[hlL]*[a-zA-Z]', '', fmt))
        for mm in re.finditer(r'%([-+ #0]*)(\*|\d*)(\.(?:\*|\d+))?([hlLqzjt]*)([a-zA-Z%])', fmt):
            if mm.group(5) == '%':
                continue
            a += (mm.group(2) == '*') + (mm.group(3) == '.*')
            if mm.group(5) == 's' and a < len(i.ops):
                if mm.group(3) and mm.group(3) != '.*':
                    total += int(mm.group(3)[1:])
                elif not mm.group(3):
                    t = self.text(f, i.ops[a])
                    if t == 'any':
                        yield i, 'text of any length is formatted into a buffer of %d bytes' % room
                        return
                    total += t if isinstance(t, int) else 0
            a += 1
        if total >= room:
            yield i, 'text of up to %d bytes is formatted into a buffer of %d' % (total, room)

    def sscanf(self, f, i):
        fmt = self.m.string(i.ops[1])
        t = self.text(f, i.ops[0])
        if fmt is None:
            return
        a = 2
        for mm in re.finditer(r'%(\*?)(\d*)([hlL]*)([a-zA-Z\[])', fmt):
            if mm.group(1):
                continue
            if mm.group(4) == 's' and a < len(i.ops):
                room = self.room(f, i.ops[a])
                n = int(mm.group(2)) if mm.group(2) else t
                self.sites += 1
                before = len(fmt[:mm.start()].split()) if not mm.group(2) else 0
                if room is not None and (n == 'any' or isinstance(n, int) and n - 2 * before >= room):
                    yield i, 'a word of %s is read into a buffer of %d bytes' % ('any length' if n == 'any' else 'up to %d bytes' % n, room)
            a += 1

    # ---- indices
    def signed(self, f, v):
        """the byte v is made from is taken as a signed number"""
        while True:
            i = self.d(f, v)
            if i is None or i.op not in ('bitcast', 'sext', 'zext', 'trunc', 'freeze'):
                return False
            x = self.d(f, i.ops[0])
            if x is not None and x.op == 'load' and x.ty.strip() == 'i8':
                return i.op == 'sext'
            v = i.ops[0]

    def compared(self, f, v):
        """some value that v is made from, or is a copy of, is compared"""
        ks = self.closure(f, v)
        src = {self.bare(f, k) for k in ks} | ks
        addr = {self.d(f, k).ops[0] for k in src if self.d(f, k) is not None and self.d(f, k).op == 'load'}
        same = {self.place(f, a) for a in addr} - {None}
        for i in f.insts():
            if i.op in ('icmp', 'switch'):
                for o in i.ops:
                    cs = self.closure(f, o) if o[0] == 'reg' else set()
                    if cs & ks:
                        return True
                    for c in cs:
                        x = self.d(f, c)
                        if x is not None and x.op == 'load' and self.place(f, x.ops[0]) in same:
                            return True
            elif i.op in ('call', 'invoke') and self.guards_call(i) and any(
                    o[0] == 'reg' and self.closure(f, o) & ks for o in i.ops):
                return True                     # a helper may compare it
        return False

    def guards_call(self, c):
        gs = [self.m.functions.get(t) for t in self.N.g.targets.get(id(c)) or ()]
        return any(g is not None and g.blocks and any(i.op in ('icmp', 'switch') for i in g.insts()) for g in gs)

    def place(self, f, a):
        """a name for the address: member of a struct, or variable"""
        i = self.d(f, a)
        if a[0] == 'glob':
            return a
        if i is not None and i.op == 'getelementptr' and i.x['elem'].strip().startswith('%struct') and all(o[0] == 'int' for o in i.ops[1:]):
            return (i.x['elem'].strip(),) + tuple(i.ops[1:])
        return ('at', a)

    def closure(self, f, v):
        out, work = set(), [v]
        while work:
            x = work.pop()
            if x in out or x[0] != 'reg' or len(out) > 200:
                continue
            out.add(x)
            i = self.d(f, x)
            if i is not None and i.op in THROUGH:
                work += [o for o in i.ops if o[0] == 'reg']
        return out

    def index(self, f, i):
        mm = ARRAY.match(i.x['elem'].strip())
        if not mm or len(i.ops) < 3 or i.ops[1] != ('int', 0) or i.ops[2][0] != 'reg':
            return
        size, v = int(mm.group(1)), i.ops[2]
        self.sites += 1
        x = self.bare(f, v)
        d = self.d(f, x)
        if d is None:
            return
        if d.op == 'load' and d.ty.strip() == 'i8':
            signed = self.signed(f, v)
            if (signed or size < 256) and not self.compared(f, v):
                yield i, 'a byte read from a buffer, %s, is an index of a table of %d' % ('negative ones included' if signed else 'unchecked', size)
        elif d.op == 'srem':
            for k in self.closure(f, d.ops[0]):
                e = self.d(f, k)
                if e is not None and e.op == 'sext' and self.d(f, e.ops[0]) is not None and self.d(f, e.ops[0]).op == 'load' and \
                        self.d(f, e.ops[0]).ty.strip() == 'i8' and not self.compared(f, d.ops[0]):
                    yield i, 'the remainder of a sum of signed characters, which may be negative, is an index of a table of %d' % size
                    break
        elif d.op == 'load':
            p = self.place(f, d.ops[0])
            if p[0] == 'at':
                return
            grown = [s for s in f.insts() if s.op == 'store' and self.place(f, s.ops[1]) == p and self.d(f, s.ops[0]) is not None and
                     self.d(f, s.ops[0]).op == 'add' and ('int', 1) in self.d(f, s.ops[0]).ops and
                     any(self.d(f, o) is not None and self.d(f, o).op == 'load' and self.place(f, self.d(f, o).ops[0]) == p for o in self.d(f, s.ops[0]).ops)]
            if grown and not self.compared(f, v):
                yield i, 'a count that this function raises is the index of a new entry of a table of %d without being compared' % size
