"""M04: nothing written is lost - buffered data reaches the file before its buffer is reused, cleaned or freed."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

from sa import native
from sa.fieldsim import FSim, FState, Fields, fa, base, member
from sa.ir import AnalysisBroken
from sa.pathsim import C, Hooks, depth
from sa.report import Result
from sa.sccp import SCCP

MODIFIED = 2
NOCACHE, SCRATCH, CACHE, CACHEMOD = 0x20, 0x4, 0x10, 0x1
ACCESS = 0xf
NAMED = {('%struct.IOB', 'offset'), ('%struct.IOB', 'length')}
TYPES = range(1, 9)
DISCARDS = {'habort_c', 'hrm_c', 'hdelete_c'}      # their purpose is to throw data away


def iob_of(st, v, field):
    """the buffer descriptors whose member currently holds this value"""
    return [l[1] for l, t in st.mem.items() if t == v and l[0] == 'fa' and l[2:] == ('%struct.IOB', field)]


def item_of(x):
    """the item a buffer descriptor belongs to"""
    if x[0] == 'el' and x[1][0] == 'fa' and x[1][2] == '%struct.item':
        return x[1][1]
    return None


class Events(Hooks):
    derived = ('*',)

    def __init__(self, chk, f, label=''):
        self.c, self.f, self.label = chk, f, label
        self.n = chk.n
        self.item_mode = {}

    # ------------------------------------------------------------- helpers
    def get(self, st, obj, struct, field):
        return st.mem.get(fa(obj, struct, field))

    def is_zero(self, st, t):
        return t is not None and st.rng(t)[1] <= 0 and (st.rng(t)[0] >= 0 or True)

    def bits(self, st, t, mask):
        """whether flags & mask is known nonzero (True), zero (False)"""
        if t is None:
            return None
        v = st.value(t)
        if v is not None:
            return bool(v & mask)
        if t[0] == 'op' and t[1] == 'or' and t[3][0] == 'c' and t[3][1] & mask:
            return True
        if t[0] == 'op' and t[1] == 'and' and t[3][0] == 'c' and not t[3][1] & mask:
            return False
        r = st.truth(('op', 'and', t, C(mask)))
        if r is None and t[0] == 'op' and t[1] in ('or', 'and') and t[3][0] == 'c':
            k = t[3][1]
            if t[1] == 'or' and not k & mask or t[1] == 'and' and k & mask == mask:
                return self.bits(st, t[2], mask)
        if r is None:
            # wider tests known false, or a narrower known true
            zero = 0
            for q, (lo, hi, ne) in st.con.items():
                if q[0] == 'op' and q[1] == 'and' and q[2] == t and q[3][0] == 'c':
                    if lo == hi == 0:
                        zero |= q[3][1]
                    if (lo > 0 or hi < 0 or 0 in ne) and q[3][1] & mask == q[3][1]:
                        return True
            if zero & mask == mask:
                return False
        return r

    def failed(self, st):
        """an i/o status is known to be bad on this path"""
        return any(k[0] == 'err' and st.truth(k) is True for k in st.facts)

    def unmodified(self, st, x):
        s = self.get(st, x, 'IOB', 'state')
        return s is not None and st.cmp('ne', s, C(MODIFIED)) is True

    def fresh(self, st, obj):
        return obj is not None and ('fresh', obj) in st.facts

    def empty(self, st, x):
        l = self.get(st, x, 'IOB', 'length')
        return l is not None and st.rng(l)[1] <= 0

    def saved(self, st, x):
        """the content of the buffer is where it belongs"""
        it = item_of(x)
        if it is not None and x[2] in self.c.single:
            return True         # never has a buffer
        if self.unmodified(st, x) or ('wrote', x) in st.facts or self.fresh(st, it) or self.fresh(st, base(x)) or self.failed(st):
            return True
        if it is not None and (('trunc', it) in st.facts or self.bits(st, self.get(st, it, 'item', 'flags'), SCRATCH)):
            return True
        return False

    def bad(self, i, st, rule, construct, msg):
        key = (rule, construct, self.c.m.where(i))
        if key in self.c.seen:
            return
        self.c.seen.add(key)
        self.c.r.add(rule, construct, self.c.m.where(i), msg, self.c.trail(st))

    # --------------------------------------------------------------- loads
    def load(self, sim, st, i, loc):
        if loc[0] == 'fa' and loc[2:] == ('%struct.item', 'fwd'):
            v = st.mem.get(loc)
            for k in [k for k in st.facts if k[0] == 'fwd' and k[1] in (v, ('ld', i.res))]:
                del st.facts[k]
            if v is None:
                st.facts['fwd?', loc[1]] = True
                v = sim.fresh(st, ('ld', i.res))
                it = [k[1] for k in st.facts if k[0] == 'fwd?'][0]
                del st.facts['fwd?', it]
                st.mem[fa(it, 'item', 'fwd')] = v
            else:
                it = loc[1]
            st.facts['fwd', v, it] = True
            return v
        if self.c.single and loc[0] == 'fa' and loc[2:] == ('%struct.IOB', 'buf') and loc[1][0] == 'el' and loc[1][2] in self.c.single:
            return C(0)
        return None

    # -------------------------------------------------------------- stores
    def store(self, sim, st, i, loc, v):
        if loc[0] != 'fa':
            m = member(loc)
            if m and m[2:] == ('%struct.MASK_INFO', 'buf'):
                st.facts['mdirty', m[1]] = True
                if ('mstale', m[1]) in st.facts:
                    self.bad(i, st, 'gap', '%s: mask' % self.name(), 'flags are put into a buffer that still counts what it held of another part of the file')
            b = self.in_buf(st, loc)
            if b is not None:
                self.dirtied(st, i, b, loc)
            return
        x, s, fld = loc[1:]
        if s == '%struct.IOB':
            self.store_iob(sim, st, i, x, fld, v)
        elif s == '%struct.item':
            self.store_item(sim, st, i, x, fld, v)
        elif s == '%struct.tree' and fld == 'flags':
            self.store_tree(sim, st, i, x, v)
        elif s == '%struct.MASK_INFO':
            self.store_mask(sim, st, i, x, fld, v)

    def name(self):
        return self.f.name + self.label

    def store_iob(self, sim, st, i, x, fld, v):
        c = self.c
        if fld == 'state':
            c.r.count('state_stores')
            if st.cmp('ne', v, C(MODIFIED)) is True:
                it = item_of(x)
                size = self.get(st, it, 'item', 'size') if it is not None else None
                if not (self.saved(st, x) or ('cachemod',) in st.facts or ('hdr', x) in st.facts
                        or size is not None and st.rng(size)[1] <= 0):
                    self.bad(i, st, 'marked-clean', '%s: state' % self.name(),
                             'a buffer that may hold unwritten data is marked clean, though this path has neither written it nor marked the header for rewriting')
            for k in list(st.facts):
                if k in (('wrote', x), ('hdr', x)):
                    del st.facts[k]
            if st.cmp('eq', v, C(MODIFIED)) is not True and st.cmp('ne', v, C(MODIFIED)) is True:
                pass
        elif fld == 'offset':
            c.r.count('discards')
            if not (self.saved(st, x) or self.empty(st, x)):
                self.bad(i, st, 'discard', '%s: offset' % self.name(),
                         'the buffer is moved to another part of the file while it may hold unwritten data')
        elif fld == 'length' and st.value(v) == 0:
            c.r.count('discards')
            it = item_of(x)
            if not (self.saved(st, x) or self.empty(st, x)):
                self.bad(i, st, 'discard', '%s: length' % self.name(),
                         'the buffer is emptied while it may hold unwritten data')
        elif fld == 'buf':
            c.r.count('discards')
            it = item_of(x)
            if ('copied', x, v) in st.facts or self.empty(st, x) or self.saved_buf(st, x):
                return
            self.bad(i, st, 'discard', '%s: buf' % self.name(),
                     'the buffer is replaced while it may hold data that has not been copied to the new one')

    def saved_buf(self, st, x):
        """replacing the buffer loses nothing: a new or scratch item, or an item without content"""
        it = item_of(x)
        if it is None:
            return False
        size = self.get(st, it, 'item', 'size')
        buf = self.get(st, x, 'IOB', 'buf')
        return self.fresh(st, it) or ('trunc', it) in st.facts or ('hassize0', it) in st.facts or size is not None and st.rng(size)[1] <= 0 \
            or bool(self.bits(st, self.get(st, it, 'item', 'flags'), SCRATCH)) or buf is not None and st.value(buf) == 0 \
            or x[2] != 0

    def store_item(self, sim, st, i, it, fld, v):
        if fld == 'size' and st.value(v) == 0:
            st.facts['trunc', it] = True

    def store_tree(self, sim, st, i, t, v):
        if self.bits(st, v, CACHEMOD) is True:
            st.facts['cachemod',] = True
        elif v[0] == 'op' and v[1] == 'and' and v[3][0] == 'c' and not v[3][1] & CACHEMOD:
            self.c.r.count('cachemod_clears')
            if self.f.name in DISCARDS:
                return
            h = [k for k in st.facts if k[0] == 'hclosed']
            if not h or not all(st.value(k[1]) == 0 for k in h):
                self.bad(i, st, 'header-forgotten', '%s: TREE_CACHEMOD' % self.name(),
                         'the header is marked as written, though the path has not written it and closed it without an error')

    # --------------------------------------------------------------- masks
    def store_mask(self, sim, st, i, x, fld, v):
        if self.fresh(st, x):
            return
        c = self.c
        m = self.get(st, x, 'MASK_INFO', 'modified')
        clean = m is not None and st.value(m) == 0 or ('mwrote', x) in st.facts
        if fld == 'length' and ('mstale', x) in st.facts:
            old = self.get(st, x, 'MASK_INFO', 'length')
            if old is None or st.value(v) is not None or not uses(v, old):
                del st.facts['mstale', x]
        if fld == 'modified':
            c.r.count('state_stores')
            if st.value(v) == 0 and not clean:
                self.bad(i, st, 'marked-clean', '%s: modified' % self.name(), 'the flags buffer is marked clean, though this path has not written it')
            if st.value(v) not in (0, None):
                st.facts.pop(('mwrote', x), None)
        elif fld == 'offset':
            c.r.count('discards')
            if v != self.get(st, x, 'MASK_INFO', 'offset'):
                st.facts['mstale', x] = True
            if not clean:
                self.bad(i, st, 'discard', '%s: mask offset' % self.name(), 'the flags buffer is moved while it may hold unwritten flags')

    # --------------------------------------------------------------- calls
    def in_buf(self, st, p):
        """the descriptor whose buffer an address lies in"""
        while p[0] in ('el', 'gep'):
            p = p[1]
        xs = iob_of(st, p, 'buf')
        return xs[0] if len(xs) == 1 else None

    def dirtied(self, st, i, x, where):
        pass

    def err(self, st, i, loc):
        t = ('err', i.res or '%s.%d' % (i.block, i.idx))
        old = [k for k in st.facts if k == t]
        for k in old:       # a new outcome of the same call
            del st.facts[k]
        st.con.pop(t, None)
        st.facts[t] = True
        if loc is not None and loc[0] not in ('c', '?'):
            st.mem[loc] = t
        return t

    def call(self, sim, st, i, args):
        c = i.callee()
        if self.n.stops(i, [st.value(a) for a in args]):
            return []
        if c is None:
            return None
        r = self.c.r
        if c in ('malloc', '_Znwm', 'realloc', 'calloc'):
            if i.res:
                t = ('v', i.res)
                sim.fresh(st, t)
                st.facts['fresh', t] = True
                return [(st, t, 'ret')]
            return None
        if c == 'free':
            self.freed(sim, st, i, args[0])
            return [(st, None, 'ret')]
        if c in ('memcpy', 'memmove'):
            return [(st, None, 'ret')]
        if c in ('dwrite_c', 'dread_c'):
            return self.transfer(sim, st, i, c, args)
        if c in ('dopen_c', 'dclose_c'):
            if c == 'dopen_c' and args[3][0] == 'fa' and args[3][3] == 'size':
                z = st.mem.get(args[3])
                st.facts.pop(('trunc', args[3][1]), None)
                if z is not None and st.rng(z)[1] <= 0:
                    st.facts['hassize0', args[3][1]] = True
            moved = c == 'dopen_c' and args[0][0] == 'fa' and args[0][2:] == ('%struct.item', 'fd') and self.c.text(args[2]) == 'write'
            sim.havoc(st, i, args)
            t = self.err(st, i, args[-1])
            if moved:
                st.facts['newfile', args[0][1]] = True
            return [(st, None, 'ret')]
        if c == 'hcreate_item_c':
            sim.havoc(st, i, args)
            t = ('v', i.res)
            sim.fresh(st, t)
            st.facts['fresh', t] = True
            return [(st, t, 'ret')]
        if c == 'hrelease_item_c':
            self.released(sim, st, i, args[0])
            sim.havoc(st, i, args)
            return [(st, None, 'ret')]
        if c == 'hio_c':
            return self.hio(sim, st, i, args)
        if c in ('hflush_c', 'hdaccess_c', 'haccess_c', 'hdelete_c', 'hcheckbuf_c', 'hwrite_fill_c', 'hmode_c'):
            before = dict(st.mem)
            sim.havoc(st, i, args)
            loc = args[-1] if c != 'hmode_c' else None
            t = self.err(st, i, loc) if c != 'hmode_c' else None
            self.called(sim, st, i, c, args, t, before)
            return [(st, None, 'ret')]
        if c in ('mkflush_c', 'mkclose_c'):
            before = dict(st.mem)
            sim.havoc(st, i, args)
            if c == 'mkflush_c':
                st.facts['mwrote', args[0]] = True
                st.mem[fa(args[0], 'MASK_INFO', 'modified')] = C(0)
            self.called(sim, st, i, c, args, None, before)
            return [(st, None, 'ret')]
        return self.other(sim, st, i, c, args)

    def other(self, sim, st, i, c, args):
        return None

    def called(self, sim, st, i, c, args, t, before):
        if c == 'hdaccess_c':
            if ('hdrhandle', args[0]) in st.facts:
                st.facts['hclosed', t] = True
        elif c == 'haccess_c':
            h = ('v', '%s.%d' % (i.block, i.idx))
            sim.fresh(st, h)
            if args[1][0] == 'addr':
                st.mem[args[1]] = h
            if self.c.text(args[2]) == 'header':
                st.facts['hdrhandle', h] = True
        elif c == 'hflush_c':
            st.facts['flushed', t] = True

    def transfer(self, sim, st, i, c, args):
        r = self.c.r
        xs = iob_of(st, args[1], 'buf')
        r.count('transfers')
        if len(xs) == 1:
            x = xs[0]
            it = item_of(x) or self.c.owner(self.f, st, x)
            what = '%s: %s' % (self.name(), c)
            if args[2] != self.get(st, x, 'IOB', 'offset'):
                self.bad(i, st, 'wrong-place', what + ' offset', 'the buffer is %s at an offset that is not the buffer\'s' % ('written' if c == 'dwrite_c' else 'filled'))
            if args[3] != self.get(st, x, 'IOB', 'length'):
                self.bad(i, st, 'wrong-place', what + ' length', 'the length %s is not the buffer\'s' % ('written' if c == 'dwrite_c' else 'read'))
            if it is not None and args[0] != self.get(st, it, 'item', 'fd'):
                self.bad(i, st, 'wrong-place', what + ' fd', 'the file is not the one of the item the buffer belongs to')
            if c == 'dwrite_c':
                st.facts['wrote', x] = True
            else:
                if not self.saved(st, x):
                    self.bad(i, st, 'discard', what, 'data is read into a buffer that may hold unwritten data')
                st.facts['filled', x] = True
        elif len(xs) == 0 and c == 'dwrite_c':
            # a buffer of the caller's
            self.c.r.count('plain_writes')
        loc = args[4]
        if loc[0] == 'addr':
            pass
        self.err(st, i, loc)
        return [(st, None, 'ret')]

    def hio(self, sim, st, i, args):
        # item, dowrite, type, buf, offset, length, iostat
        w = st.value(args[1])
        mem = dict(st.mem)
        facts = {}
        m = member(args[3])
        if m is not None and m[2:] == ('%struct.MASK_INFO', 'buf'):
            x = m[1]
            if args[0] == self.get(st, x, 'MASK_INFO', 'item'):
                if w == 1 and args[3] in (m, ('el', m, 0)):
                    facts['mwrote', x] = (args[4], args[5])
            self.mask_io(sim, st, i, x, m, w, args)
        xs = iob_of(st, args[3], 'buf')
        if len(xs) == 1 and w == 1:
            it = item_of(xs[0])
            size = self.get(st, it, 'item', 'size') if it is not None else None
            if size is not None and args[5] == size:
                facts['hdr', xs[0]] = True
        self.header_io(sim, st, i, args, w)
        sim.havoc(st, i, args)
        st.facts.update(facts)
        self.err(st, i, args[6])
        return [(st, None, 'ret')]

    def header_io(self, sim, st, i, args, w):
        pass

    def mask_io(self, sim, st, i, x, m, w, args):
        pass

    def freed(self, sim, st, i, p):
        xs = iob_of(st, p, 'buf')
        for x in xs:
            self.c.r.count('discards')
            if self.f.name == 'hrelease_item_c':
                return
            if not (self.empty(st, x) or any(k[0] == 'copied' and k[1] == x for k in st.facts) or self.saved_buf(st, x)):
                self.bad(i, st, 'discard', '%s: free' % self.name(), 'a buffer is freed while it may hold data that has not been copied')
        if any(l[0] == 'fa' and l[1] == p and l[2] == '%struct.MASK_INFO' for l in st.mem) and not self.fresh(st, p):
            self.c.r.count('discards')
            m = self.get(st, p, 'MASK_INFO', 'modified')
            if not (m is not None and st.value(m) == 0 or ('mwrote', p) in st.facts):
                self.bad(i, st, 'discard', '%s: free(mask)' % self.name(), 'the flags buffer is freed while it may hold unwritten flags')

    def released(self, sim, st, i, it):
        self.c.r.count('releases')
        if self.fresh(st, it) or self.failed(st) or self.f.name in DISCARDS:
            return
        fd = self.get(st, it, 'item', 'fd')
        flags = self.get(st, it, 'item', 'flags')
        fl = [k[1] for k in st.facts if k[0] == 'flushed']
        if fl and all(st.value(t) == 0 for t in fl):
            return
        if self.f.name == 'hclose_c':
            self.bad(i, st, 'discard', '%s: release' % self.name(), 'an item is released on a path that has not flushed the data-set')
            return
        if fd is not None and st.value(fd) == 0:
            if self.bits(st, flags, NOCACHE) is not True:
                self.bad(i, st, 'discard', '%s: release' % self.name(), 'an item that lives in the header is released before the header is written')
            return
        if self.bits(st, flags, SCRATCH):
            return
        for k in range(self.c.nbuf):
            x = ('el', fa(it, 'item', 'io'), k)
            if not self.saved(st, x) and not self.c.absent(st, x):
                self.bad(i, st, 'discard', '%s: release io[%d]' % (self.name(), k), 'an item is released while buffer %d may hold unwritten data' % k)

    def special(self, sim, st, i):
        c = i.callee() or ''
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            pass
        return None

    def ret(self, sim, st, i, val):
        for k in [k for k in st.facts if k[0] == 'newfile']:
            self.c.r.count('new_files')
            x = ('el', fa(k[1], 'item', 'io'), 0)
            s, l = self.get(st, x, 'IOB', 'state'), self.get(st, x, 'IOB', 'length')
            if self.failed(st) or s is not None and st.value(s) == MODIFIED or l is not None and st.rng(l)[1] <= 0:
                continue
            self.bad(i, st, 'content-forgotten', '%s: new file' % self.name(),
                     'an item gets an empty file of its own while what it held so far is only in its buffer, which is not marked as modified')

    def back(self, sim, st, i, header):
        pass

    def enter(self, sim, st, before, header):
        """one arbitrary turn of a loop starts: what the loop does not touch is still so"""
        body = sim.loop_body(header)
        out = set()
        for b in body:
            for i in self.f.blocks[b].insts:
                if i.op == 'store':
                    out.add(i.ops[1])
                elif i.op in ('call', 'invoke'):
                    out |= set(i.x['args'])
        for l, v in before.mem.items():
            if l[0] == 'addr' and ('reg', l[1]) not in out and v[0] in ('v', 'c', 'arg'):
                st.mem[l] = v
        for k in before.facts:
            if k[0] in ('hdrhandle', 'flushed'):
                st.facts[k] = before.facts[k]
                if k[1] in before.con:
                    st.con[k[1]] = before.con[k[1]]

    def live_facts(self, st):
        return st.facts


class MemSim(FSim):
    """sees memory copies as well, and gives computed positions and lengths a name of their own once they are stored"""

    def inst(self, i, st, work):
        out = FSim.inst(self, i, st, work)
        if i.op == 'store' and self.cut and self.fields.stored(self.fn, i.ops[1]) in NAMED or i.op == 'store' and self.cut and i.ops[1][1] in self.points:
            for s in out:
                for l, v in list(s.mem.items()):
                    if l[0] == 'fa' and l[2:] in NAMED and depth(v) > 3:
                        t = ('n', '%s.%d' % (i.block, i.idx))
                        self.fresh(s, t)
                        if self.h.rounded(v, s.env.get(self.h.roff, ('r', self.h.roff))):
                            s.facts['rounded', t] = True
                        s.mem[l] = t
                        lo, hi, ne = s.rng(v)
                        # what was known about the value is known under its name
                        for q, c in list(s.con.items()):
                            if q == v:
                                s.con[t] = c
                            elif q[0] == 'icmp' and v in q[2:]:
                                s.con[q[:2] + tuple(t if x == v else x for x in q[2:])] = c
        return out

    def call(self, i, st, work):
        c = i.callee() or ''
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove'):
            a = [self.term(st, x) for x in i.x['args']]
            self.h.copy(self, st, i, a[0], a[1], a[2])
        return FSim.call(self, i, st, work)


def copy(self, sim, st, i, dst, src, n):
    xs = iob_of(st, src, 'buf')
    for x in xs:
        l = self.get(st, x, 'IOB', 'length')
        if n == l:
            st.facts['copied', x, dst] = True


Events.copy = copy


class Walk(Events):
    """walks over the items of a data-set: what holds for each item when a walk leaves it, and how each walk ends"""

    def __init__(self, chk, f, obligations):
        Events.__init__(self, chk, f)
        self.obl = obligations
        self.res = {}           # fwd load -> {obligation: None | trail}
        self.early = {}

    def back(self, sim, st, i, header):
        # a turn of a walk ends: the item of the next turn is the one behind the item of this turn
        for r, (now, then) in sim.phis(st, i, header).items():
            if header in sim.cut and ('fwd', then, now) in st.facts and not self.failed(st):
                self.leave(sim, st, i, header, now)

    def leave(self, sim, st, i, header, item):
        d = self.res.setdefault(header, (i, {}))[1]
        for name, fn in self.obl.items():
            if fn(self, st, item):
                d.setdefault(name, None)
            else:
                d[name] = self.c.trail(st)
        for k in [k for k in st.facts if k[0] in ('hdr', 'entry', 'closed', 'wrote') and k[1:] and self.of(k[1], item)]:
            del st.facts[k]

    def of(self, x, item):
        return x == item or item_of(x) == item


def io(item, k):
    return ('el', fa(item, 'item', 'io'), k)


def lives_in_header(h, st, item):
    """True: in the header, False: not, None: not known"""
    fd = h.get(st, item, 'item', 'fd')
    fl = h.get(st, item, 'item', 'flags')
    if fd is None or st.truth(fd) is None:
        z = None
    else:
        z = not st.truth(fd)
    nc = h.bits(st, fl, NOCACHE)
    if z is False or nc is True:
        return False
    return True if z and nc is False else None


def file_written(h, st, item):
    """an item with a file of its own has no unwritten buffer (scratch items excepted)"""
    fd = h.get(st, item, 'item', 'fd')
    if fd is not None and st.value(fd) == 0 or h.bits(st, h.get(st, item, 'item', 'flags'), SCRATCH):
        return True
    return all(h.saved(st, io(item, k)) or h.c.absent(st, io(item, k)) for k in range(h.c.nbuf))


def header_marked(h, st, item):
    if lives_in_header(h, st, item) is False or ('cachemod',) in st.facts:
        return True
    s = h.get(st, io(item, 0), 'IOB', 'state')
    return s is not None and s[0] != 'c' and h.unmodified(st, io(item, 0))      # found so, not made so


def header_written(h, st, item):
    if lives_in_header(h, st, item) is False:
        return True
    size = h.get(st, item, 'item', 'size')
    return ('entry', item) in st.facts and (('hdr', io(item, 0)) in st.facts or size is not None and st.rng(size)[1] <= 0
                                            or ('hdrsaved', item) in st.facts)


def item_closed(h, st, item):
    return ('closed', item) in st.facts or h.bits(st, h.get(st, item, 'item', 'flags'), ACCESS) is False


class FlushWalk(Walk):
    def header_io(self, sim, st, i, args, w):
        if w != 1 or ('hdrhandle', args[0]) not in st.facts:
            return
        # which item's name is in the entry, which item's bytes follow
        m = base(args[3])
        named = [k[1] for k in st.facts if k[0] == 'named' and k[2] == m]
        for it in named:
            st.facts['entry', it] = True

    def other(self, sim, st, i, c, args):
        if c in ('strcpy', '__strcpy_chk', 'strncpy', 'memcpy'):
            items = [l[1] for l, t in st.mem.items() if t == args[1] and l[0] == 'fa' and l[2:] == ('%struct.item', 'name')]
            if len(items) == 1:
                for k in [k for k in st.facts if k[0] == 'named' and k[2] == base(args[0])]:
                    del st.facts[k]
                st.facts['named', items[0], base(args[0])] = True
            return [(st, None, 'ret')]
        return None

    def store_iob(self, sim, st, i, x, fld, v):
        it = item_of(x)
        if fld == 'state' and ('hdr', x) in st.facts and it is not None:
            st.facts['hdrsaved', it] = True
        Walk.store_iob(self, sim, st, i, x, fld, v)


class CloseWalk(Walk):
    def called(self, sim, st, i, c, args, t, before):
        Walk.called(self, sim, st, i, c, args, t, before)
        if c == 'hdaccess_c':
            for l, v in before.items():
                if v == args[0] and l[0] == 'fa' and l[2:] == ('%struct.item', 'handle'):
                    st.facts['closed', l[1]] = True
        if c == 'hflush_c':
            bad = [k for k in st.facts if k[0] == 'flushed' and k[1] != t]
            for k in bad:
                del st.facts[k]


class Copying(Events):
    """hio_c for one direction and one type of element"""

    def __init__(self, chk, f, dw, ty):
        Events.__init__(self, chk, f, '(%s, type %d)' % ('write' if dw else 'read', ty))
        self.dw, self.ty = dw, ty
        self.pos = None

    def split(self, st, p):
        """(descriptor, index) of an address in a buffer"""
        k = C(0)
        if p[0] == 'el':
            k = p[2] if not isinstance(p[2], int) else C(p[2])
            p = p[1]
        xs = iob_of(st, p, 'buf')
        return (xs[0], k) if len(xs) == 1 else (None, None)

    def off_ok(self, st, x, k):
        o = self.get(st, x, 'IOB', 'offset')
        if k[0] == 'op' and k[1] == 'sub' and k[3] == o:
            return k[2]
        return None

    def moved(self, sim, st, i, x, k, n):
        c = self.c
        c.r.count('copies')
        l = self.get(st, x, 'IOB', 'length')
        pos = self.off_ok(st, x, k)
        if pos is None and self.dw and l is not None and (k == l or st.cmp('eq', k, l) is True):
            st.facts['gapfilled', x] = True     # bytes of the file put behind what the buffer holds
            return
        if pos is None:
            c.r.unsure('%s addresses the buffer in a way the analysis does not model (%s)' % (self.name(), c.m.where(i)))
            return
        if self.dw:
            st.facts['dirty', x, k, n] = True
        else:
            o, l = self.get(st, x, 'IOB', 'offset'), self.get(st, x, 'IOB', 'length')
            if ('filled', x) not in st.facts:
                inside = l is not None and (st.le(o, pos) and (st.le(pos, ('op', 'add', o, l), True) or st.le(pos, ('op', 'add', l, o), True)))
                if not inside:
                    self.bad(i, st, 'stale-read', '%s: hit' % self.name(), 'data is taken from the buffer on a path that has neither filled it nor found the position inside it')
            elif not (self.rounded(o, pos) or ('rounded', o) in st.facts and pos == st.env.get(self.roff, ('r', self.roff))):
                c.r.unsure('%s fills the buffer from a position the analysis does not relate to the one asked for' % self.name())
            if self.opaque(n) or l is not None and self.opaque(l):
                pass
            elif l is None or not self.within(st, n, l, k):
                self.bad(i, st, 'stale-read', '%s: beyond' % self.name(), 'more is taken from the buffer than it holds')
        st.facts['moved', n] = True

    def rounded(self, o, pos):
        """o is pos rounded down"""
        if o is None:
            return False
        if o == pos:
            return True
        if o[0] == 'op' and o[1] == 'mul' and o[3][0] == 'c' and o[2][0] == 'op' and o[2][1] in ('sdiv', 'udiv') and o[2][3] == o[3]:
            return o[2][2] == pos
        if o[0] == 'op' and o[1] in ('and',) and o[3][0] == 'c' and o[3][1] < 0:
            return o[2] == pos
        if o[0] == 'op' and o[1] == 'sub' and o[2] == pos and o[3][0] == 'op' and o[3][1] in ('srem', 'urem', 'and') and o[3][2] == pos:
            return True
        return False

    def opaque(self, t):
        """a value that stands for the outcomes of several paths"""
        return t[0] in ('j', 'v') or t[0] == 'op' and any(self.opaque(x) for x in t[2:] if isinstance(x, tuple))

    def within(self, st, n, l, k):
        """n bytes from index k end inside l"""
        room = ('op', 'sub', l, k)
        return n == room or st.le(n, room)

    def copy(self, sim, st, i, dst, src, n):
        Events.copy(self, sim, st, i, dst, src, n)
        x, k = self.split(st, dst if self.dw else src)
        if x is not None:
            self.moved(sim, st, i, x, k, n)

    def other(self, sim, st, i, c, args):
        if c in ('bugv_c', 'bug_c', 'bugno_c'):
            return []
        f = self.c.m.functions.get(c)
        ptrs = [k for k, a in enumerate(args) if f is not None and f.params[k][0] == 'ptr']
        if len(ptrs) == 2 and len(args) == 3:
            for k in ptrs:
                x, off = self.split(st, args[k])
                if x is not None:
                    n = args[[j for j in range(3) if j not in ptrs][0]]
                    self.moved(sim, st, i, x, off, self.bytes_of(n))
            return [(st, None, 'ret')]
        return None

    def bytes_of(self, n):
        """the byte count behind an element count"""
        for _ in range(4):
            if n[0] == 'op' and n[1] in ('sdiv', 'udiv', 'mul', 'lshr', 'ashr', 'shl') and n[3][0] == 'c':
                n = n[2]
            else:
                break
        return n

    def called(self, sim, st, i, c, args, t, before):
        Events.called(self, sim, st, i, c, args, t, before)
        if c == 'hwrite_fill_c':
            st.facts['gapfilled', args[1]] = True

    def store_iob(self, sim, st, i, x, fld, v):
        if self.dw and fld == 'length' and st.value(v) != 0:
            o, l, it = self.get(st, x, 'IOB', 'offset'), self.get(st, x, 'IOB', 'length'), item_of(x)
            size = self.get(st, it, 'item', 'size') if it is not None else None
            end = ('op', 'add', o, l) if o is not None and l is not None else None
            if l is not None and st.value(l) == 0:
                end = o
            if v != l:
                st.facts['grown', x] = True
            pos = [('op', 'add', o, l), ('op', 'add', l, o), o if l is not None and st.value(l) == 0 else None]
            ok = ('gapfilled', x) in st.facts or v == l
            for e in pos:
                if e is not None and (st.le(st.env.get(self.roff, ('r', self.roff)), e) or size is not None and st.le(size, e)):
                    ok = True
            if not ok:
                self.bad(i, st, 'gap', '%s: gap' % self.name(), 'the buffer is extended over bytes of the file it has not read')
        if fld == 'length' or fld == 'offset' or fld == 'buf':
            st.facts.pop(('filled', x), None)
        if fld == 'length' and st.value(v) == 0:
            st.facts.pop(('stale', x), None)
        if fld == 'offset':
            if v != self.get(st, x, 'IOB', 'offset') and not self.empty(st, x):
                st.facts['stale', x] = True
            st.facts.pop(('gapfilled', x), None)
            if self.dw and not self.rounded(v, st.env.get(self.roff, ('r', self.roff))):
                self.c.r.unsure('%s moves the buffer to a position the analysis does not relate to the one asked for' % self.name())
        Events.store_iob(self, sim, st, i, x, fld, v)

    def check_dirty(self, sim, st, i):
        for key in [k for k in st.facts if k[0] == 'dirty']:
            x, k, n = key[1:]
            del st.facts[key]
            if ('gapfilled', x) in st.facts:
                continue        # the bytes in between were read first: the lengths there are the reader's
            s, l, o = self.get(st, x, 'IOB', 'state'), self.get(st, x, 'IOB', 'length'), self.get(st, x, 'IOB', 'offset')
            it = item_of(x)
            size = self.get(st, it, 'item', 'size') if it is not None else None
            if ('stale', x) in st.facts:
                self.bad(i, st, 'gap', '%s: stale' % self.name(), 'data was put into a buffer that still counts what it held of another part of the file')
            if s is None or st.value(s) != MODIFIED:
                self.bad(i, st, 'not-marked', '%s: state' % self.name(), 'data was put into a buffer that is not marked as modified: it need never reach the file')
            if l is None or not self.within(st, n, l, k):
                self.bad(i, st, 'not-marked', '%s: length' % self.name(), 'data was put into a buffer beyond the length that will be written')
            e = ('op', 'add', o, l)
            if size is None or l is None or o is None or not (size in (e, ('op', 'add', l, o)) or st.le(e, size) or st.le(('op', 'add', l, o), size)):
                self.bad(i, st, 'not-marked', '%s: size' % self.name(), 'data was put at the end of the item without the size of the item growing')

    def back(self, sim, st, i, header):
        nxt = sim.phis(st, i, header)
        if header == self.header:
            self.check_dirty(sim, st, i)
            ns = {k[1] for k in st.facts if k[0] == 'moved'}
            if len(ns) == 1 and self.ty != 6:
                n = ns.pop()
                self.c.r.count('advances')
                for r, (now, then) in nxt.items():
                    if r == self.roff and then not in (('op', 'add', now, n), ('op', 'add', n, now)):
                        self.bad(i, st, 'advance', '%s: offset' % self.name(), 'the position does not advance by what was copied')
                    if r == self.rlen and then != ('op', 'sub', now, n):
                        self.bad(i, st, 'advance', '%s: length' % self.name(), 'the amount left does not shrink by what was copied')
                    if r == self.rbuf and (then[0] != 'el' or then[1] != now or not uses(then[2], n) or self.ty == 3 and then[2] == n):
                        self.bad(i, st, 'advance', '%s: buffer' % self.name(), 'the caller\'s buffer does not advance by what was copied')
            elif not ns and not any(k[0] == 'gapfilled' for k in st.facts):
                self.bad(i, st, 'advance', '%s: nothing' % self.name(), 'a turn of the loop copies nothing')
            for k in [k for k in st.facts if k[0] in ('moved', 'filled', 'gapfilled', 'grown', 'stale', 'err')]:
                del st.facts[k]

    def ret(self, sim, st, i, val):
        if not self.failed(st):
            self.check_dirty(sim, st, i)


def uses(t, n):
    if t == n:
        return True
    return isinstance(t, tuple) and any(uses(x, n) for x in t[1:] if isinstance(x, tuple))


HANDLES = ('corr_flags', 'wcorr_flags')
NEWAPP = 0x30       # UVF_NEW | UVF_APPEND


class UvFlush(Events):
    """uvflush_c: both flag files, the table of variables and the header reach the library before it says it is done"""

    def fl(self, uv, which):
        return fa(fa(uv, 'UV', which), 'FLAGS', 'handle')

    def call(self, sim, st, i, args):
        # what was known before the call
        for uv in self.uvs(st):
            if self.bits(st, st.mem.get(fa(uv, 'UV', 'flags')), NEWAPP) is False:
                st.facts['ro',] = True
            for w in HANDLES:
                h = st.mem.get(self.fl(uv, w))
                if h is not None and st.value(h) == 0:
                    st.facts['nohandle', self.fl(uv, w)] = True
        return Events.call(self, sim, st, i, args)

    def uvs(self, st):
        return {l[1][1] for l in st.mem if l[0] == 'fa' and l[2] == '%struct.FLAGS' and l[1][0] == 'fa' and l[1][2] == '%struct.UV'} \
            | {l[1] for l in st.mem if l[0] == 'fa' and l[2] == '%struct.UV'}

    def load(self, sim, st, i, loc):
        if loc[0] == 'fa' and loc[2:] == ('%struct.FLAGS', 'handle'):
            for k in [k for k in st.facts if k[0] == 'mk']:
                if k[1] == loc:
                    return None
        return Events.load(self, sim, st, i, loc)

    def other(self, sim, st, i, c, args):
        if c in ('uv_vartable_out',):
            st.facts['vartable',] = True
        return None

    def called(self, sim, st, i, c, args, t, before):
        Events.called(self, sim, st, i, c, args, t, before)
        if c in ('mkflush_c', 'mkclose_c'):
            for l, v in before.items():
                if v == args[0] and l[0] == 'fa' and l[2:] == ('%struct.FLAGS', 'handle'):
                    st.facts['mk', l] = True
        if c == 'hflush_c':
            self.at_end(sim, st, i)

    def handled(self, st, uv, which):
        l = self.fl(uv, which)
        h = st.mem.get(l)
        return ('mk', l) in st.facts or h is not None and st.value(h) == 0 or ('nohandle', l) in st.facts

    def store(self, sim, st, i, loc, v):
        if loc[0] == 'fa' and loc[2:] == ('%struct.FLAGS', 'handle') and st.value(v) == 0:
            self.c.r.count('flag_files')
            h = st.mem.get(loc)
            if not {('mk', loc), ('nohandle', loc)} & set(st.facts) and not (h is not None and st.value(h) == 0):
                self.bad(i, st, 'flags-lost', '%s: %s' % (self.name(), loc[1][3] if loc[1][0] == 'fa' else 'flags'),
                         'the handle of a flag file is dropped on a path that has not closed it')
            else:
                st.facts['nohandle', loc] = True
        if loc[0] == 'fa' and loc[2:] == ('%struct.UV', 'saved_nvar') and ('vartable',) not in st.facts and v != st.mem.get(loc):
            self.table(st, i, loc[1])
            st.facts['noted',] = True
        Events.store(self, sim, st, i, loc, v)

    def table(self, st, i, uv):
        a, b = st.mem.get(fa(uv, 'UV', 'saved_nvar')), st.mem.get(fa(uv, 'UV', 'nvar'))
        if not (a is not None and b is not None and st.le(b, a)):
            self.bad(i, st, 'variables-lost', '%s: vartable' % self.name(), 'the data-set is flushed without the table of its variables on a path that has not found it up to date')

    def at_end(self, sim, st, i):
        self.c.r.count('uv_ends')
        us = self.uvs(st)
        if len(us) != 1:
            self.c.r.unsure('%s: the data-set structure is reached in more than one way' % self.name())
            return
        uv = us.pop()
        for w in HANDLES:
            if not self.handled(st, uv, w):
                self.bad(i, st, 'flags-lost', '%s: %s' % (self.name(), w), 'the data-set is flushed on a path that has not handed the buffered flags on')
        if not {('vartable',), ('noted',)} & set(st.facts):
            self.table(st, i, uv)

    def store_uv(self, st, loc):
        pass

    def ret(self, sim, st, i, val):
        self.c.r.count('uv_ends')
        if any(k[0] == 'flushed' for k in st.facts):
            return
        us = self.uvs(st)
        if ('ro',) in st.facts:
            return
        for uv in us:
            if self.bits(st, st.mem.get(fa(uv, 'UV', 'flags')), NEWAPP) is False:
                return
        self.bad(i, st, 'not-flushed', '%s' % self.name(), 'returns for a data-set that may be written to without having flushed it')


class UvClose(UvFlush):
    """uvclose_c: flags, variables and visibilities are handed on before the data-set is closed"""

    def ret(self, sim, st, i, val):
        pass

    def called(self, sim, st, i, c, args, t, before):
        Events.called(self, sim, st, i, c, args, t, before)
        if c in ('mkflush_c', 'mkclose_c'):
            for l, v in before.items():
                if v == args[0] and l[0] == 'fa' and l[2:] == ('%struct.FLAGS', 'handle'):
                    st.facts['mk', l] = True
        if c == 'hdaccess_c':
            for l, v in before.items():
                if v == args[0] and l[0] == 'fa' and l[2:] == ('%struct.UV', 'item'):
                    st.facts['vis',] = True

    def other(self, sim, st, i, c, args):
        if c == 'uvflush_c':
            st.facts['uvflush',] = True
            sim.havoc(st, i, args)
            return [(st, None, 'ret')]
        if c == 'hclose_c':
            self.c.r.count('uv_ends')
            us = self.uvs(st)
            done = {k[1] for k in st.facts if k[0] in ('mk', 'nohandle')}
            for w in HANDLES:
                if not any(self.handled(st, uv, w) for uv in us) and not any(l[1][0] == 'fa' and l[1][3] == w for l in done):
                    self.bad(i, st, 'flags-lost', '%s: %s' % (self.name(), w), 'the data-set is closed on a path that has not closed the flag file')
            if ('uvflush',) not in st.facts and ('ro',) not in st.facts:
                self.bad(i, st, 'not-flushed', '%s: uvflush' % self.name(), 'a data-set that may have been written to is closed without being flushed')
            if ('vis',) not in st.facts:
                self.bad(i, st, 'not-flushed', '%s: visdata' % self.name(), 'the data-set is closed before its visibility stream is')
        if c == 'hdaccess_c' or c == 'uv_freeuv' or c == 'hclose_c':
            pass
        return None


class FlagPlace(Events):
    """every record's flags go where the next record's flags do not: the place moves on by as many as were written"""

    def called(self, sim, st, i, c, args, t, before):
        Events.called(self, sim, st, i, c, args, t, before)

    def other(self, sim, st, i, c, args):
        if c == 'mkwrite_c':
            h = [l[1] for l, v in st.mem.items() if v == args[0] and l[0] == 'fa' and l[2:] == ('%struct.FLAGS', 'handle')]
            if len(h) == 1:
                self.c.r.count('flag_writes')
                off = st.mem.get(fa(h[0], 'FLAGS', 'offset'))
                if off is not None and off == args[3]:
                    st.facts['placed', h[0], off, args[4]] = True
                elif not (args[3][0] == 'op' and args[3][1] in ('sub', 'add')):
                    self.c.r.unsure('%s writes flags at a place the analysis does not relate to the data-set\'s' % self.name())
            keep = {l: v for l, v in st.mem.items() if member(l) and member(l)[2] != '%struct.MASK_INFO'}
            sim.havoc(st, i, args)
            return [(st, None, 'ret')]
        return None

    def store(self, sim, st, i, loc, v):
        if loc[0] == 'fa' and loc[2:] == ('%struct.FLAGS', 'offset'):
            for k in [k for k in st.facts if k[0] == 'placed' and k[1] == loc[1]]:
                del st.facts[k]
                if v not in (('op', 'add', k[2], k[3]), ('op', 'add', k[3], k[2])):
                    self.bad(i, st, 'flags-overwritten', '%s: offset' % self.name(), 'the place for the next flags does not move on by the number of flags written')
        Events.store(self, sim, st, i, loc, v)

    def ret(self, sim, st, i, val):
        for k in [k for k in st.facts if k[0] == 'placed']:
            self.bad(i, st, 'flags-overwritten', '%s: offset kept' % self.name(), 'flags are written but the next record\'s flags would go to the same place')


class MaskWrite(Events):
    """flags put into the buffer are marked as unwritten"""

    def hio(self, sim, st, i, args):
        m = member(args[3])
        out = Events.hio(self, sim, st, i, args)
        if m is not None and m[2:] == ('%struct.MASK_INFO', 'buf'):
            for s in out:
                s[0].facts['mread', m[1]] = True
        return out

    def other(self, sim, st, i, c, args):
        if c == 'mkfill':
            sim.havoc(st, i, args)
            return [(st, None, 'ret')]
        return Events.other(self, sim, st, i, c, args)

    def ret(self, sim, st, i, val):
        if self.failed(st):
            return
        for k in [k for k in st.facts if k[0] == 'mdirty']:
            x = k[1]
            self.c.r.count('flag_buffers')
            m = self.get(st, x, 'MASK_INFO', 'modified')
            if ('mread', x) in st.facts or ('mwrote', x) in st.facts or m is not None and st.truth(m) is True:
                continue
            self.bad(i, st, 'not-marked', '%s: modified' % self.name(), 'flags were put into the buffer, which is not marked as modified: they need never reach the file')


class Check:
    def __init__(self, r):
        self.r = r
        self.n = native.flat()
        self.m = self.n.m
        self.fields = Fields(self.m)
        self.seen = set()
        self.doms = {}
        for s, fs in (('IOB', ('offset', 'length', 'state', 'buf')), ('item', ('flags', 'fd', 'size', 'io', 'fwd')), ('tree', ('flags', 'itemlist')),
                      ('MASK_INFO', ('item', 'buf', 'modified', 'offset', 'length'))):
            have = self.fields.names.get('%struct.' + s)
            if have is None or not set(fs) <= set(have):
                raise AnalysisBroken('struct %s does not have the members the buffer rules speak of' % s)
        k = self.fields.names['%struct.item'].index('io')
        from sa.fieldsim import member_type
        mt = member_type(self.m.types['%struct.item'], k)
        g = re.match(r'\[\s*(\d+)\s*x', mt)
        self.nbuf = int(g.group(1)) if g else 1
        self.single = self.unused()

    def unused(self):
        """the buffers of an item no function ever gives memory to"""
        used = set()
        for f in self.m.functions.values():
            for i in f.insts():
                if i.op == 'store' and i.ops[0][0] != 'null' and self.fields.of(f, i.ops[1]) == ('%struct.IOB', 'buf'):
                    used.add(self.element(f, i.ops[1]))
        if None in used:
            return set()
        return set(range(self.nbuf)) - used

    def element(self, f, v):
        """which element of the array of buffers an address is in"""
        for _ in range(8):
            d = f.defs.get(v[1]) if v[0] == 'reg' else None
            if d is None or d.op != 'getelementptr':
                return None
            e = d.x.get('elem') or ''
            idx = d.ops[1:]
            if e.startswith('[') and 'IOB' in e:
                return idx[1][1] if len(idx) > 1 and idx[1][0] == 'int' else None
            if e == '%struct.item' and len(idx) > 2:
                return idx[2][1] if idx[2][0] == 'int' else None
            if e == '%struct.item':
                return 0        # the array itself: its first element
            if e == '%struct.IOB' and idx[0] != ('int', 0):
                return None
            v = d.ops[0]
        return None

    def owner(self, f, st, x):
        """the item a descriptor argument comes with"""
        if x[0] == 'arg':
            ps = [k for k, (t, rg) in enumerate(f.params) if t == 'ptr' and ('arg', k) != x]
            cand = [('arg', k) for k in ps if any(l[0] == 'fa' and l[1] == ('arg', k) and l[2] == '%struct.item' for l in st.mem)]
            if len(cand) == 1:
                return cand[0]
        return None

    def text(self, t):
        while t[0] == 'el':
            t = t[1]
        return self.m.string(('glob', t[1])) if t[0] == 'g' else None

    def absent(self, st, x):
        b = st.mem.get(fa(x, 'IOB', 'buf'))
        return b is not None and st.value(b) == 0

    def trail(self, st):
        out = []
        for i in st.trail[-12:]:
            out.append('%s: branch' % self.m.where(i))
        return out

    def sim(self, f, h, init=None, **kw):
        cut = kw.pop('cut', ())
        s = MemSim(f, h, self.fields, mod=self.m, **kw)
        s.cut = cut
        s.run(init or FState())
        self.r.count('states', s.states)
        return s

    def all(self):
        """the rules that hold in every function that touches the descriptors"""
        keys = {('%struct.IOB', x) for x in ('offset', 'length', 'state', 'buf')} | {('%struct.MASK_INFO', x) for x in ('offset', 'length', 'modified', 'buf')} \
            | {('%struct.tree', 'flags')}
        for f in self.m.functions.values():
            own = set()
            rel = False
            for i in f.insts():
                if i.op == 'store':
                    own.add(self.fields.stored(f, i.ops[1]))
                if i.op in ('call', 'invoke') and i.callee() in ('hrelease_item_c', 'dwrite_c', 'dread_c', 'mkflush_c'):
                    rel = True
            if own & keys or rel:
                if f.name in ('habort_c',):
                    continue
                self.r.count('functions')
                self.r.units.append(f.name)
                if f.name == 'hio_c':
                    continue
                if f.name == 'hflush_c':
                    self.walk(f, FlushWalk, {'written': file_written, 'header marked': header_marked, 'header written': header_written})
                elif f.name == 'hclose_c':
                    self.walk(f, CloseWalk, {'closed': item_closed})
                else:
                    mask = not any(k and k[0] != '%struct.MASK_INFO' for k in own)
                    self.sim(f, Events(self, f), split=10 if mask else 60)

    def dom(self, f):
        if f.name not in self.doms:
            self.doms[f.name] = FSim(f, Hooks(), self.fields, mod=self.m)
        return self.doms[f.name]

    def walk(self, f, cls, obl):
        h = cls(self, f, obl)
        heads = [b for b in f.order if any(i.op == 'phi' and i.ty == 'ptr' for i in f.blocks[b].insts)
                 and any(p for p, x in f.blocks.items() if b in x.succ and FSim.dominates(self.dom(f), b, p))]
        self.sim(f, h, split=400, cut=set(heads))
        text = {'written': 'no walk over the items leaves every item with a file of its own without unwritten buffers',
                'header marked': 'no walk over the items marks the header for rewriting whenever a small item was modified',
                'header written': 'no walk over the items writes the name and the bytes of every small item to the header',
                'closed': 'no walk over the items closes every item that is still open'}
        for o in obl:
            self.r.count('walks')
            got = [(i, d.get(o, ())) for i, d in h.res.values()]
            if not got:
                self.r.unsure('%s: no walk over the items of a data-set found' % f.name)
            elif not any(d is None for i, d in got):
                self.r.add('walk', '%s: %s' % (f.name, o), self.m.where(got[0][0]), text[o], [x for x in got[0][1]])

    def uv(self):
        m = self.m
        for n, cls in (('uvflush_c', UvFlush), ('uvclose_c', UvClose)):
            f = m.functions.get(n)
            if f is None:
                raise AnalysisBroken('%s is not there' % n)
            self.r.units.append(n)
            self.sim(f, cls(self, f))
        for f in m.functions.values():
            cs = {i.callee() for i in f.calls()}
            if 'mkwrite_c' in cs:
                self.r.units.append(f.name)
                self.sim(f, FlagPlace(self, f), split=20)
            if any(i.op == 'store' and (self.fields.stored(f, i.ops[1]) or ('',))[0] == '%struct.MASK_INFO' for i in f.insts()) and f.name != 'mkfill':
                self.sim(f, MaskWrite(self, f), split=10)

    def copying(self):
        f = self.m.functions.get('hio_c')
        if f is None or len(f.params) != 7:
            raise AnalysisBroken('hio_c is not there')
        self.r.units.append('hio_c')
        pnames = [rg for t, rg in f.params]
        # the loop that walks over what is asked for: the phis that start from the parameters
        start = {}
        for b in f.order:
            for p in f.blocks[b].insts:
                if p.op != 'phi':
                    break
                for v, src in p.x['inc']:
                    for k in (3, 4, 5):
                        if v == ('reg', pnames[k]):
                            start.setdefault(b, {})[k] = p.res
        heads = [b for b in start if set(start[b]) == {3, 4, 5}]
        if len(heads) != 1:
            self.r.unsure('hio_c: no loop over the bytes asked for')
            return
        self.hio = (f, pnames, heads[0], start[heads[0]])
        cases = [(dw, ty) for ty in TYPES for dw in (0, 1)]
        global WORK
        WORK = self
        with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=get_context('fork')) as ex:
            for r in ex.map(one_case, cases):
                for x in r.findings:
                    self.r.add(x.rule, x.construct, x.where, x.message, x.path)
                for x in r.undecided:
                    self.r.unsure(x)
                for n, k in r.counts.items():
                    self.r.count(n, k)

    def case(self, dw, ty):
        f, pnames, header, start = self.hio
        self.r = Result()
        h = Copying(self, f, dw, ty)
        h.header, h.rbuf, h.roff, h.rlen = header, start[3], start[4], start[5]
        st = FState()
        st.env[pnames[1]] = C(dw)
        st.env[pnames[2]] = C(ty)
        self.r.count('hio_cases')
        try:
            self.sim(f, h, st, split=6000, cut={header})
        except AnalysisBroken as e:
            if 'state limit' not in str(e):
                raise
            self.r.unsure('%s has more paths than the analysis follows' % h.name())
        return self.r


WORK = None


def one_case(case):
    return WORK.case(*case)


def run(tier):
    r = Result()
    r.rule('a buffer is marked clean, moved, emptied, replaced or freed only after its content was written, copied, or noted for the rewriting of the header')
    r.rule('a buffer is read and written at its own offset, with its own length, to the file of its item')
    r.rule('hflush_c and hclose_c leave no item behind: written to its file, or its name and bytes to the header, and closed')
    r.rule('hio_c, per direction and element type: every byte asked for is copied once, from bytes that were read, into bytes that will be written')
    r.rule('flags: marked when changed, written before the buffer moves, every record in its own place; all flushed before a data-set closes')
    c = Check(r)
    c.all()
    c.uv()
    c.copying()
    r.floor('functions', 12)
    r.floor('walks', 4)
    r.floor('state_stores', 100)
    r.floor('discards', 100)
    r.floor('hio_cases', 16)
    r.floor('copies', 1000)
    r.floor('uv_ends', 10)
    r.floor('flag_writes', 10)
    r.assumptions += ['members of the descriptors are reached through their own names only (checked constructs: getelementptr on the named structs)',
                      'distinct elements of an item\'s array of buffers are distinct; pointer arguments of one function do not overlap',
                      'a successful dwrite_c puts the bytes where it was told to (M03 decides its error handling)']
    r.sample('hio_c: one arbitrary turn of its loop per direction and type; hflush_c, hclose_c: one arbitrary turn of each walk over the items')
    return r
