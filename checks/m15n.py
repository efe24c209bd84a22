"""M15, native side: the preamble, visibilities and flags of a record keep their places; variables are copied from source to copy."""
from sa.capi import CHooks, Ext, parse_fmt, run as crun
from sa.ir import AnalysisBroken, base_name
from sa.native import native
from sa.pathsim import C, root
from sa.proto import PHooks, methods, tuple_items

REC = {'uvread_c', 'uvwrite_c'}


def element(var, off, sz):
    """index of an element reached by a constant offset or a multiple of the array's stride; None when not understood"""
    if off is None:
        return None
    k = 0
    if var is not None:
        t, u = var
        if t[0] == 'stride' and u == 1:
            k = 1
        elif t[0] == 'op' and t[1] in ('mul', 'shl') and t[2][0] == 'stride' and t[3][0] == 'c' and u == 1:
            k = t[3][1] if t[1] == 'mul' else 1 << t[3][1]
        else:
            return None
        return k if off == 0 else None
    return off // sz if off % sz == 0 else None


class RHooks(PHooks):
    def __init__(self, m, fn, unw):
        CHooks.__init__(self, m, fn, unw)
        self.ways, self.puts, self.seen = [], [], []
        self.bufs = set()
        for i in fn.calls():
            if i.callee() in REC:
                for v in i.x['args'][1:2]:
                    while v[0] == 'reg' and v[1] in fn.defs and fn.defs[v[1]].op in ('getelementptr', 'bitcast', 'freeze'):
                        v = fn.defs[v[1]].ops[0]
                    if v[0] == 'reg' and v[1] in fn.defs and fn.defs[v[1]].op == 'alloca':
                        self.bufs.add(v[1])

    def load(self, sim, st, i, loc):
        r = root(loc)
        if st.facts.get(('nread',)) == loc:
            return ('nread',)
        if r[0] == 'data' and i.ty in ('double', 'i64'):
            rr, off, var = self.where(i, loc, i.ops[0])
            return ('uvw', r[1], element(var, off, 8))
        return PHooks.load(self, sim, st, i, loc)

    def store(self, sim, st, i, loc, val):
        r, off, var = self.where(i, loc, i.ops[1])
        if r[0] == 'data':
            k = element(var, off, 8)
            st.facts[('put', r[1], k)] = val
        PHooks.store(self, sim, st, i, loc, val)

    def parse(self, sim, st, i, n, args):
        outs = CHooks.parse(self, sim, st, i, n, args)
        fmt = self.m.string(i.x['args'][1])
        k = 2
        for idx, (code, cnt, opt) in enumerate(parse_fmt(fmt or '')):
            dst = args[k + cnt - 1]
            k += cnt
            if code in ('d', 'f'):
                for s, t, how in outs:
                    if t == C(1):
                        s.mem[dst] = ('dbl', i.block, idx)
        return outs

    def extra(self, sim, st, i, n, args):
        if n not in REC:
            return PHooks.extra(self, sim, st, i, n, args)
        unw = None
        if i.op == 'invoke' and self.may_unwind(i):
            unw = st.copy()
            sim.havoc(unw, i, args)
        if n == 'uvwrite_c':
            self.seen.append((i, list(args), dict(self.cells(st, args[1])), st.copy()))
            sim.havoc(st, i, args)
        else:
            sim.havoc(st, i, args)
            for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == 'cell' and k[1] == root(args[1])]:
                del st.facts[k]
            st.facts[('filled', root(args[1]))] = ('record',)
            st.facts[('record',)] = (args[2], args[3], args[4])
            st.facts[('nread',)] = args[5]
            st.mem.pop(args[5], None)
        outs = [(st, None, 'ret')]
        if unw is not None:
            outs.append((unw, None, 'unwind'))
        return outs


def at(m, f):
    return m.where(next(i for i in f.insts() if m.line(i)[1]))


def is_slot(t, n):
    return isinstance(t, tuple) and t[0] in ('num', 'obj', 'dbl') and t[2] == n


def writer(r, E, f, unw):
    h = RHooks(E.m, f, unw)
    crun(h, E.m, split=60)
    if not h.seen:
        r.unsure('raw_write: no way to uvwrite_c is understood')
        return
    for i, args, cells, st in h.seen:
        fmt = st.facts.get(('fmt',), '')
        if [c for c, n, o in parse_fmt(fmt)] not in (['O!', 'd', 'i', 'i', 'O!', 'O!'], ['O', 'd', 'i', 'i', 'O', 'O']) or '(ii)' not in fmt.replace(' ', ''):
            r.unsure('raw_write: arguments parsed as %r' % fmt)
            continue
        r.count('native_writes')
        w = E.m.where(i)
        by = {off: v[0] for off, v in cells.items()}
        for k in range(3):
            v = by.get(8 * k)
            if v is None:
                r.add('C7-preamble', 'raw_write', w, 'slot %d of the preamble (%s) is not set before the record is written' % (k, 'uvw'[k]))
            elif v[0] == 'uvw' and is_slot(v[1], 0):
                if v[2] is None:
                    r.unsure('raw_write: which element of uvw goes to preamble[%d]' % k)
                elif v[2] != k:
                    r.add('C7-preamble', 'raw_write', w, 'preamble[%d] (%s) is set from uvw[%d]' % (k, 'uvw'[k], v[2]))
            elif is_slot(v, 1):
                r.add('C7-preamble', 'raw_write', w, 'preamble[%d] (%s) is set from the time' % (k, 'uvw'[k]))
            else:
                r.unsure('raw_write: what goes to preamble[%d]' % k)
        v = by.get(24)
        if v is None:
            r.add('C7-preamble', 'raw_write', w, 'the time slot of the preamble is not set before the record is written')
        elif not is_slot(v, 1):
            if v[0] == 'uvw' or is_slot(v, 2) or is_slot(v, 3):
                r.add('C7-preamble', 'raw_write', w, 'the time slot of the preamble is set from another argument')
            else:
                r.unsure('raw_write: what goes to the time slot of the preamble')
        for k, slot, name in ((2, 4, 'visibilities'), (3, 5, 'flags')):
            d = args[k]
            if d[0] == 'data' and is_slot(d[1], slot):
                continue
            if root(d)[0] == 'data' and is_slot(root(d)[1], 9 - slot):
                r.add('C7-arrays', 'raw_write', w, 'the %s handed to uvwrite_c are the other array' % name)
            elif d[0] == 'gep' and root(d)[0] == 'data':
                r.add('C7-arrays', 'raw_write', w, 'the %s handed to uvwrite_c do not start at the beginning of the array' % name)
            else:
                r.unsure('raw_write: which array the %s are' % name)
        n = args[4]
        if not (n[0] in ('dim', 'size') and any(is_slot(n[1], s) for s in (4, 5)) and (n[0] == 'size' or n[2] == C(0))):
            if n[0] == 'c' or n[0] == 'op' and n[2][0] in ('dim', 'size'):
                r.add('C7-arrays', 'raw_write', w, 'not all channels of the array are written')
            else:
                r.unsure('raw_write: how many channels are written')


def reader(r, E, f, unw):
    h = RHooks(E.m, f, unw)
    crun(h, E.m, split=60)
    good = 0
    for w in h.ways:
        st = w.st
        if st.facts.get(('record',)) is None or w.val is None or st.truth(w.val) is False:
            continue
        mk = st.facts.get(('made', st.facts.get(('from', w.val), w.val)))
        it = tuple_items(E.m, mk) if mk else None
        if it is None or len(it) != 7 or '(ii)' not in (mk[1] or '').replace(' ', ''):
            r.unsure('raw_read: how the result is built')
            continue
        good += 1
        r.count('native_reads')
        where = at(E.m, f)
        v = [st.facts.get(('from', x), x) for c, x in it]
        for k in range(3):
            p = st.facts.get(('put', v[0], k))
            got = element(p[3] or None, p[2], 8) if p is not None and p[0] == 'elem' and p[1] == ('record',) else None
            if p is None:
                if any(q[:2] == ('put', v[0]) and q[2] is None for q in st.facts if isinstance(q, tuple)):
                    r.unsure('raw_read: what fills element %d of uvw' % k)
                else:
                    r.add('C7-uvw', 'raw_read', where, 'element %d of uvw is returned without having been set' % k)
            elif got is None:
                r.unsure('raw_read: what fills element %d of uvw' % k)
            elif got != k:
                r.add('C7-uvw', 'raw_read', where, 'element %d of uvw is slot %d of the preamble' % (k, got))
        t = v[1]
        if t[0] == 'elem' and t[1] == ('record',) and not t[3]:
            if t[2] != 24:
                r.add('C7-time', 'raw_read', where, 'the time returned is slot %d of the preamble' % (t[2] // 8))
        else:
            r.unsure('raw_read: where the time returned comes from')
        d, fl, n = st.facts[('record',)]
        for x, p, o, name in ((v[4], d, fl, 'visibilities'), (v[5], fl, d, 'flags')):
            if root(p) == ('data', x):
                if p != ('data', x):
                    r.add('C7-arrays', 'raw_read', where, 'the %s are not read to the beginning of the array returned' % name)
            elif root(o) == ('data', x):
                r.add('C7-arrays', 'raw_read', where, 'the array returned as %s is the other one' % name)
            else:
                r.unsure('raw_read: which array the %s returned are' % name)
        if v[6] != ('nread',):
            if v[6] == n or v[6][0] == 'c':
                r.add('C7-nread', 'raw_read', where, 'the number of channels returned is not the number read')
            else:
                r.unsure('raw_read: where the number of channels returned comes from')
    if not good:
        r.unsure('raw_read: no way through it is understood')


def copyvr(r, E, unw):
    """uvcopyvr_c(source, copy), on the right objects"""
    f = E.m.functions.get(methods(E.m).get('copyvr'))
    if f is None:
        raise AnalysisBroken('no native copyvr')
    for i in f.calls('uvcopyvr_c'):
        r.count('copy_calls')
        a, b = [origin(f, v) for v in i.x['args'][:2]]
        if a == 'self' and b == 'arg':
            r.add('C7-direction', 'copyvr', E.m.where(i), 'the variables are copied from the copy to the source')
        elif a == b and a is not None:
            r.add('C7-direction', 'copyvr', E.m.where(i), 'the variables are copied from a data set to itself')
        elif (a, b) != ('arg', 'self'):
            r.unsure('copyvr: which data sets uvcopyvr_c gets')
    r.floor('copy_calls', 1)
    f = E.m.functions.get(methods(E.m).get('trackvr'))
    if f is None:
        raise AnalysisBroken('no native trackvr')
    for i in f.calls('uvtrack_c'):
        r.count('track_calls')
        if origin(f, i.x['args'][0]) != 'self':
            r.unsure('trackvr: which data set is tracked')
    r.floor('track_calls', 1)


def origin(f, v):
    """whose handle a value is: loaded from self, or from something parsed from the arguments"""
    seen = set()
    while v[0] == 'reg' and v[1] in f.defs and v[1] not in seen:
        seen.add(v[1])
        d = f.defs[v[1]]
        if d.op == 'load':
            p = d.ops[0]
            while p[0] == 'reg' and p[1] in f.defs and f.defs[p[1]].op in ('getelementptr', 'bitcast'):
                p = f.defs[p[1]].ops[0]
            if p[0] == 'reg' and p[1] in f.defs and f.defs[p[1]].op == 'load':
                q = f.defs[p[1]].ops[0]
                if q[0] == 'reg' and q[1] in f.defs and f.defs[q[1]].op == 'alloca':
                    return 'arg'
                return None
            if p[0] == 'reg' and p[1] == f.params[0][1]:
                return 'self'
            return None
        if d.op in ('sext', 'trunc', 'zext', 'freeze', 'bitcast', 'getelementptr'):
            v = d.ops[0]
            continue
        return None
    return None


def run(r):
    r.rule('Natively, uvw, time, visibilities, flags and their number must reach uvwrite_c in the places where uvread_c\'s are returned from; '
           'uvcopyvr_c must be given the source first and the copy second; where one delivered record takes several uvread_c, the changes the skipped ones made must be kept for copying.')
    unw = {base_name(n) for n in native().mu}
    E = Ext('aipy._miriad', ['miriad_wrap.cpp'])
    mt = methods(E.m)
    w, rd = E.m.functions.get(mt.get('raw_write')), E.m.functions.get(mt.get('raw_read'))
    if w is None or rd is None:
        raise AnalysisBroken('no native record reader or writer')
    writer(r, E, w, unw)
    reader(r, E, rd, unw)
    copyvr(r, E, unw)
    skipped(r, native(), E)


def uvgeps(m, f):
    """loads and stores of fields of the library's record of a data set: (inst, is store, field)"""
    for i in f.insts():
        if i.op in ('load', 'store'):
            p = i.ops[0] if i.op == 'load' else i.ops[1]
            while p[0] == 'reg' and p[1] in f.defs:
                d = f.defs[p[1]]
                if d.op == 'getelementptr' and str(d.x.get('elem', '')).startswith('%struct.') and len(d.ops) == 3 and d.ops[2][0] == 'int':
                    yield i, i.op == 'store', (d.x['elem'], d.ops[2][1])
                    break
                if d.op in ('bitcast',):
                    p = d.ops[0]
                else:
                    break


def derives(f, v, seen=None):
    """instructions a value is computed by, through arithmetic only"""
    seen = set() if seen is None else seen
    if v[0] == 'reg' and v[1] in f.defs and v[1] not in seen:
        seen.add(v[1])
        d = f.defs[v[1]]
        yield d
        if d.op not in ('load', 'call', 'invoke', 'phi'):
            for o in d.ops:
                yield from derives(f, o, seen)


def reaches(f, a, b, avoid):
    """is there a way from the end of block a to block b around the blocks in avoid"""
    seen, work = set(), list(f.blocks[a].succ)
    while work:
        x = work.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        if x == b:
            return True
        work += f.blocks[x].succ
    return False


def skipped(r, N, E):
    """variables that change in a record that is read over are copied with the next one delivered"""
    m = N.m
    cp, rd = m.functions.get('uvcopyvr_c'), m.functions.get('uvread_c')
    f = E.m.functions.get(methods(E.m).get('raw_read'))
    if cp is None or rd is None or f is None:
        r.unsure('which variables are copied')
        return
    by = {id(i): fl for i, st, fl in uvgeps(m, cp)}
    mark = None
    for i in cp.insts():
        if i.op == 'icmp':
            ls = [by.get(id(d)) for v in i.ops[:2] for d in list(derives(cp, v))[:1]]
            if len(ls) == 2 and None not in ls and ls[0][0] != ls[1][0]:
                mark = next((x for x in ls if 'VARIABLE' not in x[0].upper() and 'UV' in x[0].upper()), None)
    if mark is None:
        r.unsure('how uvcopyvr_c tells which variables changed')
        return
    r.count('copy_criteria')
    calls = list(f.calls('uvread_c'))
    again = [i for i in calls if reaches(f, i.block, i.block, ())]
    sets = [i for i, st, fl in uvgeps(m, rd) if st and fl == mark]
    if not sets:
        r.unsure('where uvread_c starts the changes to be copied')
        return
    for i in again:
        r.count('skipping_reads')
        entry = rd.order[0]
        guard = None
        blocks = {s.block for s in sets}
        if entry not in blocks:
            for b in rd.order:
                t = rd.blocks[b].insts[-1]
                if t.op == 'br' and len(rd.blocks[b].succ) == 2 and any(x in blocks for x in rd.blocks[b].succ):
                    guard = t
        if guard is None:
            r.add('C8-skipped', 'raw_read', E.m.where(i), 'records that are read over (decimation) start the changes to be copied anew: '
                  'a variable that changed with one of them is not copied with the record delivered',
                  ['%s: uvread_c forgets the changes of the record before' % m.where(sets[0])])
            continue
        # the guard must be opened by something the loop calls
        src = {fl for d in derives(rd, guard.ops[0]) for x, st, fl in uvgeps(m, rd) if x is d}
        if not src:
            r.unsure('when uvread_c keeps the changes of the record before')
            continue
        keep = set()
        for g in m.functions.values():
            if g is not rd and any(st and fl in src for x, st, fl in uvgeps(m, g)):
                keep.add(g.name)
        between = [c for c in f.calls() if c.callee() in keep]
        if not between:
            r.add('C8-skipped', 'raw_read', E.m.where(i), 'records that are read over start the changes to be copied anew: nothing tells uvread_c to keep those of the record before')
        elif reaches(f, i.block, i.block, {c.block for c in between} - {i.block}) and not any(c.block == i.block for c in between):
            r.add('C8-skipped', 'raw_read', E.m.where(i), 'on one way round, the changes of a record that is read over are not kept')
        else:
            r.count('kept')
