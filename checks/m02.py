"""M02: one data-set's errors leave the others alone; every handle is released once."""
from sa import ir
from sa.ir import AnalysisBroken, base_name
from sa.native import native, strip, paths_from
from sa.pathsim import Sim, Hooks, RState, root, C
from sa.report import Result
from sa.sccp import SCCP
from checks import m01
from checks.m03 import status_params

DESTROY = {'unlink', 'rmdir', 'remove', 'rename', 'ftruncate', 'truncate', 'write', 'pwrite', 'close', 'unlinkat', 'fclose'}
DELETE = {'unlink', 'rmdir', 'remove', 'rename', 'unlinkat', 'truncate', 'ftruncate'}
ACQ = {'haccess_c': (1, 4), 'hopen_c': (0, 3)}
REL = {'hdaccess_c': 0, 'hclose_c': 0}


def run(tier):
    r = Result()
    n = native()
    m, g = n.m, n.g
    r.units = m.srcs
    reporting(r, n)
    deletion(r, n)
    tables(r, n)
    objects(r, n)
    local_handles(r, n)
    released_use(r, n)
    from checks import m02py
    m02py.run(r)
    r.assumptions = ['a throw out of a low-level routine abandons the item handles it holds until the data-set is closed',
                     'handles stored in a record belong to the record']
    return r


def reporting(r, n):
    r.rule('R1: in a routine that reports errors, with a recovery handler installed, no call that can write, close or '
           'delete a file is executable.')
    m, g = n.m, n.g
    cnt = 0
    for f in m.functions.values():
        if not any(m01.is_handler_call(f, i, n.handlers) for i in f.calls()):
            continue
        cnt += 1
        ex = n.executable(f)
        for i in f.calls():
            if id(i) not in ex or m01.is_handler_call(f, i, n.handlers):
                continue
            seen = n.reach([t for t in (g.targets[id(i)] or ())])
            bad = sorted(set(seen) & DESTROY)
            if bad:
                r.add('R1-report-destroys', '%s/%s' % (base_name(f.name), base_name(i.callee()) or '?'), m.where(i),
                      'reporting an error reaches %s before the error is handed to the caller: other data-sets are closed or deleted'
                      % ', '.join(bad))
    r.counts['reporting_routines'] = cnt
    r.floor('reporting_routines', 1)


def deletion(r, n):
    r.rule('R2: no operation reachable from Python removes a file or directory, except a temporary file the same call created '
           '(reachability over calls executable with the recovery handler installed).')
    m = n.m
    seen = n.reach(n.eps)
    r.counts['functions_reachable_from_python'] = len(seen)
    r.floor('functions_reachable_from_python', 100)
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None:
            continue
        ex = n.executable(f)
        for i in f.calls(*DELETE):
            if id(i) not in ex:
                continue
            r.count('removal_sites')
            a = strip(f, i.x['args'][0])
            created = [j for j in f.calls('open', 'open64', 'mkstemp') if strip(f, j.x['args'][0]) == a]
            if created:
                # only under a flag that is set for scratch files: the call must be conditional
                dom = f.dominators()
                rets = [j for j in f.insts() if j.op == 'ret']
                if not all(i.block in dom[x.block] for x in rets):
                    continue
            r.add('R2-removes', '%s/%s' % (base_name(name), i.callee()), m.where(i),
                  'an operation on a data-set removes something from disk', n.path(seen, name))


def table_of(f, v):
    """the global pointer table an address points into"""
    v = strip(f, v)
    if v[0] == 'gep' and v[2][0] == 'glob':
        return v[2][1]
    if v[0] == 'reg':
        d = f.defs.get(v[1])
        if d is not None and d.op == 'getelementptr' and d.ops[0][0] == 'glob' and d.x.get('elem', '').startswith('['):
            return d.ops[0][1]
    return None


def tables(r, n):
    r.rule('R3: a table slot that records an open data-set or item is cleared, and its counter lowered, on every path through the '
           'routine that frees the record; the counter is raised only when the record is actually made.')
    m = n.m
    reg, rel = {}, {}
    for f in m.functions.values():
        for i in f.insts():
            if i.op == 'store' and i.ty == 'ptr':
                t = table_of(f, i.ops[1])
                if t is None or t not in m.globals or ' x ptr]' not in m.globals[t]:
                    continue
                (rel if i.ops[0][0] == 'null' else reg).setdefault(t, []).append(i)
    reach = n.reach(n.eps)
    cnt = 0
    for t in sorted(reg):
        makers = [i for i in reg[t] if i.fn.name in reach]
        heap = [i for i in makers if from_heap(i.fn, i.ops[0])]
        if not heap:
            continue
        cnt += 1
        r.sample('table %s: filled by %s, cleared by %s' % (t, sorted({base_name(i.fn.name) for i in heap}),
                                                            sorted({base_name(i.fn.name) for i in rel.get(t, [])})))
        releasing = [i for i in rel.get(t, []) if i.fn.name in reach and not loop_init(i)]
        if not releasing:
            r.add('R3-never-cleared', t, m.where(heap[0]), 'slots of this table are taken but no routine ever gives one back')
            continue
        frees = lambda f: [j for j in f.calls() if j.callee() == 'free' or j.callee() in freeing(n)]
        for i in releasing:
            f = i.fn
            ex = n.executable(f)
            stop = lambda x, i=i: x is i or (x.op in ('call', 'invoke') and n.stops(x))
            # a path entry -> return that avoids the clearing store
            first = f.blocks[f.entry].insts[0]
            missed = [x for x in ([first] if not stop(first) else []) + paths_from([first], stop) if x.op == 'ret' and id(x) in ex]
            others = [j for j in releasing if j.fn is f and j is not i]
            if missed and not others and any(id(j) in ex for j in frees(f)):
                r.add('R3-not-always-cleared', '%s/%s' % (t, base_name(f.name)), m.where(i),
                      'a path through this routine frees the record and leaves its slot taken (a dangling entry)')
        # counters
        for i in heap:
            f = i.fn
            for j in f.insts():
                if j.op != 'store' or j.ops[1][0] != 'glob' or j.ty != 'i32':
                    continue
                d = f.defs.get(j.ops[0][1]) if j.ops[0][0] == 'reg' else None
                if d is None or d.op != 'add' or d.ops[1] not in (('int', 1),):
                    continue
                src = f.defs.get(d.ops[0][1]) if d.ops[0][0] == 'reg' else None
                if src is None or src.op != 'load' or src.ops[0] != j.ops[1]:
                    continue
                ctr = j.ops[1][1]
                r.count('slot_counters')
                # raised and then refused
                for x in paths_from([j], lambda x, i=i: x is i):
                    if x.op in ('call', 'invoke') and n.stops(x):
                        r.add('R3-count-leaks', '%s/%s' % (ctr, base_name(f.name)), m.where(x),
                              'the count of open entries has been raised when this error refuses the entry: it never comes down again')
                ok = False
                for q in releasing:
                    ff = q.fn
                    downs = [x for x in ff.insts() if x.op == 'store' and x.ops[1] == ('glob', ctr) and
                             x.ops[0][0] == 'reg' and is_dec(ff, x.ops[0], ctr)]
                    if downs:
                        stop = lambda x, downs=downs: x in downs or (x.op in ('call', 'invoke') and n.stops(x))
                        first = ff.blocks[ff.entry].insts[0]
                        missed = [x for x in paths_from([first], stop) if x.op == 'ret']
                        ok = ok or not missed
                if not ok:
                    r.add('R3-count-not-lowered', '%s/%s' % (ctr, t), m.where(j),
                          'the count of open entries is raised here but not lowered on every path that gives the slot back')
        for i in heap:
            unpublished(r, n, t, i, releasing)
    r.rule('R7: a routine that takes a slot releases it or hands its handle to the caller on every return.')
    r.counts['slot_tables'] = cnt
    r.floor('slot_tables', 2)


def unpublished(r, n, t, maker, releasing):
    """a record made by a call must be released, or its handle handed out, on every return"""
    m = n.m
    f = maker.fn
    rec = strip(f, maker.ops[0])
    params = {x for _, x in f.params}
    # a table filed under a number the caller already owns allocates no slot of its own
    p = strip(f, maker.ops[1])
    d = f.defs.get(p[1]) if p[0] == 'reg' else None
    if d is not None and d.op == 'getelementptr' and any(strip(f, x)[0] == 'reg' and strip(f, x)[1] in params for x in d.ops[1:]):
        return
    # a record linked into one of the caller's records belongs to that record, unless the caller is told that it failed
    linked = False
    for j in f.insts():
        if j.op == 'store' and j is not maker and j.ty == 'ptr':
            p = strip(f, j.ops[1])
            d = f.defs.get(p[1]) if p[0] == 'reg' else None
            if d is not None and d.op == 'getelementptr' and d.ops[0][0] == 'reg' and d.ops[0][1] in params:
                linked = True
    if not any(j.op == 'ret' and j.ops for j in f.insts()):
        return
    relnames = freers(n)
    sp = status_params(m)
    for h in m.functions.values():
        mk = list(h.calls(f.name))
        if not mk or h.name in n.eps or linked and not sp.get(h.name):
            continue
        problems = []
        mine = sorted(sp.get(h.name, ())) if linked else ()

        class H(Hooks):
            def call(self, sim, st, i, args):
                if n.stops(i, [st.value(a) for a in args]):
                    return [(st, None, 'stop')]
                if i in mk and i.res:
                    sim.havoc(st, i, args)
                    v = sim.fresh(st, ('rec', i.res))
                    st.con[v] = (1, 1 << 70, frozenset())
                    st.facts[('made', v)] = m.where(i)
                    return [(st, v, 'ret')]
                for k in relnames.get(i.callee(), ()):
                    if k < len(args):
                        for key in [q for q in st.facts if q[0] == 'made' and (q[1] == args[k] or st.facts.get(('field', args[k])) == q[1])]:
                            st.facts.pop(key)
                return None

            def out_args(self, i):
                return set(range(len(i.x['args'])))

            def load(self, sim, st, i, loc):
                if root(loc)[0] == 'rec' and st.mem.get(loc) is None and ('made', root(loc)) in st.facts:
                    v = sim.fresh(st, ('ld', i.res))
                    st.mem[loc] = v
                    st.facts[('field', v)] = root(loc)
                    return v
                return None

            def store(self, sim, st, i, loc, val):
                if root(loc)[0] in ('arg', 'g', 'ld'):
                    if linked:
                        for q in [val, st.facts.get(('field', val))]:
                            if ('made', q) in st.facts and root(loc)[0] == 'arg':
                                st.facts[('given', q)] = True
                        return
                    o = val if ('made', val) in st.facts else st.facts.get(('field', val))
                    if o is not None:
                        st.facts.pop(('made', o), None)

            def ret(self, sim, st, i, val):
                if linked and not any(st.truth(st.mem.get(('addr', 'param', k), ('int', 0))) is True for k in mine):
                    return
                for q in st.facts:
                    if q[0] == 'made' and linked and ('given', q[1]) not in st.facts:
                        continue
                    if q[0] == 'made' and q[1] != val and st.facts.get(('field', val)) != q[1]:
                        problems.append((i, st.facts[q], st))
        st = RState()
        for k in mine:
            st.env[h.params[k][1]] = ('addr', 'param', k)
        Sim(h, H()).run(st)
        r.count('record_makers_followed')
        for i, w, st in problems[:1]:
            r.add('R7-slot-lost', '%s/%s' % (base_name(h.name), t), m.where(i), 'returns without giving back, or handing out, the slot taken at %s' % w,
                  [m.where(x) for x in st.trail[-8:]])


_FREE = {}


def freeing(n):
    """functions that free something"""
    if 'x' not in _FREE:
        out = set()
        for f in n.m.functions.values():
            if any(True for _ in f.calls('free')):
                out.add(f.name)
        _FREE['x'] = out
    return _FREE['x']


def is_dec(f, v, ctr):
    d = f.defs.get(v[1])
    if d is None or d.op not in ('add', 'sub'):
        return False
    if (d.op, d.ops[1]) not in (('add', ('int', -1)), ('sub', ('int', 1))):
        return False
    s = f.defs.get(d.ops[0][1]) if d.ops[0][0] == 'reg' else None
    return s is not None and s.op == 'load' and s.ops[0] == ('glob', ctr)


def from_heap(f, v, depth=0):
    v = strip(f, v)
    if v[0] != 'reg' or depth > 6:
        return False
    d = f.defs.get(v[1])
    if d is None:
        return False
    if d.op in ('call', 'invoke'):
        return d.callee() in ('malloc', 'calloc', 'realloc') or d.callee() in f.module.functions
    if d.op == 'phi':
        return any(from_heap(f, x, depth + 1) for x, _ in d.x['inc'])
    return False


def loop_init(i):
    """a clearing store inside an initialisation loop over the table (index is a loop phi starting at a constant)"""
    f = i.fn
    v = i.ops[1]
    d = f.defs.get(v[1]) if v[0] == 'reg' else None
    if d is None or d.op != 'getelementptr':
        return False
    ix = strip(f, d.ops[-1])
    p = f.defs.get(ix[1]) if ix[0] == 'reg' else None
    return p is not None and p.op == 'phi' and any(x[0] == 'int' for x, _ in p.x['inc'])


# ------------------------------------------------------------ the Python object

def objects(r, n):
    r.rule('R4: the object constructor marks the handle unused before anything can fail, the destructor closes exactly when a '
           'data-set was opened, and a failed initialisation gives the data-set back.')
    m = n.m
    # the type object: slots by role
    slots = type_slots(m)
    if not slots:
        raise AnalysisBroken('no type object with allocation, initialisation and deallocation slots')
    for (new, init, dealloc) in slots:
        df = m.functions[dealloc]
        closers = n.param_flows({'uvclose_c': 0, 'hclose_c': 0})
        guard = None
        for i in df.calls():
            if i.callee() in closers:
                h = strip(df, i.x['args'][min(closers[i.callee()])])
                ld = df.defs.get(h[1]) if h[0] == 'reg' else None
                if ld is not None and ld.op == 'load':
                    guard = (i, ld)
        r.count('type_objects')
        if guard is None:
            r.add('R4-never-closed', base_name(dealloc), m.where(next(df.insts())), 'destroying the object closes no data-set')
            continue
        call, ld = guard
        off = field_of(df, ld.ops[0])
        # sentinel: the constant the handle is compared with on the way to the close
        sentinel = None
        for j in df.insts():
            if j.op == 'icmp' and j.ops[1][0] == 'int':
                l = df.defs.get(j.ops[0][1]) if j.ops[0][0] == 'reg' else None
                if l is not None and l.op == 'load' and field_of(df, l.ops[0]) == off:
                    sentinel = (j.x['pred'], j.ops[1][1], j)
        if sentinel is None:
            r.add('R4-unguarded-close', base_name(dealloc), m.where(call), 'the destructor closes a handle that was perhaps never opened')
            continue
        pred, k, _ = sentinel
        closes_at = lambda v: {'eq': v == k, 'ne': v != k, 'slt': v < k, 'sle': v <= k, 'sgt': v > k, 'sge': v >= k}.get(pred)
        # which side of the comparison closes?
        s_eq = SCCP(df, bind=lambda i: 1 if i is sentinel[2] else None)
        true_closes = any(i is call for i in s_eq.insts())
        s_ne = SCCP(df, bind=lambda i: 0 if i is sentinel[2] else None)
        false_closes = any(i is call for i in s_ne.insts())
        def would_close(v):
            c = closes_at(v)
            return true_closes if c else false_closes
        for v in (0, 1, 25):
            if not would_close(v):
                r.add('R4-leaks', '%s/%s' % (base_name(dealloc), v), m.where(call), 'an object holding data-set %d is destroyed without closing it' % v)
        unopened = [v for v in (-1, -2, k) if v < 0 and not would_close(v)]
        # tp_new must store such a value on every path returning an object
        if new is None:
            r.add('R4-new-unmarked', base_name(dealloc), m.where(call), 'the type has no constructor of its own: a fresh object holds '
                  'data-set 0 and closes it when destroyed')
            init_check(r, n, m.functions[init], off, would_close)
            continue
        nf = m.functions[new]
        marks = [i for i in nf.insts() if i.op == 'store' and i.ops[0][0] == 'int' and i.ops[0][1] < 0 and not would_close(i.ops[0][1])
                 and field_of(nf, i.ops[1]) == off]
        bad = False
        class H(Hooks):
            def ret(self, sim, st, inst, val):
                nonlocal bad
                if st.truth(val) is False:
                    return
                v = [t for l, t in st.mem.items() if l[0] == 'gep' and l[1] == val and l[2] == off[1] and t[0] == 'c']
                if not any(t[1] < 0 and not would_close(t[1]) for t in v):
                    bad = True
        Sim(nf, H()).run()
        if bad or not marks:
            r.add('R4-new-unmarked', base_name(new), m.where(next(nf.insts())),
                  'an object can be returned whose handle is not marked unused: destroying it closes another object\'s data-set')
        init_check(r, n, m.functions[init], off, would_close)
    r.floor('type_objects', 1)


def type_slots(m):
    """[(tp_new, tp_init, tp_dealloc)] of static type objects, by position in PyTypeObject"""
    out = []
    for gname, text in m.globals.items():
        if '%struct._typeobject {' not in text:
            continue
        # fields in order: split the initialiser at top level
        body = text[text.index('{', text.index('_typeobject')):]
        fields = split_top(body[1:body.rindex('}')])
        if len(fields) < 38:
            continue
        fn = lambda k: (fields[k].split('@')[-1].strip().strip('"') if '@' in fields[k] else None)
        dealloc, init, new = fn(4), fn(35), fn(37)
        for f in m.repo_defined():
            for i in f.insts():
                if i.op == 'store' and i.ops[1][0] == 'gep' and i.ops[1][2] == ('glob', gname) and len(i.ops[1]) == 5:
                    k = i.ops[1][4][1] if i.ops[1][4][0] == 'int' else None
                    v = i.ops[0][1] if i.ops[0][0] == 'glob' else None
                    if k == 37:
                        new = v
                    elif k == 35:
                        init = v
                    elif k == 4:
                        dealloc = v
        if dealloc in m.functions and init in m.functions:
            out.append((new if new in m.functions else None, init, dealloc))
    return out


def split_top(s):
    out, d, cur, q = [], 0, '', False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in '{[(<':
                d += 1
            elif c in '}])>':
                d -= 1
            elif c == ',' and d == 0:
                out.append(cur)
                cur = ''
                continue
        cur += c
    out.append(cur)
    return out


def field_of(f, v):
    """(elem type, constant indices) of a field address, whatever the base"""
    v = strip(f, v)
    if v[0] == 'gep':
        return (v[1], tuple(x[1] for x in v[3:] if x[0] == 'int'))
    if v[0] == 'reg':
        d = f.defs.get(v[1])
        if d is not None and d.op == 'getelementptr':
            return (d.x['elem'], tuple(o[1] for o in d.ops[1:] if o[0] == 'int'))
    return None


def init_check(r, n, f, off, would_close):
    """after the data-set is opened, an error path must close it; when it returns failure nothing may be lost"""
    m = n.m
    openers = {'uvopen_c', 'hopen_c'}
    closers = set(n.param_flows({'uvclose_c': 0, 'hclose_c': 0}))
    problems = []

    class H(Hooks):
        def may_unwind(self, i):
            return i.callee() in n.mu or i.callee() is None

        def out_args(self, i):
            return set(range(len(i.x['args'])))    # the library never sees the Python object

        def call(self, sim, st, i, args):
            if n.stops(i):
                return [(st, None, 'stop')]
            if i.callee() in openers:
                # returned: the handle is valid;  thrown: unknown whether it was opened
                a = st.copy()
                sim.havoc(a, i, args)
                a.mem[args[0]] = ('open', i.res or '')
                a.con[('open', i.res or '')] = (0, 1000, frozenset())
                a.facts['open'] = 1
                b = st.copy()
                old = b.mem.get(args[0])
                c = st.copy()
                c.mem[args[0]] = ('open', '')
                c.con[('open', '')] = (0, 1000, frozenset())
                c.facts['open'] = 1
                return [(a, None, 'ret'), (b, None, 'unwind'), (c, None, 'unwind')]
            if i.callee() in closers:
                s = st.copy()
                s.facts.pop('open', None)
                u = s.copy()
                return [(s, None, 'ret')] + ([(u, None, 'unwind')] if i.op == 'invoke' and self.may_unwind(i) else [])
            return None

        def ret(self, sim, st, i, val):
            if 'open' in st.facts and val is not None and st.value(val) not in (0,):
                problems.append((i, st))

    Sim(f, H()).run()
    r.count('init_paths_checked')
    for i, st in problems[:1]:
        r.add('R4-init-loses', base_name(f.name), m.where(i), 'initialisation can fail after the data-set was opened and not give it back: '
              'its slot is lost', ['%s' % m.where(t) for t in st.trail[-10:]])


# --------------------------------------------------------------- local handles

def local_handles(r, n):
    r.rule('R5: an item or data-set handle kept in a local variable is released on every path that returns '
           '(path-sensitive typestate; the failing branch of the status test holds nothing).')
    m = n.m
    for k in list(ACQ) + list(REL):
        if k not in m.functions:
            raise AnalysisBroken('native routine %s not found' % k)
    rel = n.param_flows(REL)
    for a in ACQ:
        rel.pop(a, None)
    seen = n.reach(n.eps)
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None or not any(True for _ in f.calls(*ACQ)):
            continue
        if f.name in n.eps:
            # the handle is what the Python caller asked for
            continue
        problems = []

        class H(Hooks):
            def call(self, sim, st, i, args):
                consts = [st.value(a) for a in args]
                if n.stops(i, consts):
                    return [(st, None, 'stop')]
                c = i.callee()
                if c in ACQ:
                    hk, sk = ACQ[c]
                    sim.havoc(st, i, args)
                    h = sim.fresh(st, ('h', id(i)))
                    s = sim.fresh(st, ('st', id(i)))
                    st.mem[args[hk]] = h
                    st.mem[args[sk]] = s
                    if root(args[hk])[0] == 'addr':
                        st.facts[('own', h)] = (s, i.x and ('i', m.where(i)))
                    return [(st, None, 'ret')]
                if c in rel:
                    for k in rel[c]:
                        if k < len(args):
                            st.facts.pop(('own', args[k]), None)
                    return None
                return None

            def store(self, sim, st, i, loc, val):
                if root(loc)[0] != 'addr':
                    st.facts.pop(('own', val), None)

            def out_args(self, i):
                c = i.callee()
                if c in m.functions or c is None:
                    return None
                return set()

            def ret(self, sim, st, i, val):
                if val is not None:
                    st.facts.pop(('own', val), None)
                for (k, h), (s, w) in [(k, v) for k, v in st.facts.items() if isinstance(k, tuple)]:
                    if st.truth(('icmp', 'ne', s, C(0))) is not True:
                        problems.append((i, w[1], st))
        Sim(f, H()).run()
        r.count('functions_holding_local_handles')
        for i, w, st in problems:
            r.add('R5-local-handle', '%s@%s' % (base_name(name), 'return'), m.where(i),
                  'returns with the handle acquired at %s still held' % w, [m.where(t) for t in st.trail[-8:]])
    r.floor('functions_holding_local_handles', 8)


def released_use(r, n):
    r.rule('R6: after a call that may free a record (closing its handle), the record is not followed.')
    m = n.m
    fr = freers(n)
    seen = n.reach(n.eps)
    for name in sorted(seen):
        f = m.functions.get(name)
        if f is None:
            continue
        for i in f.calls():
            c = i.callee()
            if c not in fr:
                continue
            for k in fr[c]:
                if k >= len(i.x['args']):
                    continue
                a = strip(f, i.x['args'][k])
                # the record itself, or a record whose handle field is passed
                rec = a
                d = f.defs.get(a[1]) if a[0] == 'reg' else None
                if fr[c][k][0] == 'handle':
                    if d is None or d.op != 'load':
                        continue
                    g = strip(f, d.ops[0])
                    gd = f.defs.get(g[1]) if g[0] == 'reg' else None
                    if gd is None or gd.op != 'getelementptr' or gd.x['elem'] != fr[c][k][1]:
                        continue
                    rec = strip(f, gd.ops[0])
                if rec[0] != 'reg':
                    continue
                r.count('release_calls_followed')
                rd = f.defs.get(rec[1])
                stop = lambda x, rd=rd: x is rd or (x.op in ('call', 'invoke') and n.stops(x))
                for x in paths_from([i], stop):
                    for base in deref_bases(f, x):
                        if base == rec:
                            r.add('R6-use-after-release', '%s/%s' % (base_name(name), base_name(c)), m.where(x),
                                  'follows a record that the call at %s may have freed' % m.where(i))


def deref_bases(f, x):
    if x.op == 'load':
        ps = [x.ops[0]]
    elif x.op == 'store':
        ps = [x.ops[1]]
    else:
        return
    for p in ps:
        p = strip(f, p)
        d = f.defs.get(p[1]) if p[0] == 'reg' else None
        yield p
        while d is not None and d.op == 'getelementptr':
            p = strip(f, d.ops[0])
            yield p
            d = f.defs.get(p[1]) if p[0] == 'reg' else None


def struct_of(f, v):
    for x in f.insts():
        if x.op == 'getelementptr' and x.ops[0] == v and x.x['elem'].startswith('%struct'):
            return x.x['elem']
    return None


def freers(n):
    """{function: {param index: 'record'|'handle'}} that may free the record a parameter denotes"""
    out = {}
    m = n.m
    changed = True
    while changed:
        changed = False
        for f in m.functions.values():
            regs = {r: k for k, (ty, r) in enumerate(f.params)}
            for i in f.calls():
                c = i.callee()
                what = {0: ('record', None)} if c == 'free' else out.get(c, {})
                for k, how in what.items():
                    if k >= len(i.x['args']):
                        continue
                    a = strip(f, i.x['args'][k])
                    if a[0] == 'reg' and a[1] in regs:
                        if out.setdefault(f.name, {}).get(regs[a[1]]) is None:
                            out[f.name][regs[a[1]]] = (how[0], how[1] or struct_of(f, a))
                            changed = True
                    elif how[0] == 'record' and a[0] == 'reg':
                        # record looked up in a table by an integer parameter
                        d = f.defs.get(a[1])
                        if d is not None and d.op == 'load':
                            g = strip(f, d.ops[0])
                            gd = f.defs.get(g[1]) if g[0] == 'reg' else None
                            if gd is not None and gd.op == 'getelementptr' and gd.ops[0][0] == 'glob':
                                ix = strip(f, gd.ops[-1])
                                if ix[0] == 'reg' and ix[1] in regs and out.setdefault(f.name, {}).get(regs[ix[1]]) is None:
                                    out[f.name][regs[ix[1]]] = ('handle', how[1] or struct_of(f, a))
                                    changed = True
    return out
