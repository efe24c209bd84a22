"""M01: native failures surface as Python exceptions."""
from sa import ir, cg
from sa.ir import AnalysisBroken, base_name
from sa.capi import CHooks, Ext, run as crun
from sa.report import Result
from sa.sccp import SCCP

EXIT = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', '_ZSt9terminatev', 'raise', 'kill', '__assert_fail'}


def model(m=None):
    """locate the recovery machinery by what it does, not by its names"""
    m = m or ir.compile_extension('aipy._miriad')
    g = cg.CallGraph(m)
    eps = cg.entry_points(m)

    def src(i):
        if i.callee() == '__cxa_throw':
            a = i.x['args'][1]
            if a[0] == 'glob' and a[1].startswith('_ZTI') and a[1] in m.globals:
                return a[1]
        return None
    throwers = {f.name for f in m.functions.values() for i in f.calls('__cxa_throw') if src(i)}
    handlers = {}
    for gname, vals in g.gptr.items():
        ts = set()
        for f, v in vals:
            ts |= g.resolve_val(f, v, 0) or set()
        if ts & throwers:
            handlers[gname] = ts
    if not handlers:
        raise AnalysisBroken('no recovery handler variable that a throwing function is assigned to')
    coarse = g.may_unwind(src)

    def keep(i):
        return raises(m, g, handlers, coarse, i, None, 0)
    mu = g.may_unwind(src, keep)
    return m, g, eps, handlers, mu, throwers


def raises(m, g, handlers, mu, i, consts, depth):
    """may this call raise, given its constant arguments (a report below fatal severity does not)?"""
    if is_handler_call(i.fn, i, handlers) or i.callee() in ('__cxa_throw', '__cxa_rethrow'):
        return True
    c = i.callee()
    f = m.functions.get(c)
    if f is None:
        return any(t in mu for t in (g.targets[id(i)] or ()))
    if c not in mu:
        return False
    args = {}
    for k, x in enumerate(i.x['args']):
        if k < len(f.params):
            if x[0] == 'int':
                args[f.params[k][1]] = x[1]
            elif x[0] == 'reg' and consts and x[1] in consts:
                args[f.params[k][1]] = consts[x[1]]
    if not args or depth > 4:
        return True
    s = SCCP(f, params=args, bind=lambda j: 1 if j.op == 'load' and j.ops[0][0] == 'glob' and j.ops[0][1] in handlers else None)
    return any(j.op in ('call', 'invoke') and raises(m, g, handlers, mu, j, args, depth + 1) for j in s.insts())


def is_handler_call(fn, i, handlers):
    if i.op not in ('call', 'invoke') or i.callee():
        return False
    v = i.x['calleev']
    for _ in range(6):
        if v[0] != 'reg':
            return False
        d = fn.defs.get(v[1])
        if d is None:
            return False
        if d.op == 'load':
            return d.ops[0][0] == 'glob' and d.ops[0][1] in handlers
        if d.op in ('bitcast', 'freeze'):
            v = d.ops[0]
            continue
        return False
    return False


def run(tier):
    r = Result()
    m, g, eps, handlers, mu, throwers = model()
    r.units = m.srcs
    reach = g.reachable(eps)
    r.count('functions_analysed', len(m.functions))
    r.count('entry_points', len(eps))
    r.count('functions_that_may_raise_internally', len(mu))
    r.floor('entry_points', 15)
    r.floor('functions_that_may_raise_internally', 60)

    r.rule('R1: no function callable from Python lets the library\'s C++ exception escape (fixpoint over the linked '
           'call graph, landing-pad clauses compared with the thrown type).')
    for e in sorted(eps):
        if e in mu:
            path = []
            n = e
            while n in mu and len(path) < 30:
                i, nx = mu[n]
                path.append('%s: %s calls %s' % (m.where(i), base_name(n), base_name(nx)))
                if nx == 'throw':
                    break
                n = nx
            r.add('R1-escape', base_name(e), m.where(mu[e][0]),
                  'an error raised in the native library escapes this entry point (the interpreter would terminate)', path)
    for n, f in m.functions.items():
        for i in f.calls():
            if i.op == 'invoke':
                r.count('protected_calls')

    r.rule('R2: the recovery handler never returns.')
    for h in handlers.values():
        for t in h:
            f = m.functions.get(t)
            if f is None:
                r.add('R2-handler-returns', base_name(t), '?', 'the recovery handler has no analysable body')
                continue
            s = SCCP(f, noreturn=lambda i: i.callee() in ('__cxa_throw', '__cxa_rethrow'))
            for i in s.insts():
                if i.op == 'ret':
                    r.add('R2-handler-returns', base_name(t), m.where(i), 'the recovery handler can return to the '
                          'library, which then exits the process')
            r.count('handlers')

    # R3/R4: behaviour of every function that invokes the handler, with a handler installed
    r.rule('R3: with the handler installed, a reporting routine called with fatal severity never returns to its '
           'caller (conditional constant propagation per severity).')
    r.rule('R4: with the handler installed, no process-terminating call is executable from any entry point.')
    r.rule('R5: nothing that destroys data-set state runs before the handler (see M02).')
    # never-returning functions (with handler installed), to a fixpoint
    nor = set(throwers)

    def bind_for(f):
        def bind(i):
            if i.op == 'load' and i.ops[0][0] == 'glob' and i.ops[0][1] in handlers:
                return 1
            return None
        return bind

    def noret(f):
        def p(i):
            return is_handler_call(f, i, handlers) or i.callee() in ('__cxa_throw', '__cxa_rethrow') or \
                i.callee() in nor or i.callee() in EXIT
        return p
    reporters = [f for f in m.functions.values() if any(is_handler_call(f, i, handlers) for i in f.calls())]
    if not reporters:
        raise AnalysisBroken('no function calls the recovery handler')
    r.count('reporting_routines', len(reporters))
    for f in m.repo_defined():
        for i in f.calls():
            if i.callee() in EXIT and f.name in reach:
                r.count('terminating_call_sites')
                s = SCCP(f, bind=bind_for(f), noreturn=lambda j, f=f: is_handler_call(f, j, handlers) or j.callee() in nor)
                if any(j is i for j in s.insts()):
                    r.add('R4-exit', '%s/%s' % (base_name(f.name), i.callee()), m.where(i),
                          'terminates the process although a recovery handler is installed')
    # severity parameter: an i8/i32 parameter compared with letters
    fatal = [ord('f'), ord('F')]
    sev_routines = {}
    for f in reporters:
        for k, (ty, reg) in enumerate(f.params):
            if ty not in ('i8', 'i32'):
                continue
            used = set()
            stack = [reg]
            while stack:
                x = stack.pop()
                for u in f.uses.get(x, ()):
                    if u.op in ('sext', 'zext', 'trunc') and u.res:
                        stack.append(u.res)
                    if u.op == 'icmp':
                        for o in u.ops:
                            if o[0] == 'int' and 65 <= o[1] < 123:
                                used.add(chr(o[1]))
                    if u.op == 'switch':
                        used |= {chr(c) for c, _ in u.x['cases'] if 65 <= c < 123}
            if len(used) >= 2:
                sev_routines[f.name] = (k, reg)
    if not sev_routines:
        raise AnalysisBroken('no reporting routine distinguishes severities')
    for n, (k, reg) in sev_routines.items():
        f = m.functions[n]
        for c in fatal:
            s = SCCP(f, params={reg: c}, bind=bind_for(f), noreturn=noret(f))
            r.count('severity_cases')
            for i in s.insts():
                if i.op == 'ret':
                    r.add('R3-fatal-returns', '%s/%s' % (base_name(n), chr(c)), m.where(i),
                          'a fatal error (severity %r) can return to the failing operation, which carries on' % chr(c))
                    break
            if not any(is_handler_call(f, i, handlers) for i in s.insts()):
                r.add('R3-fatal-unhandled', '%s/%s' % (base_name(n), chr(c)), m.where(next(f.insts())),
                      'a fatal error (severity %r) does not reach the recovery handler' % chr(c))
    # call sites: constant severities
    sites = {}
    for f in m.functions.values():
        if f.name not in reach:
            continue
        for i in f.calls():
            if i.callee() in sev_routines:
                a = i.x['args'][sev_routines[i.callee()][0]]
                key = chr(a[1]) if a[0] == 'int' else '?'
                sites[key] = sites.get(key, 0) + 1
    r.counts.update({'report_sites_%s' % ('variable' if k == '?' else k): v for k, v in sites.items()})

    r.rule('R6: a handler is installed before the library is first entered by an opening entry point (dominance).')
    installers = {}
    for gname in handlers:
        for f, v in g.gptr[gname]:
            for k, (ty, reg) in enumerate(f.params):
                if v == ('reg', reg):
                    installers[f.name] = k
    if not installers:
        raise AnalysisBroken('no function installs the recovery handler')
    handler_fns = set().union(*handlers.values())

    def installs(i):
        return i.callee() in installers and i.x['args'][installers[i.callee()]][0] == 'glob' and \
            i.x['args'][installers[i.callee()]][1] in throwers
    for f in m.functions.values():
        for i in f.calls(*installers):
            r.count('handler_installations')
            if not installs(i):
                r.add('R6-uninstalled', base_name(f.name), m.where(i), 'the recovery handler is replaced by one that does not raise')
    # opening entry points: those whose reachable set contains a directory/file creating or opening primitive
    module_installs = any(installs(i) for n in eps if n.startswith('PyInit_') for i in m.functions[n].calls())
    n_open = 0
    for e in sorted(eps):
        if e.startswith('PyInit_'):
            continue
        f = m.functions[e]
        risky = [i for i in f.calls() if any(t in mu for t in (g.targets[id(i)] or ()))]
        opens = [i for i in risky if g.reachable(g.targets[id(i)]) & {'mkdir'}]
        for i in opens:
            n_open += 1
            if module_installs:
                continue
            dom = f.dominators()
            ok = False
            for j in f.calls():
                if installs_deep(m, g, j, installs) and (j.block == i.block and j.idx < i.idx or
                                                         j.block != i.block and j.block in dom[i.block]):
                    ok = True
            if not ok:
                r.add('R6-late-install', base_name(e), m.where(i), 'data-sets can be opened before the recovery handler is installed: '
                      'an error would exit the process')
    r.count('opening_calls', n_open)
    r.floor('opening_calls', 1)
    r.rule('R7: once an entry point has caught a library error, every way out of it reports failure: NULL or a negative status with a '
           'Python exception set (path-sensitive simulation with a model of the C API); destructors excepted.')
    swallow(r, mu)
    r.floor('entry_points_that_catch', 1)
    r.assumptions = ['C++ exceptions other than the library\'s own error type (std::bad_alloc) are not considered',
                     'clang 18 IR of the sources listed in setup.py stands for the gcc build']
    return r


class Caught(CHooks):
    catching = 0

    def done(self, sim, st, inst, val):
        if not st.facts.get('caught'):
            return
        self.catching += 1
        if inst.ty in (None, 'void') or not inst.ops:
            return
        if not st.facts.get('exc'):
            self.report('swallowed', inst, 'a library error was caught, yet this way out sets no Python exception: the operation '
                        'reports success', st)
            return
        if inst.ty == 'i32':
            v = st.value(val)
            bad = v is not None and v >= 0
        else:
            bad = st.truth(val) is True
        if bad:
            self.report('swallowed', inst, 'a library error was caught, yet this way out returns a result', st)


def swallow(r, mu):
    E = Ext('aipy._miriad', only=['miriad_wrap.cpp'])
    names = {base_name(n) for n in mu}
    for f in E.entries():
        h = crun(Caught(E.m, f, names), E.m)
        r.count('entry_points_followed')
        if h.catching:
            r.count('entry_points_that_catch')
            r.count('ways_out_after_a_caught_error', h.catching)
        for (k, text), (i, trail) in h.found.items():
            if k == 'swallowed':
                r.add('R7-swallowed', base_name(f.name), E.m.where(i), text, ['line %s' % (E.m.line(x),) for x in trail][-12:])


def installs_deep(m, g, j, installs, depth=0):
    if installs(j):
        return True
    if depth > 2:
        return False
    f = m.functions.get(j.callee())
    if f is None or len(f.order) > 6:
        return False
    dom = f.dominators()
    rets = [i for i in f.insts() if i.op == 'ret']
    return any(installs_deep(m, g, k, installs, depth + 1) and all(k.block in dom[x.block] for x in rets) for k in f.calls())
