"""The MIRIAD extension as a whole: which errors throw, what runs while a
recovery handler is installed, which functions release what."""
import os
import re

from sa import ir, cg
from sa.ir import AnalysisBroken, base_name
from sa.sccp import SCCP
from checks import m01

EXIT = m01.EXIT


class Native:
    def __init__(self, m=None):
        self.m, self.g, self.eps, self.handlers, self.mu, self.throwers = m01.model(m)
        self._nr = {}
        self._ex = {}

    def bind(self, i):
        if i.op == 'load' and i.ops[0][0] == 'glob' and i.ops[0][1] in self.handlers:
            return 1
        return None

    def never_returns(self, callee, args=()):
        """with the recovery handler installed, and the constant arguments known, does the call return?"""
        if callee in ('__cxa_throw', '__cxa_rethrow') or callee in EXIT or callee in self.throwers:
            return True
        f = self.m.functions.get(callee)
        if f is None:
            return False
        key = (callee, tuple(args))
        if key not in self._nr:
            self._nr[key] = False
            consts = {f.params[k][1]: a for k, a in enumerate(args) if a is not None and k < len(f.params)}
            s = SCCP(f, params=consts, bind=self.bind, noreturn=self._stop(f, consts))
            self._nr[key] = not any(i.op == 'ret' for i in s.insts())
        return self._nr[key]

    def _stop(self, f, consts):
        def stop(i):
            if m01.is_handler_call(f, i, self.handlers):
                return True
            c = i.callee()
            if not c:
                return False
            a = []
            for x in i.x['args']:
                if x[0] == 'int':
                    a.append(x[1])
                elif x[0] == 'reg' and x[1] in consts:
                    a.append(consts[x[1]])
                else:
                    a.append(None)
            return self.never_returns(c, a)
        return stop

    def stops(self, i, args=None):
        """this call instruction does not return (args: optional list of ints/None)"""
        if m01.is_handler_call(i.fn, i, self.handlers):
            return True
        c = i.callee()
        if not c:
            return False
        if args is None:
            args = [x[1] if x[0] == 'int' else None for x in i.x['args']]
        return self.never_returns(c, args)

    def executable(self, f):
        """instructions executable while a recovery handler is installed (any arguments)"""
        if f.name not in self._ex:
            s = SCCP(f, bind=self.bind, noreturn=self._stop(f, {}))
            self._ex[f.name] = set(map(id, s.insts()))
        return self._ex[f.name]

    def reach(self, roots, cut=()):
        """functions reachable over executable calls; {name: calling inst}"""
        seen = {r: None for r in roots}
        work = list(roots)
        while work:
            n = work.pop()
            f = self.m.functions.get(n)
            if not f:
                continue
            ex = self.executable(f)
            for i in f.calls():
                if id(i) not in ex:
                    continue
                for t in self.g.targets[id(i)] or ():
                    if t not in seen and t not in cut:
                        seen[t] = i
                        work.append(t)
        return seen

    def path(self, seen, n):
        out = []
        while n and seen.get(n) is not None and len(out) < 20:
            i = seen[n]
            out.append('%s: %s calls %s' % (self.m.where(i), base_name(i.fn.name), base_name(n)))
            n = i.fn.name
        return out[::-1]

    def param_flows(self, sink):
        """{function: set of parameter indices that are handed to a sink}; sink: {callee: arg index}"""
        out = {}
        for n, k in sink.items():
            out.setdefault(n, set()).add(k)
        changed = True
        while changed:
            changed = False
            for f in self.m.functions.values():
                regs = {r: k for k, (ty, r) in enumerate(f.params)}
                for i in f.calls():
                    for k in out.get(i.callee(), ()):
                        if k < len(i.x['args']):
                            a = i.x['args'][k]
                            a = strip(f, a)
                            if a[0] == 'reg' and a[1] in regs and regs[a[1]] not in out.get(f.name, ()):
                                out.setdefault(f.name, set()).add(regs[a[1]])
                                changed = True
        return out


def strip(f, v):
    for _ in range(8):
        if v[0] != 'reg':
            return v
        d = f.defs.get(v[1])
        if d is None or d.op not in ('bitcast', 'sext', 'zext', 'trunc', 'freeze'):
            return v
        v = d.ops[0]
    return v


_N = None


_FLAT = None


def flat():
    """The same with helper functions written out where they are called: the small private ones, and whatever
    functions the package has come to be split into since the rules were written (miriad_functions.txt: what they know)."""
    global _FLAT
    if _FLAT is None:
        known = {}
        with open(os.path.join(os.path.dirname(__file__), 'miriad_functions.txt')) as fh:
            for line in fh:
                w = line.split()
                known[w[0]] = len(w) > 1

        def pick(name, linkage):
            base = name if name in known else re.sub(r'\.\d+$', '', name)
            if base in known:
                return known[base] and 'internal' in linkage
            return 'internal' in linkage or not name.startswith('_Z') and not name.startswith('PyInit')
        _FLAT = Native(ir.compile_extension('aipy._miriad', inline=pick))
    return _FLAT


def native():
    global _N
    if _N is None:
        _N = Native()
    return _N


def paths_from(insts, stop):
    """instructions reachable after the given ones without passing a stop instruction"""
    seen = set()
    out = []
    work = []
    for i in insts:
        work.append((i.block, i.idx + 1, i.fn))
    while work:
        b, k, f = work.pop()
        blk = f.blocks[b]
        halted = False
        for i in blk.insts[k:]:
            if id(i) in seen:
                halted = True
                break
            seen.add(id(i))
            out.append(i)
            if stop(i):
                halted = True
                break
        if not halted:
            for s in blk.succ:
                work.append((s, 0, f))
    return out
