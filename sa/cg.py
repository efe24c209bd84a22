"""Call graph, entry points and unwinding over a linked IR module."""
import re
from sa.ir import AnalysisBroken, base_name


def global_refs(mod, gname):
    return re.findall(r'@("?[\w.$]+"?)', mod.globals.get(gname, ''))


def entry_points(mod):
    """functions Python can reach: everything referenced from method tables,
    type objects and module definitions, and PyInit_*.  Returns {fn: how}"""
    out = {}
    for n in mod.functions:
        if n.startswith('PyInit_'):
            out[n] = 'module initialisation'
    for g, text in mod.globals.items():
        m = re.match(r'.*?(?:global|constant) (%?"?[\w.]+|\[\d+ x [^\]]*\])', text)
        if 'PyMethodDef' in text or '_typeobject' in text or 'PyGetSetDef' in text or 'PyType_S' in text:
            for r in global_refs(mod, g):
                r = r.strip('"')
                if r in mod.functions:
                    out.setdefault(r, g)
    # slots assigned at run time: a store of a function address outside any call
    for f in mod.repo_defined():
        for i in f.insts():
            if i.op == 'store' and i.ops[0][0] == 'glob' and i.ops[0][1] in mod.functions \
                    and f.name.startswith('PyInit_'):
                out.setdefault(i.ops[0][1], 'slot set in ' + f.name)
    return out


class CallGraph:
    def __init__(self, mod):
        self.mod = mod
        self.terminating = []   # invokes whose landing pad is std::terminate
        self.targets = {}      # inst -> set of callee names (may include externals); None if unknown
        self.addr_taken = {}
        # function pointer variables: global pointers assigned function addresses
        self.gptr = {}
        params_fp = {}
        for f in mod.functions.values():
            for i in f.insts():
                if i.op == 'store' and i.ops[1][0] == 'glob':
                    self.gptr.setdefault(i.ops[1][1], []).append((f, i.ops[0]))
                if i.op in ('call', 'invoke') and i.callee():
                    for k, a in enumerate(i.x['args']):
                        if a[0] == 'glob' and a[1] in mod.functions:
                            params_fp.setdefault((i.callee(), k), set()).add(a[1])
        self.params_fp = params_fp
        self.callers = {}
        for f in mod.functions.values():
            for i in f.calls():
                ts = self.resolve(i)
                self.targets[id(i)] = ts
                for t in ts or ():
                    self.callers.setdefault(t, []).append(i)

    def resolve(self, i):
        if i.callee():
            return {i.callee()}
        return self.resolve_val(i.fn, i.x['calleev'], 0)

    def resolve_val(self, fn, v, depth):
        """possible functions a pointer value denotes (None = unknown)"""
        if depth > 8:
            return None
        if v[0] == 'glob':
            return {v[1]} if v[1] in self.mod.functions or v[1] in self.mod.decls else None
        if v[0] == 'null' or v[0] == 'int':
            return set()
        if v[0] == 'reg':
            for k, (ty, r) in enumerate(fn.params):
                if r == v[1]:
                    return self.params_fp.get((fn.name, k))
            d = fn.defs.get(v[1])
            if d is None:
                return None
            if d.op == 'load' and d.ops[0][0] == 'glob' and d.ops[0][1] in self.gptr:
                out = set()
                for g, val in self.gptr[d.ops[0][1]]:
                    r = self.resolve_val(g, val, depth + 1)
                    if r is None:
                        return None
                    out |= r
                return out
            if d.op in ('phi', 'select'):
                out = set()
                vs = [x for x, _ in d.x['inc']] if d.op == 'phi' else d.ops[1:]
                for x in vs:
                    r = self.resolve_val(fn, x, depth + 1)
                    if r is None:
                        return None
                    out |= r
                return out
            if d.op == 'bitcast':
                return self.resolve_val(fn, d.ops[0], depth + 1)
        return None

    def reachable(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            n = work.pop()
            f = self.mod.functions.get(n)
            if not f:
                continue
            for i in f.calls():
                for t in self.targets[id(i)] or ():
                    if t not in seen:
                        seen.add(t)
                        work.append(t)
        return seen

    # ---- unwinding of the project's exception
    def catches(self, fn, inst, typeinfo):
        """does the landing pad of this invoke stop the exception?"""
        pad = fn.blocks[inst.x['unwind']]
        if any(p.callee() == '__clang_call_terminate' for p in pad.insts):
            self.terminating.append(inst)
            return False
        for p in pad.insts:
            if p.op == 'landingpad':
                for k, v in p.x['clauses']:
                    if k == 'catch' and (v[0] == 'null' or v[0] == 'glob' and v[1] == typeinfo):
                        return True
                return False
        return False

    def may_unwind(self, sources, keep=None):
        """{function: (inst, callee or 'throw')} for every function out of which
        an exception raised by a __cxa_throw of `sources`' typeinfo may escape.
        sources: predicate(inst) -> typeinfo name or None
        keep: predicate(call inst) -> False if this call is known not to raise"""
        out = {}
        typeinfos = set()
        for f in self.mod.functions.values():
            for i in f.calls('__cxa_throw', '__cxa_rethrow'):
                t = sources(i)
                if t is None:
                    continue
                typeinfos.add(t)
                if i.op == 'invoke' and self.catches(f, i, t):
                    continue
                out.setdefault(f.name, (i, 'throw'))
        self.typeinfos = typeinfos
        work = list(out)
        while work:
            n = work.pop()
            for i in self.callers.get(n, ()):
                f = i.fn
                if f.name in out or keep and not keep(i):
                    continue
                if i.op == 'invoke' and all(self.catches(f, i, t) for t in typeinfos):
                    continue
                out[f.name] = (i, n)
                work.append(f.name)
        return out
