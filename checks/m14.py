"""M14: what the caller passes stays as it was, objects are independent, and asking changes nothing."""
import ast
import os

from sa import alias, py
from sa.bounds import Bounds, Ctx, show
from sa.capi import Ext, run as crun
from sa.ir import base_name
from sa.native import native
from sa.report import Result, ROOT

# what each native entry point is documented to write: numbers of its positional arguments
NATIVE = {'aipy.utils': {'add2array': (0,)}, 'aipy._dsp': {'grid1D_c': (0,), 'grid2D_c': (0,), 'degrid2D_c': (3,)},
          'aipy._deconv': {'clean': (0, 2)}, 'aipy._miriad': {}}
NATIVE_MUT = {'%s.%s' % (e, f): a for e, fs in NATIVE.items() for f, a in fs.items()}
# the last argument of these is the list they add to (their own recursion)
ACCUMULATES = {('aipy.fit.flatten_prms', 'prm_list')}
# an array the object takes over, as documented: the map is the array it is given
ADOPTS = {('aipy.healpix.HealpixMap', 'map')}
# objects that are copied from
SOURCES = [('aipy.healpix.HealpixMap.from_hpm', 'hpm'), ('aipy.healpix.HealpixMap.from_alm', 'alm'),
           ('aipy.map.Map.from_map', 'map')]
COPY = {'copy', 'deepcopy', 'array', 'list', 'tuple', 'dict', 'tolist', 'flatten', 'float', 'int', 'astype'}


def run(tier):
    r = Result()
    r.rule('Every value in the Python sources is followed to the objects of the caller it may be (the same object, an element, a view '
           'of the same data, a part), through assignments, containers, numpy views, calls, constructors and inheritance; in-place '
           'operations are charged to those objects. No public function may change an argument, a default object shared by all calls, '
           'or an object shared by all instances; no method may change in place what its constructor was given; no query may change '
           'the object asked. Which arrays the native functions write is read off their IR.')
    A = alias.Alias(NATIVE_MUT)
    c = Check(r, A)
    c.read_api()
    c.arguments()
    c.defaults()
    c.shared()
    c.adopted()
    c.module_level()
    c.snapshots()
    c.queries()
    c.sources()
    natives(r)
    r.floor('public_functions', 200)
    r.floor('queries', 60)
    r.floor('classes', 30)
    r.floor('native_entry_points', 15)
    r.count('calls_followed', A.calls)
    r.assumptions = ['operations that are not recognised as sharing data produce new objects',
                     'attributes are assigned only by the code of this project',
                     'numpy.reshape, slicing, .T, ravel and asarray may share; arithmetic and indexing by arrays do not']
    return r


class Check:
    def __init__(self, r, A):
        self.r, self.A, self.pr = r, A, A.pr

    def read_api(self):
        self.api, self.query, self.memo = [], [], []
        for line in open(os.path.join(ROOT, 'checks', 'data', 'api.txt')):
            p = line.split()
            if p and p[0] == 'memo' and p[1] in self.pr.fn:
                self.memo.append((p[1], p[2]))
            if len(p) == 2 and p[1] in self.pr.fn:
                self.api.append(p[1])
                if p[0] == 'query':
                    self.query.append(p[1])
        self.r.count('public_functions', len(self.api))
        self.r.count('queries', len(self.query))

    def where(self, f, node):
        return '%s:%d' % (f.mod.path, getattr(node, 'lineno', 0))

    # -------------------------------------------------------------------- R1
    def arguments(self):
        for q in self.api:
            f = self.pr.fn[q]
            self.r.count('parameters', len(f.params) - (1 if f.cls and not f.static else 0) + len(f.kwonly))
            for (root, how, what), (node, via) in sorted(self.A.sum[q].mut.items(), key=str):
                if root[0] != 'param' or root[1] != q or root[2].startswith('*') or how == 'box':
                    continue
                if (q, root[2]) in ACCUMULATES:
                    continue
                self.r.add('E-argument', '%s/%s' % (q, root[2]), self.where(f, node),
                           '%s changes %s its argument %s in place (%s)%s'
                           % (short(q), {'id': '', 'view': 'the data of', 'elem': 'an element of', 'part': 'what is held by', 'pview': 'what is held by'}[how],
                              root[2], {'data': 'its contents', 'object': 'its shape or type', 'attr': 'an attribute'}[what],
                              ' through ' + ', '.join(via) if via else ''))

    # -------------------------------------------------------------------- R2
    def defaults(self):
        changed = {}
        for q, s in self.A.sum.items():
            for (root, how, what), (node, via) in s.mut.items():
                if root[0] == 'default' and how != 'box':
                    self.r.add('E-default', '%s/%s' % (root[1], root[2]), self.where(self.pr.fn[q], node),
                               '%s changes the default object of parameter %s of %s, which all calls share'
                               % (short(q), root[2], short(root[1])))
        n = sum(1 for f in self.pr.fn.values() for d in f.defaults.values() if alias.is_mutable_default(d))
        self.r.count('mutable_defaults', n)

    # --------------------------------------------------- per concrete class
    def family(self, c):
        """the methods an object of class c has"""
        out = {}
        for k in reversed(self.pr.mro(c)):
            out.update(k.methods)
        return out

    def reachable(self, c):
        """those, and the ones of its bases they call explicitly (their effects are in the callers' summaries)"""
        return self.family(c).values()

    # -------------------------------------------------------------------- R3
    def shared(self):
        for c in self.pr.all_classes():
            self.r.count('classes')
            assigned = self.assigned_by_init(c)
            for f in self.reachable(c):
                for (root, how, what), (node, via) in self.A.sum[f.qual].mut.items():
                    if root[0] == 'self' and how in ('id', 'elem', 'view') and what != 'attr':
                        attr = root[1]
                        if attr in assigned:
                            continue
                        owner = next((k for k in self.pr.mro(c) if attr in k.consts), None)
                        if owner is None or not self.mutable(owner.consts[attr]):
                            continue
                        self.r.add('E-shared', '%s.%s' % (owner.qual, attr), self.where(f, node),
                                   '%s changes %s, which is one object for all instances of %s (it is made in the class body and '
                                   'not by the constructor)' % (short(f.qual), attr, owner.name))
                    if root[0] == 'class':
                        owner = root[1]
                        if root[2] in assigned and f.qual.startswith(c.qual + '.'):
                            continue
                        self.class_root(c, f, root, node, assigned)

    def class_root(self, c, f, root, node, assigned):
        if root[2] in assigned:
            return
        k = next((k for k in self.pr.all_classes() if k.qual == root[1]), None)
        if k is None or root[2] not in k.consts or not self.mutable(k.consts[root[2]]):
            return
        self.r.add('E-shared', '%s.%s' % (root[1], root[2]), self.where(f, node),
                   '%s changes %s of the class %s, one object for all instances' % (short(f.qual), root[2], k.name))

    def mutable(self, d):
        return alias.is_mutable_default(d)

    def assigned_by_init(self, c):
        """attributes the constructor sets, itself or through methods of the object it calls"""
        out, seen, todo = set(), set(), []
        fam = self.family(c)
        if '__init__' in fam:
            todo.append(fam['__init__'])
        while todo:
            f = todo.pop()
            if f.qual in seen:
                continue
            seen.add(f.qual)
            recv = f.params[0] if f.params else None
            for n in f.walk():
                for t in targets(n):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == recv:
                        out.add(t.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == recv and n.func.attr in fam:
                        todo.append(fam[n.func.attr])
                    elif (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super') or \
                            (n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == recv):
                        for k in self.pr.mro(c):
                            if n.func.attr in k.methods and k.methods[n.func.attr].qual not in seen and (
                                    not isinstance(v, ast.Call) or k is not f.cls):
                                t = self.pr.resolve(f.mod, n.func)
                                m = t if isinstance(t, py.Func) else k.methods[n.func.attr]
                                todo.append(m)
                                if isinstance(t, py.Func):
                                    break
        return out

    # -------------------------------------------------------------------- R4
    def adopted(self):
        for c in self.pr.all_classes():
            muts, stores = {}, {}
            for f in self.reachable(c):
                s = self.A.sum[f.qual]
                for (root, how, what), (node, via) in s.mut.items():
                    if root[0] == 'self' and what != 'attr' and how not in ('part', 'pview'):
                        muts.setdefault(root[1], {}).setdefault('elem' if how == 'elem' else 'id', (f, node))
                for attr, root, how, line in s.store:
                    if root[0] in ('param', 'default') and not root[2].startswith('**'):
                        stores.setdefault(attr, []).append((f, root, how, line))
            for attr in sorted(set(muts) & set(stores)):
                takes = any((k.qual, attr) in ADOPTS for k in self.pr.mro(c))
                self.r.count('attributes_taken_from_callers')
                for f, root, how, line in stores[attr]:
                    if takes and how not in ('part', 'pview'):
                        continue
                    if f.name.startswith('_') and f.name != '__init__':
                        continue
                    m = muts[attr].get('id') if how in ('id', 'elem', 'view', 'part', 'pview') else muts[attr].get('elem') if how == 'box' else None
                    if m is None and how in ('id', 'elem', 'part') and 'elem' in muts[attr]:
                        m = muts[attr]['elem']
                    if m is None:
                        continue
                    if f is m[0] and how == 'box':
                        continue
                    self.r.add('E-adopted', '%s.%s' % (f.cls.qual if f.cls else f.qual, attr), self.where(m[0], m[1]),
                               '%s changes %s.%s in place; %s put there %s itself (line %d), so it is the caller\'s object that changes'
                               % (short(m[0].qual), c.name, attr, short(f.qual),
                                  'the default object of ' + root[2] if root[0] == 'default' else 'its argument ' + root[2], abs(line)))

    # -------------------------------------------------------------------- R6
    def module_level(self):
        for m in self.pr.mods.values():
            for g, v in m.globals.items():
                if alias.is_mutable_default(v):
                    self.r.count('module_level_objects')
        for q, s in sorted(self.A.sum.items()):
            if q.startswith('scripts.'):
                continue
            for (root, how, what), (node, via) in sorted(s.mut.items(), key=str):
                if root[0] != 'global' or how == 'box':
                    continue
                m = self.pr.mods.get(root[1])
                v = m and m.globals.get(root[2])
                if v is None or not isinstance(v, (ast.List, ast.Dict, ast.Set)) or not (
                        v.keys if isinstance(v, ast.Dict) else v.elts):
                    continue
                self.r.add('E-global', '%s/%s.%s' % (q, root[1], root[2]), self.where(self.pr.fn[q], node),
                           '%s changes the module table %s' % (short(q), root[2]))

    # -------------------------------------------------------------------- R5
    def snapshots(self):
        """get_params reports values: not the live arrays that set_params or the drift of a model change in place"""
        for c in self.pr.all_classes():
            fam = self.family(c)
            f = fam.get('get_params')
            if f is None:
                continue
            muts = {}
            for g in self.reachable(c):
                for (root, how, what), (node, via) in self.A.sum[g.qual].mut.items():
                    if root[0] == 'self' and what != 'attr' and how not in ('part', 'pview'):
                        muts.setdefault(root[1], {}).setdefault('elem' if how == 'elem' else 'id', (g, node))
            self.r.count('reports_of_parameters')
            for root, how in self.A.sum[f.qual].ret:
                if root[0] == 'self' and how in ('box', 'elem') and root[1] in muts:
                    if 'elem' not in muts[root[1]] and not self.whole(f, root[1]):
                        continue
                    g, node = next(iter(muts[root[1]].values()))
                    self.r.add('E-snapshot', '%s.%s' % (f.qual, root[1]), self.where(f, f.node),
                               'the parameters %s reports are the live object %s, which %s changes in place (line %d)'
                               % (short(f.qual), root[1], short(g.qual), node.lineno))

    def whole(self, f, attr):
        """the attribute itself (not its elements) is put in the report"""
        recv = f.params[0]
        for n in f.walk():
            vals = []
            if isinstance(n, ast.Dict):
                vals = n.values
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets):
                vals = [n.value]
            for v in vals:
                if isinstance(v, ast.Attribute) and v.attr == attr and isinstance(v.value, ast.Name) and v.value.id == recv:
                    return True
        return False

    # -------------------------------------------------------------------- R7
    def effects(self):
        pr, eff = self.pr, {}
        for q, f in pr.fn.items():
            if f.cls is None or not f.params or f.static:
                continue
            e = {}
            recv = f.params[0]
            for n in f.walk():
                for t in targets(n):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == recv \
                                and isinstance(x.ctx, (ast.Store, ast.Del)):
                            e.setdefault(x.attr, (f, n))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args \
                        and isinstance(n.args[0], ast.Name) and n.args[0].id == recv:
                    a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                    e.setdefault(a, (f, n))
            for (root, how, what), (node, via) in self.A.sum[q].mut.items():
                if root[0] == 'self' and how != 'box':
                    e.setdefault(root[1], (f, node))
            eff[q] = e
        changed = True
        while changed:
            changed = False
            for q, f in pr.fn.items():
                if q not in eff:
                    continue
                recv = f.params[0]
                for n in f.walk():
                    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                        continue
                    v, g = n.func.value, None
                    if isinstance(v, ast.Name) and v.id == recv:
                        g = [pr.method(f.cls, n.func.attr)]
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                        g = [next((k.methods[n.func.attr] for k in pr.mro(f.cls)[1:] if n.func.attr in k.methods), None)]
                    elif n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == recv:
                        t = pr.resolve(f.mod, n.func)
                        g = [t] if isinstance(t, py.Func) and t.cls else None
                    elif self.part_of(v, recv):
                        # a method of a part of the object: an effect when every method of that name has one
                        cs = [k.methods[n.func.attr] for k in pr.all_classes() if n.func.attr in k.methods]
                        if cs and all(eff.get(m.qual) for m in cs):
                            a = self.part_of(v, recv)
                            if a not in eff[q]:
                                eff[q][a] = (f, n)
                                changed = True
                        continue
                    for m in g or ():
                        if m is None:
                            continue
                        for a, w in eff.get(m.qual, {}).items():
                            if a not in eff[q]:
                                eff[q][a] = (f, n)
                                changed = True
        return eff

    def part_of(self, v, recv):
        a = None
        while isinstance(v, (ast.Attribute, ast.Subscript)):
            if isinstance(v.value, ast.Name) and v.value.id == recv:
                return v.attr if isinstance(v, ast.Attribute) else '[]'
            v = v.value
        return None

    def readers(self, attr):
        out = set()
        for q, f in self.pr.fn.items():
            for n in f.walk():
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                    out.add(q)
        return out

    def queries(self):
        self.eff = self.effects()
        for q in self.query:
            f = self.pr.fn[q]
            for a, (g, node) in sorted(self.eff.get(q, {}).items()):
                if a in self.attrs_private_to(f):
                    continue
                self.r.add('E-query', '%s/%s' % (q, a), self.where(f, node),
                           '%s changes %s of the object it is asked about' % (short(q), a))

        # queries that remember: entries may be added to the memory, what is in it stays, and nothing else changes
        for q, memo in self.memo:
            f = self.pr.fn[q]
            self.r.count('queries')
            for (root, how, what), (node, via) in sorted(self.A.sum[q].mut.items(), key=str):
                if root == ('self', memo) and how != 'id':
                    self.r.add('E-query', '%s/%s' % (q, memo), self.where(f, node),
                               '%s changes in place what is kept in %s for later calls' % (short(q), memo))
            for a, (g, node) in sorted(self.eff.get(q, {}).items()):
                if a != memo and a not in self.attrs_private_to(f):
                    self.r.add('E-query', '%s/%s' % (q, a), self.where(f, node),
                               '%s changes %s of the object it is asked about' % (short(q), a))

    def attrs_private_to(self, f):
        """attributes nothing but this method (and what it alone calls) reads: a memory of its own"""
        if not hasattr(self, '_reads'):
            self._reads = {}
            for q, g in self.pr.fn.items():
                for n in g.walk():
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        self._reads.setdefault(n.attr, set()).add(g)
        out = set()
        for a, gs in self._reads.items():
            if all(g is f or g.name.startswith('_') and self.only_called_by(g, f) or
                   self.writes_too(g, a) and g.name in ('__init__',) for g in gs):
                out.add(a)
        # attributes that are never read
        class All(set):
            def __contains__(s, a):
                return set.__contains__(s, a) or (a not in self._reads and a not in ('?', '[]'))
        return All(out)

    def only_called_by(self, g, f):
        for h in self.pr.fn.values():
            if h is f or h is g:
                continue
            for n in h.walk():
                if isinstance(n, ast.Call) and py.callee_name(n) == g.name:
                    return False
        return True

    def writes_too(self, g, a):
        return any(isinstance(t, ast.Attribute) and t.attr == a for n in g.walk() for t in targets(n))

    # ------------------------------------------------------------------- R7b
    def sources(self):
        for q, p in SOURCES:
            f = self.pr.fn.get(q)
            if f is None or p not in f.params:
                continue
            self.r.count('sources_of_copies')
            calls = [n for n in f.walk() if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                     and isinstance(n.func.value, ast.Name) and n.func.value.id == p]
            for n in calls:
                cs = [k.methods[n.func.attr] for k in self.pr.all_classes() if n.func.attr in k.methods]
                if not cs or not all(self.real_effect(m) for m in cs):
                    continue
                again = [m for m in calls if m is not n and m.func.attr == n.func.attr]
                if again:
                    continue
                self.r.add('E-source', '%s/%s.%s' % (q, p, n.func.attr), self.where(f, n),
                           '%s calls %s.%s, which changes the object that is copied from, and does not change it back'
                           % (short(q), p, n.func.attr))

    def real_effect(self, m):
        return bool(set(self.eff.get(m.qual, {})) - self.attrs_private_to(m) if self.eff.get(m.qual) else False)


def targets(n):
    if isinstance(n, ast.Assign):
        ts = n.targets
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        ts = [n.target]
    elif isinstance(n, (ast.For, ast.comprehension)):
        ts = [n.target]
    elif isinstance(n, ast.With):
        ts = [i.optional_vars for i in n.items if i.optional_vars is not None]
    elif isinstance(n, ast.Delete):
        ts = n.targets
    else:
        return []
    out = []
    for t in ts:
        out += [x.value if isinstance(x, ast.Starred) else x for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
    return out


def short(q):
    return '.'.join(q.split('.')[1:])


# ------------------------------------------------------------------------ R8
def natives(r):
    from checks import m10
    unw = {base_name(n) for n in native().mu}
    types = m10.htypes()
    scratch = Result()
    for ext, only in m10.EXTS:
        E = Ext(ext, only)
        repo = {f.name for f in E.m.repo_defined()}
        names = method_names(E, ext)
        for f in E.entries():
            r.count('native_entry_points')
            py_name = names.get(base_name(f.name), base_name(f.name))
            allowed = NATIVE.get(ext, {}).get(py_name, ())
            h = Writes(E.m, f, unw if ext == 'aipy._miriad' else None, types, repo, scratch)
            crun(h, E.m, relational=True)
            got = dict(h.direct)
            for (kn, _), (site, args, st) in h.kernels.items():
                k = E.m.functions.get(kn)
                if k is None or not k.blocks:
                    continue
                B = Bounds(k, {reg: a for (ty, reg), a in zip(k.params, args)}, Ctx(st, h))
                for x in k.insts():
                    if x.op != 'store':
                        continue
                    a = B.addr(x.ops[1])
                    if a and a[0][0] in ('data', 'walk'):
                        r.count('native_writes')
                        got.setdefault(show(a[0][1]), x)
            for a, x in sorted(got.items()):
                if not a.startswith('arg') or not a[3:].isdigit():
                    continue
                if int(a[3:]) not in allowed:
                    r.add('E-native', '%s.%s/%s' % (ext, py_name, a), E.m.where(x),
                          'argument %s of %s.%s is written; the function is documented to write %s'
                          % (int(a[3:]) + 1, ext, py_name,
                             'only argument ' + ', '.join(str(k + 1) for k in allowed) if allowed else 'none of its arguments'))


def method_names(E, ext):
    """C function -> name Python calls it by; clean is written for two kinds of array behind one name"""
    out = {}
    for n in E.eps:
        b = base_name(n)
        out[b] = b[5:] if b.startswith('wrap_') else b
    return out


def make_writes():
    from checks import m10

    class W(m10.Hooks):
        def __init__(self, *a):
            m10.Hooks.__init__(self, *a)
            self.direct = {}

        def store(self, sim, st, i, loc, val):
            from sa.pathsim import root
            t = root(loc)
            if t[0] == 'data':
                self.direct.setdefault(show(t[1]), i)
            return m10.Hooks.store(self, sim, st, i, loc, val)
    return W


def Writes(*a):
    return make_writes()(*a)
