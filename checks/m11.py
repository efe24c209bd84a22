"""M11: every name, attribute, call and option the Python code uses exists and fits."""
import ast
import re

from sa import names, py
from sa.names import OUT, BUILTINS
from sa.py import Class, Func, Module
from sa.report import Result

DICTVIEW = {'keys': 'collections.abc.KeysView', 'values': 'collections.abc.ValuesView', 'items': 'collections.abc.ItemsView'}
LAZY = {'map': 'map', 'filter': 'filter', 'zip': 'zip', 'range': 'range', 'enumerate': 'enumerate', 'reversed': 'reversed'}


class Mod:
    """one module with its scopes"""

    def __init__(self, m):
        self.m = m
        self.root, self.scopes = names.scopes(m)
        self.open = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'execfile')
                        or isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and py.callee_name(n.value) == 'globals'
                        or isinstance(n, ast.Call) and py.callee_name(n) == 'update' and isinstance(n.func, ast.Attribute)
                        and isinstance(n.func.value, ast.Call) and py.callee_name(n.func.value) in ('globals', 'vars', 'locals')
                        for sc, nodes in self.scopes if sc.kind == 'module' for n in nodes)
        self.where = {}
        for sc, nodes in self.scopes:
            for n in nodes:
                self.where[id(n)] = sc


class Check:
    def __init__(self, r):
        self.r = r
        self.p = py.project()
        self.native = names.Native()
        self.mods = {n: Mod(m) for n, m in list(self.p.mods.items()) + list(self.p.scripts.items())}
        self.loaded = self.closure()
        self.attr_cache = {}
        self.optvars = {}       # module -> names of its parsed options
        self.parents = {}
        for M in self.mods.values():
            for n in ast.walk(M.m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[id(c)] = n

    # ------------------------------------------------------------ modules
    def closure(self):
        """in-repo modules that importing the package loads"""
        seen, work = set(), ['aipy']
        while work:
            n = work.pop()
            if n in seen or n not in self.p.mods:
                continue
            seen.add(n)
            if '.' in n:
                work.append(n.rsplit('.', 1)[0])
            m = self.p.mods[n]
            for t in m.imports.values():
                p = t.split('.')
                work += ['.'.join(p[:k]) for k in range(1, len(p) + 1)]
            work += m.stars
        return seen

    def member(self, m, name):
        """what attribute `name` of an in-repo module is: an object as py.Project.target gives, ('native', ext[, name]), or None if there is none"""
        if m.name + '.' + name in self.native.mods:
            return ('native', m.name + '.' + name)
        if name in m.imports:
            return self.target(m.imports[name])
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in self.mods[m.name].root.names:
            return ('global', m, name)
        sub = m.name + '.' + name
        if sub in self.p.mods:
            return self.p.mods[sub] if sub in self.loaded else None
        if sub in self.native.mods or name == '_version':
            return ('native', sub) if sub in self.native.mods else ('open',)
        for s in m.stars:
            b = self.target(s)
            if isinstance(b, Module):
                x = self.member(b, name)
                if x is not None:
                    return x
            elif isinstance(b, tuple) and b[0] == 'ext':
                rec = OUT[b[1]]
                if rec['st'] != 'ok' or name in rec.get('dir', ()):
                    return ('ext', b[1] + '.' + name)
            else:
                return ('open',)
        if name in BUILTINS and name.startswith('__') or '__getattr__' in m.funcs or self.mods[m.name].open:
            return ('open',)
        return None

    def target(self, dotted, depth=0):
        if dotted in self.p.mods:
            return self.p.mods[dotted]
        if dotted in self.native.mods:
            return ('native', dotted)
        if dotted == 'aipy._version' or depth > 8:
            return ('open',)
        if '.' in dotted:
            b = self.target(dotted.rsplit('.', 1)[0], depth + 1)
            return self.attr(b, dotted.rsplit('.', 1)[1])
        return ('ext', dotted)

    def attr(self, b, name):
        """attribute of a resolved thing; None = does not exist; ('open',) = cannot tell"""
        if b is None:
            return ('open',)
        if isinstance(b, Module):
            return self.member(b, name)
        if isinstance(b, Class):
            f = self.p.method(b, name)
            if f:
                return f
            a = self.attrs(b)
            return ('open',) if a is None or name in a else None
        if isinstance(b, Func):
            return ('open',)
        if b[0] == 'native':
            if len(b) > 2:
                return ('open',)
            if name in self.native.mods[b[1]]:
                return ('native', b[1], name)
            return ('open',) if name.startswith('__') else None
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        return ('open',)

    # ------------------------------------------------------------ classes
    def attrs(self, c, up=True):
        """attributes an instance of the class may have: a set, or None if that cannot be told"""
        if c in self.attr_cache:
            return self.attr_cache[c]
        self.attr_cache[c] = None
        out = set(dir(object)) | {'__dict__', '__module__', '__weakref__', '__name__'}
        for k in self.p.mro(c):
            out |= set(k.methods) | set(names.bound_in(k.node.body))
            if '__getattr__' in k.methods or '__getattribute__' in k.methods:
                return None
            for b in k.node.bases:
                t = self.expr_target(k.mod, b)
                if isinstance(t, Class):
                    continue
                if isinstance(t, tuple) and t[0] == 'ext':
                    rec = OUT[t[1]]
                    if rec['st'] != 'ok' or 'dir' not in rec or rec.get('open'):
                        return None
                    out |= set(rec['dir'])
                elif isinstance(t, tuple) and t[0] == 'native' and len(t) == 3:
                    ms, mem = self.native.types[t[1]]
                    out |= set(ms) | mem
                else:
                    return None
            for f in k.methods.values():
                if f.static:
                    continue
                me = f.params[0] if f.params else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and py.callee_name(n) in ('setattr', '__setattr__') and any(
                            isinstance(a, ast.Name) and a.id == me for a in n.args):
                        names_ = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                        if not names_:
                            return None
                        out |= set(names_)
                    elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id == me:
                        return None
        self.attr_cache[c] = out
        return out

    def outside_attrs(self):
        """attribute names assigned on something other than self, anywhere: objects may be given them from outside"""
        if not hasattr(self, '_oa'):
            self._oa = set()
            for M in self.mods.values():
                for n in ast.walk(M.m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        self._oa.add(n.attr)
        return self._oa

    # -------------------------------------------------------- expressions
    def expr_target(self, m, node, scope=None):
        """what a Name/Attribute chain denotes if its base is bound at module level by an import, def or class; else ('open',)"""
        if isinstance(node, ast.Name):
            M = self.mods[m.name]
            if scope is not None:
                s = scope.lookup(node.id)
                if s is not None and s.kind != 'module':
                    # a local import denotes what it imports
                    b = s.names[node.id]
                    if len(b) == 1 and isinstance(b[0], (ast.Import, ast.ImportFrom)):
                        return self.target(m.imports[node.id]) if node.id in m.imports else ('open',)
                    if len(b) == 1 and isinstance(b[0], ast.FunctionDef) and s.kind == 'func':
                        return Func(m, b[0], None, None)
                    return ('open',)
            b = M.root.names.get(node.id)
            if b is None:
                x = self.member(m, node.id)
                if x is not None:
                    return x
                return ('ext', node.id) if node.id in BUILTINS else ('open',)
            kinds = {type(x) for x in b}
            if kinds <= {ast.Import, ast.ImportFrom}:
                # alternatives (try: import a; except: import b) denote the first that is installed
                ts = []
                for x in b:
                    for a in x.names:
                        if (a.asname or (a.name.split('.')[0] if isinstance(x, ast.Import) else a.name)) == node.id:
                            ts.append(self.import_target(m, x, a))
                for t in ts[:-1]:
                    if isinstance(t, tuple) and t[0] == 'ext' and OUT[t[1]]['st'] != 'ok':
                        continue
                    return t
                return ts[-1]
            if len(b) == 1 and kinds == {ast.FunctionDef}:
                return m.funcs.get(node.id, ('open',))
            if len(b) == 1 and kinds == {ast.ClassDef}:
                return m.classes.get(node.id, ('open',))
            if len(b) == 1 and node.id in m.globals and isinstance(m.globals[node.id], (ast.Name, ast.Attribute)):
                return self.expr_target(m, m.globals[node.id])      # alias at module level
            return ('open',)
        if isinstance(node, ast.Attribute):
            b = self.expr_target(m, node.value, scope)
            if isinstance(b, tuple) and b[0] == 'open':
                return b
            return self.attr(b, node.attr) or ('open',)
        return ('open',)

    def import_target(self, m, n, a):
        if isinstance(n, ast.Import):
            return self.target(a.name if a.asname else a.name.split('.')[0])
        base = n.module or ''
        if n.level:
            pkg = m.name if m.path.endswith('__init__.py') else m.name.rsplit('.', 1)[0]
            p = pkg.split('.')
            p = p[:len(p) - (n.level - 1)]
            base = '.'.join(p + ([n.module] if n.module else []))
        return self.attr(self.target(base), a.name) if not base + '.' + a.name in self.p.mods else self.p.mods[base + '.' + a.name]

    # --------------------------------------------------------------- types
    def type_of(self, m, node, scope, cls=None, me=None, depth=0):
        """the class an expression is an instance of: a Class, ('ext', name), ('native', ext, type); None if unknown"""
        if depth > 4:
            return None
        if isinstance(node, (ast.Dict, ast.DictComp)):
            return ('ext', 'dict')
        if isinstance(node, (ast.List, ast.ListComp)):
            return ('ext', 'list')
        if isinstance(node, ast.Tuple):
            return ('ext', 'tuple')
        if isinstance(node, ast.Constant) and isinstance(node.value, (str, int, float)) and not isinstance(node.value, bool):
            return ('ext', type(node.value).__name__)
        if isinstance(node, ast.JoinedStr):
            return ('ext', 'str')
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in LAZY and scope.lookup(node.func.id) is None:
                return ('ext', LAZY[node.func.id])
            t = self.expr_target(m, node.func, scope)
            if isinstance(t, Class):
                return t
            if isinstance(t, tuple) and t[0] == 'ext':
                rec = OUT[t[1]]
                if rec.get('kind') == 'class':
                    return t
                return None
            if isinstance(t, tuple) and t[0] == 'native' and len(t) == 3 and self.native.mods[t[1]].get(t[2]) == 'type':
                return t
            if isinstance(node.func, ast.Attribute) and node.func.attr in DICTVIEW:
                b = self.type_of(m, node.func.value, scope, cls, me, depth + 1)
                if b == ('ext', 'dict'):
                    return ('ext', DICTVIEW[node.func.attr])
            return None
        if isinstance(node, ast.Name):
            if me is not None and node.id == me:
                s = scope.lookup(node.id)
                if s is not None and s.kind == 'func' and all(isinstance(x, ast.arguments) for x in s.names[node.id]):
                    return cls
                return None
            s = scope.lookup(node.id)
            if s is None:
                return None
            got = []
            if len(s.names[node.id]) == 1:
                pa = self.parents.get(id(s.names[node.id][0]))
                if isinstance(pa, (ast.For, ast.comprehension)) and pa.target is s.names[node.id][0]:
                    return self.elem_type(m, pa.iter, s.parent if isinstance(pa, ast.comprehension) else s, cls, me, depth + 1)
            for x in s.names[node.id]:
                pa = self.parents.get(id(x))
                if isinstance(x, ast.Name) and isinstance(pa, ast.Assign) and x in pa.targets and len(pa.targets) == 1:
                    got.append((s, pa.value))
                else:
                    return None
            if not got:
                return None
            ts = []
            for sc, v in got:
                if any(isinstance(y, ast.Name) and y.id == node.id for y in ast.walk(v)):
                    return None
                t = self.type_of(m, v, sc, cls, me, depth + 1)
                if t is None:
                    return None
                if t not in ts:
                    ts.append(t)
            return ts[0] if len(ts) == 1 else None
        if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            return self.elem_type(m, node.value, scope, cls, me, depth + 1)
        if isinstance(node, ast.Attribute) and cls is not None and isinstance(node.value, ast.Name) and node.value.id == me:
            return self.attr_type(cls, node.attr, depth + 1)
        return None

    def elem_type(self, m, node, scope, cls, me, depth):
        """type of the elements of a list that is an instance attribute, from everything put into it in the class family"""
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            node = node.value
        if not (isinstance(node, ast.Attribute) and cls is not None and isinstance(node.value, ast.Name) and node.value.id == me) or depth > 3:
            return None
        name, got = node.attr, []
        if name in self.outside_attrs():
            return None
        fam = set()
        for k in self.p.subclasses(cls) or [cls]:
            fam.update(self.p.mro(k))
        for k in sorted(fam, key=lambda c: c.qual):
            for f in k.methods.values():
                if f.static or not f.params:
                    continue
                for n in ast.walk(f.node):
                    if not (isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == f.params[0]):
                        continue
                    pa = self.parents.get(id(n))
                    vals = []
                    if isinstance(n.ctx, ast.Store):
                        if not (isinstance(pa, ast.Assign) and pa.targets == [n]):
                            return None
                        v = pa.value
                        if isinstance(v, ast.List):
                            vals = v.elts
                        elif isinstance(v, ast.ListComp):
                            vals = [v.elt]
                        elif isinstance(v, ast.Subscript) and ast.unparse(v.value) == ast.unparse(n) and isinstance(v.slice, ast.Slice):
                            vals = []
                        else:
                            return None
                    elif isinstance(pa, ast.Attribute):
                        c = self.parents.get(id(pa))
                        if isinstance(c, ast.Call) and c.func is pa:
                            if pa.attr == 'append' and len(c.args) == 1:
                                vals = c.args
                            elif pa.attr in ('extend', 'insert', '__setitem__', '__iadd__'):
                                return None
                    elif isinstance(pa, ast.Subscript) and isinstance(pa.ctx, ast.Store) or isinstance(pa, ast.AugAssign):
                        if not isinstance(self.parents.get(id(pa)), ast.AugAssign):
                            return None
                    elif isinstance(pa, ast.Call) and n in pa.args and py.callee_name(pa) not in ('len', 'enumerate', 'zip', 'range', 'min', 'max', 'list', 'iter'):
                        return None
                    for v in vals:
                        sc = self.mods[k.mod.name].where.get(id(v))
                        t = self.type_of(k.mod, v, sc, k, f.params[0], depth + 1) if sc is not None else None
                        if t is None:
                            return None
                        if t not in got:
                            got.append(t)
        return got[0] if len(got) == 1 else None

    def attr_type(self, cls, name, depth=0):
        """type of an instance attribute if every assignment to it in the class and its relatives gives the same"""
        got = []
        fam = set()
        for k in self.p.subclasses(cls) or [cls]:
            fam.update(self.p.mro(k))
        for k in sorted(fam, key=lambda c: c.qual):
            if name in k.methods or name in k.consts:
                return None
            for f in k.methods.values():
                if f.static or not f.params:
                    continue
                sc = None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id == f.params[0]:
                        pa = self.parents.get(id(n))
                        if not (isinstance(pa, ast.Assign) and pa.targets == [n]):
                            return None
                        M = self.mods[k.mod.name]
                        sc = M.where.get(id(n))
                        if sc is None:
                            return None
                        t = self.type_of(k.mod, pa.value, sc, k, f.params[0], depth + 1)
                        if t is None:
                            return None
                        if t not in got:
                            got.append(t)
        if name in self.outside_attrs():
            return None
        return got[0] if len(got) == 1 else None

    def type_attrs(self, t):
        if isinstance(t, Class):
            return self.attrs(t)
        if t[0] == 'native':
            ms, mem = self.native.types[t[1]]
            return set(ms) | mem | set(dir(object))
        rec = OUT[t[1]]
        if rec['st'] != 'ok' or 'dir' not in rec or rec.get('open'):
            return None
        return set(rec['dir'])

    # ------------------------------------------------------------- helpers
    def func_at(self, m, n):
        """(enclosing function node, class) of a node"""
        x = n
        f = None
        while id(x) in self.parents:
            x = self.parents[id(x)]
            if isinstance(x, ast.FunctionDef) and f is None:
                f = x
            if isinstance(x, ast.FunctionDef):
                last = x
            if isinstance(x, ast.ClassDef):
                return f, m.classes.get(x.name), last if f is not None else None
        return f, None, f

    def owner(self, m, n):
        """readable construct name: module.function"""
        out = []
        x = n
        while id(x) in self.parents:
            x = self.parents[id(x)]
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.append(x.name)
        return '.'.join([m.name] + out[::-1])

    def guarded(self, n, *kinds):
        """is the node in a try body whose handlers catch one of the exceptions named (or everything)?  or tested for beforehand?"""
        x, child = self.parents.get(id(n)), n
        while x is not None:
            if isinstance(x, ast.Try) and any(child is b for b in x.body):
                for h in x.handlers:
                    t = ast.unparse(h.type) if h.type is not None else 'Exception'
                    if any(k in t for k in kinds) or 'Exception' in t.replace('(', ' ').split() or t in ('Exception', 'BaseException'):
                        return True
            if isinstance(x, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(x.test):
                return True
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                return False
            child, x = x, self.parents.get(id(x))
        return False

    def add(self, rule, m, n, what, msg):
        self.r.add(rule, '%s:%s' % (self.owner(m, n), what), '%s:%d' % (m.path, n.lineno), msg)


def run(tier):
    r = Result()
    ck = Check(r)
    options(ck)
    undefined(ck)
    unbound(ck)
    attributes(ck)
    calls(ck)
    formats(ck)
    counts(ck)
    r.floor('names', 500)
    r.floor('attributes', 300)
    r.floor('calls_bound', 100)
    r.units = sorted(M.m.path for M in ck.mods.values())
    return r


# ------------------------------------------------------------------ rule 1
def undefined(ck):
    r = ck.r
    r.rule('Every name read is bound in a scope that encloses it, in the module, in a star-imported module or among the builtins (exec inside a '
           'function binds nothing).')
    for M in ck.mods.values():
        m = M.m
        if M.open:
            continue
        for sc, nodes in M.scopes:
            r.count('scopes')
            for n in nodes:
                if not (isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))):
                    continue
                r.count('names')
                if sc.lookup(n.id) is not None or n.id in BUILTINS:
                    continue
                if m.stars and ck.member(m, n.id) is not None:
                    continue
                if ck.guarded(n, 'NameError'):
                    continue
                if n.id == '__class__':
                    continue
                ck.add('undefined-name', m, n, n.id, 'nothing binds the name %s: reaching this raises NameError' % n.id)


# ------------------------------------------------------------------ rule 2
class Bound:
    """forward may-be-bound analysis of local names; a read no binding can have reached fails whenever it is executed"""

    def __init__(self, names_, report):
        self.locals, self.report = names_, report

    def stores(self, n):
        return set(names.bound_in([n])) & self.locals

    def reads(self, n, st):
        """names read by an expression (not inside functions defined in it), in state st"""
        work = [n]
        while work:
            x = work.pop()
            if x is None:
                continue
            if isinstance(x, ast.Lambda):
                work += x.args.defaults
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                work.append(x.generators[0].iter)
                if isinstance(x, ast.GeneratorExp):
                    continue
                for p in ([x.elt] if hasattr(x, 'elt') else [x.key, x.value]) + [i for g in x.generators for i in g.ifs] + \
                        [g.iter for g in x.generators[1:]]:
                    for y in ast.walk(p):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in inner and y.id in self.locals and y.id not in st:
                            self.report(y)
                continue
            if isinstance(x, ast.NamedExpr):
                work.append(x.value)
                st.add(x.target.id)
                continue
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, (ast.Load, ast.Del)) and x.id in self.locals and x.id not in st:
                    self.report(x)
                continue
            work += list(ast.iter_child_nodes(x))

    def body(self, body, st):
        """-> state after, or None if control does not get there"""
        for n in body:
            if st is None:
                return None
            st = self.stmt(n, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def stmt(self, n, st):
        st = set(st)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                self.reads(d, st)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    self.reads(d, st)
            else:
                for d in n.bases:
                    self.reads(d, st)
            st.add(n.name)
            return st
        if isinstance(n, ast.Assign):
            self.reads(n.value, st)
            for t in n.targets:
                self.reads(t, st)
            return st | self.stores(n)
        if isinstance(n, ast.AugAssign):
            self.reads(n.value, st)
            if isinstance(n.target, ast.Name):
                if n.target.id in self.locals and n.target.id not in st:
                    self.report(n.target)
            else:
                self.reads(n.target, st)
            return st | self.stores(n)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                self.reads(t, st)
                if isinstance(t, ast.Name):
                    st.discard(t.id)
            return st
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                self.reads(c, st)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            (self.brk if isinstance(n, ast.Break) else self.cnt).append(st)
            return None
        if isinstance(n, ast.If):
            self.reads(n.test, st)
            return self.join(self.body(n.body, st), self.body(n.orelse, st))
        if isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                self.reads(n.iter, st)
            else:
                self.reads(n.test, st)
            first = set(st)
            if isinstance(n, ast.For):
                first |= self.stores(ast.Assign([n.target], ast.Constant(0)))
            self.first(n.body, set(first))
            saved = getattr(self, 'brk', []), getattr(self, 'cnt', [])
            cur = set(first)
            for _ in range(2):
                self.brk, self.cnt = [], []
                rep, self.report = self.report, (lambda x: None) if _ == 0 else self.report
                end = self.body(n.body, cur)
                self.report = rep
                cur = self.join(cur, end, *self.cnt)
            brk = self.brk
            self.brk, self.cnt = saved
            forever = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
            done = None if forever else self.body(n.orelse, self.join(st, cur))
            return self.join(done, *brk)
        if isinstance(n, ast.With):
            for i in n.items:
                self.reads(i.context_expr, st)
                if i.optional_vars is not None:
                    st |= self.stores(ast.Assign([i.optional_vars], ast.Constant(0)))
            return self.body(n.body, st)
        if isinstance(n, ast.Try):
            got = set(st)
            for s in n.body:
                got |= self.stores(s)
            norm = self.body(n.body, st)
            outs = []
            for h in n.handlers:
                s = set(got)
                if h.name:
                    s.add(h.name)
                s = self.body(h.body, s)
                if s is not None and h.name:
                    s.discard(h.name)
                outs.append(s)
            if norm is not None:
                norm = self.body(n.orelse, norm)
            res = self.join(norm, *outs)
            if n.finalbody:
                every = self.join(got, *[o for o in outs if o is not None])
                for h in n.handlers:
                    for s in h.body:
                        every |= self.stores(s)
                for s in n.orelse:
                    every |= self.stores(s)
                f = self.body(n.finalbody, every)
                res = None if res is None or f is None else res | {x for s in n.finalbody for x in self.stores(s)}
            return res
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return st | self.stores(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ('sys.exit', 'exit', 'os._exit'):
            self.reads(n.value, st)
            return None
        if isinstance(n, ast.Match):
            self.reads(n.subject, st)
            return self.join(st, *[self.body(c.body, st | self.stores(c.pattern)) for c in n.cases])
        for c in ast.iter_child_nodes(n):
            self.reads(c, st)
        return st | self.stores(n)

    def first(self, body, st):
        """statements every first turn of a loop executes, in order, in the state before the loop"""
        for n in body:
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
                st = self.stmt(n, st)
            elif isinstance(n, ast.If):
                self.reads(n.test, set(st))
                if any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Raise)) for x in ast.walk(n)):
                    return
                st |= self.stores(n)
            elif isinstance(n, (ast.For, ast.While)):
                self.reads(n.iter if isinstance(n, ast.For) else n.test, set(st))
                if any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(n)):
                    return
                st |= self.stores(n)
            else:
                return


def unbound(ck):
    r = ck.r
    r.rule('No local (or script-level) name is read where no binding of it can have been executed: forward may-be-bound analysis over the '
           'statements, loops to a fixed point, and the first turn of every loop separately.')
    for M in ck.mods.values():
        m = M.m
        bodies = [(n, n.body, set(sc.names) , set(names.params(n.args))) for sc, nodes in M.scopes if sc.kind == 'func' and isinstance(sc.node, ast.FunctionDef)
                  for n in [sc.node]]
        if m.name.startswith('scripts.') and not M.open:
            bodies.append((m.tree, m.tree.body, set(M.root.names), set()))
        for node, body, loc, have in bodies:
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'exec' for s in body for x in ast.walk(s)) and node is m.tree:
                continue
            r.count('bodies_followed')

            def report(x, m=m):
                if ck.guarded(x, 'NameError', 'UnboundLocalError'):
                    return
                if m.tree is node and x.id in BUILTINS:
                    return
                ck.add('unbound-name', m, x, x.id, 'no binding of %s can have been executed when it is read here' % x.id)
            Bound(loc, report).body(body, have)


# ------------------------------------------------------------------ rule 3
def attributes(ck):
    r = ck.r
    r.rule('Every attribute read of a module, a class or an instance whose class is known exists: in the sources, in the method tables of the '
           'native modules, or in the installed package it comes from.')
    later = []
    for M in ck.mods.values():
        m = M.m
        for sc, nodes in M.scopes:
            for n in nodes:
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name == '*' or ck.guarded(n, 'ImportError', 'ModuleNotFoundError'):
                            continue
                        t = ck.import_target(m, n, a)
                        r.count('imports')
                        if t is None:
                            ck.add('missing-attribute', m, n, a.name, 'cannot import %s: the module has nothing of that name' % a.name)
                        elif isinstance(t, tuple) and t[0] == 'ext':
                            later.append((m, n, t[1], a.name))
                    continue
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                    continue
                if ck.guarded(n, 'AttributeError'):
                    continue
                b = ck.expr_target(m, n.value, sc)
                if b is not None and b != ('open',):
                    t = ck.attr(b, n.attr)
                    r.count('attributes')
                    if t is None:
                        ck.add('missing-attribute', m, n, ast.unparse(n), '%s has no attribute %s' % (show(b), n.attr))
                    elif isinstance(t, tuple) and t[0] == 'ext':
                        later.append((m, n, t[1], ast.unparse(n)))
                    continue
                instance_attr(ck, m, n, sc)
    # packages and modules imported by name: one that is not installed here leaves what is used of it undecided
    absent = {}
    for M in ck.mods.values():
        for n in ast.walk(M.m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                absent.setdefault(n.module, []).append((M.m, n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    absent.setdefault(a.name, []).append((M.m, n))
    OUT.ask([d for d in absent if d not in ck.p.mods and d not in ck.native.mods] + [x[2] for x in later])
    absent = {d: v for d, v in absent.items() if d not in ck.p.mods and d not in ck.native.mods and OUT[d]['st'] != 'ok' and d.split('.')[0] != 'aipy'}
    for d in sorted(absent):
        r.unsure('%s imports %s, which is not installed here' % (', '.join(sorted({m.path for m, n in absent[d]})), d))
    for m, n, d, what in later:
        rec = OUT[d]
        if any(d == x or d.startswith(x + '.') for x in absent):
            continue
        if rec['st'] == 'missing':
            ck.add('missing-attribute', m, n, what, 'the installed %s has no %s' % (d.split('.')[0], d))


def everything(ck, script):
    """attribute names that anything in the sources or the packages they import may have (for the library: the packages the library imports)"""
    if not hasattr(ck, '_all'):
        ck._all = {}
    if script not in ck._all:
        U, mods = set(), set()
        for M in ck.mods.values():
            if M.m.name.startswith('scripts.') and not script:
                continue
            U |= set(M.root.names)
            for n in ast.walk(M.m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    U.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    U.add(n.attr)
                elif isinstance(n, ast.Call) and py.callee_name(n) in ('add_option', 'add_argument'):
                    U.add(long_opt(n))
                elif isinstance(n, ast.Call) and py.callee_name(n) == 'setattr':
                    U |= {a.value for a in n.args if isinstance(a, ast.Constant)}
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    mods.add(n.module)
                    mods |= {n.module + '.' + a.name for a in n.names if a.name != '*'}
                elif isinstance(n, ast.Import):
                    mods |= {a.name for a in n.names}
            for c in M.m.classes.values():
                U |= set(names.bound_in(c.node.body))
        for t in ck.native.mods.values():
            U |= set(t)
        for t, mem in ck.native.types.values():
            U |= set(t) | mem
        ck._all[script] = U | names.universe({d for d in mods if d.split('.')[0] not in ('aipy', '__future__')})
    return ck._all[script]


def show(b):
    if isinstance(b, (Module, Func)):
        return getattr(b, 'qual', None) or b.name
    if isinstance(b, Class):
        return b.qual
    return b[-1] if b[0] != 'ext' else b[1]


def instance_attr(ck, m, n, sc):
    f, cls, top = ck.func_at(m, n)
    me = None
    if cls is not None and top is not None:
        ff = cls.methods.get(top.name)
        if ff is not None and ff.node is top and not ff.static and ff.params:
            me = ff.params[0]
    t = ck.type_of(m, n.value, sc, cls, me)
    if t is None:
        ck.r.count('attributes_of_unknown_objects')
        b = n.value
        while isinstance(b, (ast.Attribute, ast.Call, ast.Subscript)):
            b = b.func if isinstance(b, ast.Call) else b.value
        if n.attr not in everything(ck, m.name.startswith('scripts.')) and not (isinstance(b, ast.Name) and b.id in ck.optvars.get(m.name, ())):
            ck.add('missing-attribute', m, n, ast.unparse(n)[:60].replace(' ', ''), 'nothing in the sources or the installed packages has an attribute %s' % n.attr)
        return
    ck.r.count('attributes')
    if isinstance(t, Class):
        if isinstance(n.value, ast.Name) and n.value.id == me:
            fam = ck.p.subclasses(t) or [t]
        else:
            fam = [t]
        for k in fam:
            a = ck.attrs(k)
            if a is None or n.attr in a:
                return
        if n.attr in ck.outside_attrs() and not (isinstance(n.value, ast.Name) and n.value.id == me):
            return
        ck.add('missing-attribute', m, n, '%s.%s' % (t.name, n.attr), 'nothing gives a %s an attribute %s' % (t.qual, n.attr))
        return
    a = ck.type_attrs(t)
    if a is None or n.attr in a:
        return
    ck.add('missing-attribute', m, n, ast.unparse(n), 'a %s has no attribute %s' % (t[-1], n.attr))


# ------------------------------------------------------------------ rule 4
def bind(c, pos, kws, star, dstar):
    """does a call with `pos` positional arguments and keywords `kws` fit?  c: (required names, params, vararg, kwarg, kwonly, required kwonly, npos only)"""
    ps, req, vararg, kwarg, kwonly, rkw, ponly = c
    if pos > len(ps) and not vararg:
        return 'takes at most %d positional arguments, %d given' % (len(ps), pos)
    for k in kws:
        if k in ps[ponly:]:
            if ps.index(k) < pos:
                return 'is given %s twice' % k
        elif k not in kwonly and not kwarg:
            return 'has no parameter %s' % k
    if not star and not dstar:
        for k in ps[pos:]:
            if k in req and k not in kws:
                return 'is not given %s' % k
        for k in rkw:
            if k not in kws:
                return 'is not given %s' % k
    elif not dstar:
        for k in rkw:
            if k not in kws:
                return 'is not given %s' % k
    return None


def of_func(f, skip):
    ps = f.params[skip:]
    kw = [k for k in f.kwonly]
    return (ps, {p for p in ps if p not in f.defaults}, f.vararg, f.kwarg, kw, [k for k in kw if k not in f.defaults],
            max(0, len(f.node.args.posonlyargs) - skip))


def of_sig(sig, skip=0):
    ps, req, kwonly, rkw = [], set(), [], []
    va = kw = False
    ponly = 0
    for n, k, d in sig:
        if k in (0, 1):
            ps.append(n)
            ponly += k == 0
            if not d:
                req.add(n)
        elif k == 2:
            va = True
        elif k == 3:
            kwonly.append(n)
            if not d:
                rkw.append(n)
        else:
            kw = True
    return (ps[skip:], req, va, kw, kwonly, rkw, max(0, ponly - skip))


def calls(ck):
    r = ck.r
    r.rule('Every call whose target is known passes arguments its signature accepts: number, keywords, nothing required left out. Targets: functions, '
           'methods and classes of the sources, native functions (argument formats), functions of the installed packages.')
    later = []
    for M in ck.mods.values():
        m = M.m
        for sc, nodes in M.scopes:
            for n in nodes:
                if not isinstance(n, ast.Call):
                    continue
                if ck.guarded(n, 'TypeError'):
                    continue
                star = any(isinstance(a, ast.Starred) for a in n.args)
                dstar = any(k.arg is None for k in n.keywords)
                pos = sum(not isinstance(a, ast.Starred) for a in n.args)
                kws = [k.arg for k in n.keywords if k.arg]
                cands, outside = callee(ck, m, n, sc)
                g = result_of(ck, m, n, sc) if n.args or n.keywords else None
                if g is not None:
                    callbacks(ck, m, n, sc, g, 1 if g.cls is not None and not g.static and isinstance(n.func, ast.Attribute)
                              and not isinstance(ck.expr_target(m, n.func, sc), Func) else 0)
                if outside:
                    later.append((m, n, outside, pos, kws, star, dstar))
                    continue
                if not cands:
                    continue
                r.count('calls_bound')
                errs = []
                for who, c in cands:
                    if c[0] == 'native':
                        lo, hi, nk = c[1]
                        e = None
                        if nk == () and kws:
                            e = 'takes no keyword arguments'
                        elif pos > hi or not star and not dstar and pos + len(kws) < lo:
                            e = 'takes %s arguments, %d given' % (lo if lo == hi else '%d to %d' % (lo, hi), pos + len(kws))
                    else:
                        e = bind(c, pos, kws, star, dstar)
                    if e:
                        errs.append((who, e))
                if errs and len(errs) == len(cands):
                    ck.add('call-does-not-fit', m, n, '%s:%s' % (errs[0][0], errs[0][1].replace(' ', '-')), '%s %s' % errs[0])
                elif errs:
                    r.unsure('%s:%d: %s %s' % (m.path, n.lineno, errs[0][0], errs[0][1]))
    OUT.ask([x[2] if isinstance(x[2], str) else x[2][0] for x in later])
    for m, n, d, pos, kws, star, dstar in later:
        skip = 0
        if not isinstance(d, str):
            d, skip = d
        rec = OUT[d]
        if rec['st'] != 'ok' or 'sig' not in rec:
            continue
        r.count('calls_bound')
        e = bind(of_sig(rec['sig'], 0 if rec.get('static') else skip), pos, kws, star, dstar)
        if e:
            ck.add('call-does-not-fit', m, n, '%s:%s' % (d, e.replace(' ', '-')), 'the installed %s %s' % (d, e))


FLOATS = {'np.sqrt', 'np.log', 'np.log10', 'np.log2', 'np.exp', 'numpy.sqrt', 'numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.exp',
          'math.sqrt', 'math.log', 'math.log10', 'math.log2', 'math.exp', 'float'}


def is_float(n, names):
    """whatever the values, this is not an integer: a true division, a float, arithmetic with one; names: {name: [what it is bound to]}"""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, float)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, (ast.USub, ast.UAdd)) and is_float(n.operand, names)
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Div):
            return True
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Pow)) and (is_float(n.left, names) or is_float(n.right, names))
    if isinstance(n, ast.IfExp):
        return is_float(n.body, names) and is_float(n.orelse, names)
    if isinstance(n, ast.Call):
        return ast.unparse(n.func) in FLOATS
    if isinstance(n, ast.Name) and names.get(n.id):
        vals = names[n.id]
        rest = {k: v for k, v in names.items() if k != n.id}
        return all(v is not None and is_float(v, rest) for v in vals)
    return False


def bindings(f):
    """{local name: [expression bound | None: something else]} of a function or module"""
    out = {}
    a = getattr(f, 'args', None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                out[x.arg] = [None]
    plain = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(n.value)
                    plain.add(id(t))
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and id(n) not in plain:
            out.setdefault(n.id, []).append(None)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for k in n.names:
                out.setdefault(k, []).append(None)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.setdefault(n.name, []).append(None)
        elif isinstance(n, ast.arg):
            out.setdefault(n.arg, []).append(None)
        elif isinstance(n, ast.alias):
            out.setdefault((n.asname or n.name).split('.')[0], []).append(None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, []).append(None)
    return out


def whole(n):
    """the expressions that have to be integers here: arguments of range, bounds of a slice, the lengths of an array"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and not n.keywords:
        return [a for a in n.args if not isinstance(a, ast.Starred)]
    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'shape' for t in n.targets):
        return list(n.value.elts) if isinstance(n.value, (ast.Tuple, ast.List)) else []
    if isinstance(n, ast.Call) and ast.unparse(n.func) in ('np.zeros', 'np.ones', 'np.empty', 'numpy.zeros', 'numpy.ones', 'numpy.empty') and n.args:
        return list(n.args[0].elts) if isinstance(n.args[0], (ast.Tuple, ast.List)) else [n.args[0]]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'reshape':
        return [e for a in n.args for e in (a.elts if isinstance(a, (ast.Tuple, ast.List)) else [a]) if not isinstance(e, ast.Starred)]
    if isinstance(n, ast.Subscript):
        ss = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        return [b for s in ss if isinstance(s, ast.Slice) for b in (s.lower, s.upper, s.step) if b is not None]
    return []


def counts(ck):
    """what has to be an integer is not a true division, here or in the function called"""
    r = ck.r
    r.rule('No argument of range, bound of a slice or length of an array is the result of a true division or another float, be it written there, kept in a local '
           'name, or handed to a parameter that is used so and never bound again.')
    wants = {}

    def wanted(g):
        if g not in wants:
            b = bindings(g.node)
            ps = {x for x in g.params + g.kwonly if b.get(x) == [None, None]}       # the parameter, seen twice: never bound again
            wants[g] = {x.id for n in g.walk() if not ck.guarded(n, 'TypeError') for x in whole(n) if isinstance(x, ast.Name) and x.id in ps}
        return wants[g]

    cache = {}
    for M in ck.mods.values():
        m = M.m
        if M.open:
            continue
        for sc, nodes in M.scopes:
            for n in nodes:
                ws = whole(n)
                call = isinstance(n, ast.Call) and (n.args or n.keywords)
                if not ws and not call:
                    continue
                f = ck.func_at(m, n)[0]
                key = id(f) if f is not None else id(m)
                if key not in cache:
                    cache[key] = bindings(f if f is not None else m.tree)
                names = cache[key]
                if names.get('range'):
                    continue
                for w in ws:
                    r.count('whole_numbers')
                    if is_float(w, names) and not ck.guarded(n, 'TypeError'):
                        ck.add('float-for-count', m, n, ast.unparse(w), '%s is a float where a whole number is needed' % ast.unparse(w))
                if not call or any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                args = [a for a in n.args + [k.value for k in n.keywords] if is_float(a, names)]
                if not args:
                    continue
                g = result_of(ck, m, n, sc)
                if g is None or g.node.decorator_list:
                    continue
                skip = 1 if g.cls is not None and not g.static and isinstance(n.func, ast.Attribute) and not isinstance(ck.expr_target(m, n.func, sc), Func) else 0
                if g.cls is not None and not skip:
                    continue
                given = list(zip(g.params[skip:], n.args)) + [(k.arg, k.value) for k in n.keywords]
                for p, a in given:
                    if any(a is x for x in args) and p in wanted(g) and not ck.guarded(n, 'TypeError'):
                        ck.add('float-for-count', m, n, '%s:%s' % (g.name, p), '%s is given %s for %s, which it counts to' % (g.qual, ast.unparse(a), p))


def truth(node):
    return bool(node.value) if isinstance(node, ast.Constant) else None


def callbacks(ck, m, n, sc, g, skip):
    """functions handed to g as arguments that g calls: the calls its constant arguments leave reachable must fit them"""
    args = {}
    ps = g.params[skip:]
    for k, a in enumerate(n.args):
        if isinstance(a, ast.Starred):
            return
        if k < len(ps):
            args[ps[k]] = a
    for k in n.keywords:
        if k.arg is None:
            return
        args[k.arg] = k.value
    for p, a in args.items():
        if isinstance(a, ast.Lambda):
            f = (a.args, '<lambda>')
            ps_ = [x.arg for x in a.args.posonlyargs + a.args.args]
            c = (ps_, set(ps_[:len(ps_) - len(a.args.defaults)]), a.args.vararg, a.args.kwarg, [x.arg for x in a.args.kwonlyargs], [], 0)
            who = 'lambda'
        else:
            t = ck.expr_target(m, a, sc) if isinstance(a, (ast.Name, ast.Attribute)) else None
            if not isinstance(t, Func) or t.cls is not None or t.node.decorator_list:
                continue
            c, who = of_func(t, 0), t.name
        if any(isinstance(x, ast.Name) and x.id == p and not isinstance(x.ctx, ast.Load) for x in ast.walk(g.node)):
            continue
        vals = dict(g.defaults)
        vals.update(args)

        def walk(body):
            for s_ in body:
                if isinstance(s_, ast.If):
                    t = None
                    if isinstance(s_.test, ast.Name) and s_.test.id in vals:
                        t = truth(vals[s_.test.id])
                    elif isinstance(s_.test, ast.UnaryOp) and isinstance(s_.test.op, ast.Not) and isinstance(s_.test.operand, ast.Name) \
                            and s_.test.operand.id in vals:
                        t = truth(vals[s_.test.operand.id])
                        t = None if t is None else not t
                    if t is not False:
                        yield from walk(s_.body)
                    if t is not True:
                        yield from walk(s_.orelse)
                    yield from (x for x in ast.walk(s_.test))
                elif isinstance(s_, (ast.For, ast.While, ast.With, ast.Try)):
                    for part in ('body', 'orelse', 'finalbody'):
                        yield from walk(getattr(s_, part, []))
                    for h in getattr(s_, 'handlers', []):
                        yield from walk(h.body)
                elif not isinstance(s_, (ast.FunctionDef, ast.ClassDef)):
                    yield from ast.walk(s_)
        for x in walk(g.node.body):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == p:
                if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                ck.r.count('callbacks')
                e = bind(c, len(x.args), [k.arg for k in x.keywords], False, False)
                if e:
                    ck.add('callback-does-not-fit', m, n, '%s:%s' % (g.qual, who), '%s calls %s with %d arguments: it %s' % (g.qual, who, len(x.args), e))


def callee(ck, m, n, sc):
    """([(name, binding or ('native', fmt))], outside name)"""
    f = n.func
    t = ck.expr_target(m, f, sc)
    if isinstance(t, Func):
        if t.prop:
            return [], None
        own = isinstance(f, ast.Attribute) and t.cls is not None and not t.static
        return [(t.qual, of_func(t, 0))] if not t.node.decorator_list or t.static else [], None
    if isinstance(t, Class):
        return ctor(ck, t)
    if isinstance(t, tuple) and t[0] == 'native' and len(t) == 3:
        fmt = ck.native.mods[t[1]].get(t[2])
        if isinstance(fmt, tuple):
            return [(t[1] + '.' + t[2], ('native', fmt))], None
        return [], None
    if isinstance(t, tuple) and t[0] == 'ext':
        if '.' not in t[1]:
            return [], None
        return [], t[1]
    if not isinstance(f, ast.Attribute):
        return [], None
    ff, cls, top = ck.func_at(m, n)
    me = None
    if cls is not None and top is not None:
        meth = cls.methods.get(top.name)
        if meth is not None and meth.node is top and not meth.static and meth.params:
            me = meth.params[0]
    ty = ck.type_of(m, f.value, sc, cls, me)
    if isinstance(ty, Class):
        me_call = isinstance(f.value, ast.Name) and f.value.id == me
        out = []
        for k in (ck.p.subclasses(ty) or [ty]) if me_call else [ty]:
            g = ck.p.method(k, f.attr)
            if g is None:
                b = native_base(ck, k)
                if b and f.attr in b:
                    if isinstance(b[f.attr], tuple):
                        out.append((k.qual + '.' + f.attr, ('native', b[f.attr])))
                        continue
                return [], None
            if g.prop or (g.node.decorator_list and not g.static):
                return [], None
            c = (g.qual, of_func(g, 0 if g.static else 1))
            if c not in out:
                out.append(c)
        return out, None
    if isinstance(ty, tuple) and ty[0] == 'ext':
        return [], (ty[1] + '.' + f.attr, 1)
    return [], None


def native_base(ck, k):
    for c in ck.p.mro(k):
        for b in c.node.bases:
            t = ck.expr_target(c.mod, b)
            if isinstance(t, tuple) and t[0] == 'native' and len(t) == 3:
                return ck.native.types[t[1]][0]
    return None


def ctor(ck, c):
    g = ck.p.method(c, '__init__')
    if ck.p.method(c, '__new__') is not None:
        return [], None
    if g is not None:
        return ([(c.qual, of_func(g, 1))] if not g.node.decorator_list else []), None
    for k in ck.p.mro(c):
        for b in k.node.bases:
            t = ck.expr_target(k.mod, b)
            if isinstance(t, Class) or t == ('ext', 'object'):
                continue
            return [], None
    return [(c.qual, ([], set(), None, None, [], [], 0))], None


# ------------------------------------------------------------------ rule 5
def long_opt(n):
    """the attribute an add_option call defines"""
    for k in n.keywords:
        if k.arg == 'dest':
            return k.value.value if isinstance(k.value, ast.Constant) else None
    opts = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    if len(opts) != len(n.args) or not opts:
        return None
    lo = [o for o in opts if o.startswith('--')]
    if lo:
        return lo[0][2:].replace('-', '_')
    return opts[0].lstrip('-').replace('-', '_')


def options(ck):
    r = ck.r
    r.rule('Every option a script reads from its parsed options is one it (or add_standard_options, for the groups the script asks for) declares.')
    std = ck.p.fn.get('aipy.scripting.add_standard_options')
    table = {}
    if std is not None:
        def grp(body, cond):
            for s in body:
                if isinstance(s, ast.If):
                    t = s.test
                    grp(s.body, cond + [t.id] if isinstance(t, ast.Name) else None if cond is None else cond + [None])
                    grp(s.orelse, (cond or []) + [None])
                else:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call) and py.callee_name(x) == 'add_option':
                            d = long_opt(x)
                            if d:
                                table.setdefault(d, []).append(cond or [])
        grp(std.node.body, [])
    for M in ck.mods.values():
        m = M.m
        if not m.name.startswith('scripts.') and m.name != 'aipy.scripting':
            continue
        # parser variables, option variables
        parsers, opts = set(), {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                c = py.callee_name(n.value)
                if c in ('OptionParser', 'ArgumentParser'):
                    parsers |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and py.callee_name(n.value) == 'parse_args' \
                    and isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in parsers:
                t = n.targets[0]
                if isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                    opts[t.elts[0].id] = n.value.func.value.id
                elif isinstance(t, ast.Name):
                    opts[t.id] = n.value.func.value.id
        if not opts:
            continue
        ck.optvars[m.name] = set(opts)
        parsed = min([n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Call) and py.callee_name(n) == 'parse_args'])
        have, whole = set(dir(object)) | {'ensure_value', 'read_file', 'read_module'}, True
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            c = py.callee_name(n)
            if c in ('add_option', 'add_argument'):
                d = long_opt(n)
                if d is None:
                    whole = False
                else:
                    have.add(d)
            elif c == 'add_standard_options':
                asked = {k.arg for k in n.keywords if not (isinstance(k.value, ast.Constant) and not k.value.value)}
                if None in asked or std is None:
                    whole = False
                asked |= {p for p, a in zip(std.params[0:], n.args) if std and not (isinstance(a, ast.Constant) and not a.value)}
                for d, conds in table.items():
                    if any(all(x is None or x in asked for x in c_) for c_ in conds):
                        have.add(d)
            elif any(isinstance(a, ast.Name) and a.id in parsers for a in n.args) and n.lineno < parsed:
                whole = False       # handed to something that may add options
        if not whole:
            r.unsure('%s: its options cannot all be told' % m.path)
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in opts:
                have.add(n.attr)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in opts:
                r.count('option_reads')
                if n.attr not in have:
                    ck.add('undeclared-option', m, n, n.attr, 'the script declares no option %s' % n.attr)


# ------------------------------------------------------------------ rule 6
SPEC = re.compile(r'%(\((\w+)\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def formats(ck):
    r = ck.r
    r.rule('A format string applied to a tuple takes as many values as the tuple has; a tuple assigned to several names has as many values as there are names.')
    for M in ck.mods.values():
        m = M.m
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                want = named = 0
                for x in SPEC.finditer(n.left.value):
                    if x.group(6) == '%':
                        continue
                    named += x.group(1) is not None
                    want += 1 + (x.group(3) == '*') + (x.group(5) == '*')
                if named:
                    continue
                r.count('formats')
                if isinstance(n.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in n.right.elts):
                        continue
                    if len(n.right.elts) != want:
                        ck.add('format', m, n, n.left.value[:40].replace(' ', '_'), 'the format takes %d values, %d are given' % (want, len(n.right.elts)))
                elif isinstance(n.right, (ast.Constant, ast.Call, ast.BinOp)) and want == 0:
                    ck.add('format', m, n, n.left.value[:40].replace(' ', '_'), 'the format takes no values')
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)):
                t = n.targets[0]
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    continue
                if isinstance(n.value, (ast.Tuple, ast.List)):
                    if any(isinstance(e, ast.Starred) for e in n.value.elts):
                        continue
                    r.count('unpackings')
                    if len(n.value.elts) != len(t.elts):
                        ck.add('unpack', m, n, ast.unparse(t)[:40].replace(' ', '_'), '%d values for %d names' % (len(n.value.elts), len(t.elts)))
                elif isinstance(n.value, ast.Call):
                    sc = M.where.get(id(n))
                    if sc is None:
                        continue
                    g = result_of(ck, m, n.value, sc)
                    if g is None:
                        continue
                    ar = arities(g)
                    if ar is None:
                        continue
                    r.count('unpackings')
                    if len(t.elts) not in ar:
                        ck.add('unpack', m, n, '%s:%d' % (g.qual, len(t.elts)), '%s returns %s values, taken as %d' % (
                            g.qual, '/'.join(map(str, sorted(ar))), len(t.elts)))


def result_of(ck, m, n, sc):
    t = ck.expr_target(m, n.func, sc)
    if isinstance(t, Func):
        return t
    if isinstance(n.func, ast.Attribute):
        ff, cls, top = ck.func_at(m, n)
        me = None
        if cls is not None and top is not None:
            meth = cls.methods.get(top.name)
            if meth is not None and meth.node is top and not meth.static and meth.params:
                me = meth.params[0]
        ty = ck.type_of(m, n.func.value, sc, cls, me)
        if isinstance(ty, Class):
            me_call = isinstance(n.func.value, ast.Name) and n.func.value.id == me
            gs = {ck.p.method(k, n.func.attr) for k in ((ck.p.subclasses(ty) or [ty]) if me_call else [ty])}
            if len(gs) == 1:
                return gs.pop()
    return None


def arities(g):
    """how many values the function's results have, if all of them are tuples written out"""
    out = set()
    if g.prop or g.node.decorator_list:
        return None
    for n in g.walk():
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(isinstance(e, ast.Starred) for e in n.value.elts):
                return None
            out.add(len(n.value.elts))
    return out or None
