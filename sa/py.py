"""The Python side of the project: modules, classes, functions, name resolution."""
import ast
import os

from sa.ir import AnalysisBroken, REPO


class Func:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name
        self.qual = '%s.%s%s' % (mod.name, cls.name + '.' if cls else '', node.name)
        if outer:
            self.qual = '%s.%s' % (outer.qual, node.name)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        self.prop = any(isinstance(d, ast.Name) and d.id == 'property' for d in node.decorator_list)

    def __repr__(self):
        return '<%s>' % self.qual

    def where(self, node=None):
        return '%s:%d' % (self.mod.path, getattr(node or self.node, 'lineno', self.node.lineno))

    def walk(self):
        """nodes of this function, nested functions and classes excluded"""
        work = list(self.node.body)
        while work:
            n = work.pop(0)
            yield n
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            work = list(ast.iter_child_nodes(n)) + work


class Class:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = '%s.%s' % (mod.name, node.name)
        self.methods = {}
        self.consts = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = Func(mod, n, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value

    def where(self, node=None):
        return '%s:%d' % (self.mod.path, getattr(node or self.node, 'lineno', 0))

    def __repr__(self):
        return '<class %s>' % self.qual


class Module:
    def __init__(self, proj, name, path, src):
        self.proj, self.name, self.path, self.src = proj, name, path, src
        self.tree = ast.parse(src, path)
        self.imports = {}       # local name -> dotted target
        self.funcs, self.classes, self.globals = {}, {}, {}
        self.stars = []
        pkg = name.rsplit('.', 1)[0] if not path.endswith('__init__.py') else name
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    p = pkg.split('.')
                    p = p[:len(p) - (n.level - 1)]
                    base = '.'.join(p + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + '.' + a.name
        self._body(self.tree.body)

    def _body(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.globals[x.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for part in ('body', 'orelse', 'finalbody'):
                    self._body(getattr(n, part, []))
                for h in getattr(n, 'handlers', []):
                    self._body(h.body)

    def where(self, node=None):
        return '%s:%d' % (self.path, getattr(node, 'lineno', 0))


class Project:
    def __init__(self, scripts=True):
        self.mods = {}
        self.scripts = {}
        root = os.path.join(REPO, 'aipy')
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py') or f == '_version.py':
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.mods[name] = self.load(name, rel)
        if scripts:
            sd = os.path.join(REPO, 'scripts')
            for f in sorted(os.listdir(sd)):
                p = os.path.join(sd, f)
                if not os.path.isfile(p):
                    continue
                rel = os.path.relpath(p, REPO)
                if not f.endswith('.py'):
                    with open(p, errors='replace') as fh:
                        if 'python' not in fh.readline():
                            continue
                self.scripts['scripts.' + f.replace('.py', '')] = self.load('scripts.' + f.replace('.py', ''), rel)
        if len(self.mods) < 15:
            raise AnalysisBroken('only %d Python modules found' % len(self.mods))
        self.fn = {}
        for m in list(self.mods.values()) + list(self.scripts.values()):
            for f in self.functions(m):
                self.fn[f.qual] = f

    def load(self, name, rel):
        with open(os.path.join(REPO, rel), encoding='utf-8', errors='replace') as fh:
            src = fh.read()
        try:
            return Module(self, name, rel, src)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (rel, e))

    def functions(self, m):
        out = []

        def nested(f):
            out.append(f)
            for n in f.walk():
                if isinstance(n, ast.FunctionDef):
                    nested(Func(m, n, f.cls, f))
        for f in m.funcs.values():
            nested(f)
        for c in m.classes.values():
            for f in c.methods.values():
                nested(f)
        return out

    # ---------------------------------------------------------- resolution
    def target(self, dotted, depth=0):
        """Func / Class / Module / ('global', mod, name) / ('ext', dotted)"""
        if depth > 8:
            return ('ext', dotted)
        if dotted in self.mods:
            return self.mods[dotted]
        if '.' in dotted:
            base, name = dotted.rsplit('.', 1)
            b = self.target(base, depth + 1)
            if isinstance(b, Module):
                return self.member(b, name, depth)
            if isinstance(b, Class):
                f = self.method(b, name)
                if f:
                    return f
        return ('ext', dotted)

    def member(self, m, name, depth=0):
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            return self.target(m.imports[name], depth + 1)
        if name in m.globals:
            return ('global', m, name)
        for s in m.stars:
            b = self.target(s, depth + 1)
            if isinstance(b, Module):
                r = self.member(b, name, depth + 1)
                if r is not None and not (isinstance(r, tuple) and r[0] == 'ext'):
                    return r
        return ('ext', m.name + '.' + name)

    def resolve(self, mod, node):
        """the thing a Name/Attribute chain denotes at module level, or None"""
        if isinstance(node, ast.Name):
            if node.id in mod.funcs or node.id in mod.classes or node.id in mod.imports or node.id in mod.globals:
                return self.member(mod, node.id)
            for s in mod.stars:
                b = self.target(s)
                if isinstance(b, Module):
                    r = self.member(b, node.id)
                    if not (isinstance(r, tuple) and r[0] == 'ext'):
                        return r
            import builtins
            if hasattr(builtins, node.id):
                return ('ext', node.id)
            return None
        if isinstance(node, ast.Attribute):
            b = self.resolve(mod, node.value)
            if isinstance(b, Module):
                return self.member(b, node.attr)
            if isinstance(b, Class):
                return self.method(b, node.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            t = self.resolve(c.mod, b)
            if isinstance(t, Class):
                out.append(t)
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.node.bases:
                t = self.resolve(k.mod, b)
                if not isinstance(t, Class):
                    out.append(ast.unparse(b) if t is None else t[1] if isinstance(t, tuple) else ast.unparse(b))
        return out

    def mro(self, c):
        """C3 where possible, depth first otherwise"""
        seqs = [self.mro(b) for b in self.bases(c)] + [self.bases(c)]
        out = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in t if x is not h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def all_classes(self):
        return [c for m in self.mods.values() for c in m.classes.values()]

    def subclasses(self, c):
        return [k for k in self.all_classes() if c in self.mro(k)]


_P = None


def project():
    global _P
    if _P is None:
        _P = Project()
    return _P


def callee_name(node):
    """last component of what a Call calls"""
    f = node.func
    if isinstance(f, ast.Attribute):
        return f.attr
    if isinstance(f, ast.Name):
        return f.id
    return None


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
