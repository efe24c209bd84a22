"""What names denote in the Python sources: scopes, members of modules and of
classes (own, third-party and native), signatures, simple types of variables.
Third-party modules are looked up in the installed packages (their names and
signatures only); nothing of aipy is imported."""
import ast
import builtins
import json
import os
import re
import subprocess
import sys

from sa import py
from sa.ir import AnalysisBroken
from sa.py import Class, Func, Module

VENV = '/opt/venv/bin/python'
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__builtins__', '__spec__'}

QUERY = r'''
import sys, json, importlib, inspect, warnings, types
warnings.simplefilter('ignore')
sys.path = [p for p in sys.path if p not in ('', '.')]
def find(d):
    parts = d.split('.')
    mod = None
    for k in range(len(parts), 0, -1):
        try:
            mod = importlib.import_module('.'.join(parts[:k]))
            break
        except ImportError:
            continue
        except Exception:
            return None, 'unavailable'
    if mod is None:
        import builtins
        if hasattr(builtins, parts[0]):
            mod, k = builtins, 0
        else:
            return None, 'unavailable'
    o = mod
    static = None
    for n in parts[k:]:
        if not hasattr(o, n):
            return None, 'missing'
        if isinstance(o, type):
            static = inspect.getattr_static(o, n)
        o = getattr(o, n)
    if isinstance(static, (staticmethod, classmethod)):
        return o, 'ok static'
    return o, 'ok'
out = {}
for d in json.load(sys.stdin):
    try:
        o, st = find(d)
    except Exception as e:
        o, st = None, 'unavailable'
    r = {'st': st.split()[0], 'static': 'static' in st}
    if st == 'ok':
        r['kind'] = 'module' if inspect.ismodule(o) else 'class' if isinstance(o, type) else 'function' if callable(o) else 'value'
        if r['kind'] in ('module', 'class'):
            try:
                have = set(dir(o))
                for k in getattr(o, '__mro__', ()):
                    for v in vars(k).values():
                        v = getattr(v, '__wrapped__', v)
                        if isinstance(v, types.FunctionType):
                            have.update(v.__code__.co_names)    # may be given to an instance by a method
                r['dir'] = sorted(have)
            except Exception: pass
        if r['kind'] == 'class':
            r['open'] = hasattr(o, '__getattr__') or o.__getattribute__ is not object.__getattribute__ and not isinstance(o.__getattribute__, type(object.__getattribute__))
        if r['kind'] in ('class', 'function'):
            try:
                s = inspect.signature(o)
                r['sig'] = [[p.name, int(p.kind), p.default is not p.empty] for p in s.parameters.values()]
            except Exception:
                pass
    out[d] = r
json.dump(out, sys.stdout)
'''


def _query(src, arg):
    import tempfile
    exe = VENV if os.path.exists(VENV) else sys.executable
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    with tempfile.TemporaryDirectory() as tmp:
        env['MPLCONFIGDIR'] = env['HOME'] = env['XDG_CACHE_HOME'] = tmp
        p = subprocess.run([exe, '-I', '-c', src], input=json.dumps(arg), capture_output=True, text=True, env=env, cwd=tmp)
    if p.returncode:
        raise AnalysisBroken('cannot inspect installed packages: %s' % p.stderr[-300:])
    return p.stdout


class Outside:
    """third-party names, asked for in one go"""

    def __init__(self):
        self.want, self.got = set(), {}

    def ask(self, names):
        new = sorted(set(names) - set(self.got))
        if not new:
            return
        text = _query(QUERY, new)
        try:
            self.got.update(json.loads(text[text.index('{'):]))
        except ValueError:
            raise AnalysisBroken('cannot inspect installed packages')

    def __getitem__(self, d):
        if d not in self.got:
            self.ask([d])
        return self.got[d]


OUT = Outside()


UNIVERSE = r'''
import sys, json, types, importlib, warnings
warnings.simplefilter('ignore')
sys.path = [p for p in sys.path if p not in ('', '.')]
U = set()
import builtins, re
CORE = ['builtins', 're', 'io', 'types', 'optparse', 'argparse', 'numpy', 'numpy.ma', 'numpy.lib.npyio', 'numpy.lib._npyio_impl']
EXTRA = {'ephem': ['ephem._libastro'], 'matplotlib': ['matplotlib.axes', 'matplotlib.figure', 'matplotlib.image', 'matplotlib.backend_bases',
         'matplotlib.lines', 'matplotlib.text', 'matplotlib.cm', 'matplotlib.colors', 'matplotlib.ticker', 'matplotlib.collections'],
         'socketserver': ['socket'], 'socket': ['socket']}
want = json.load(sys.stdin)
for n in CORE + want + [y for x in want for y in EXTRA.get(x.split('.')[0], [])]:
    try:
        m = importlib.import_module(n)
    except Exception:
        continue
    for v in list(vars(m).values()):
        if isinstance(v, type):
            U.update(dir(v))
            for k in v.__mro__:
                for f in vars(k).values():
                    f = getattr(f, '__wrapped__', f)
                    if isinstance(f, types.FunctionType):
                        U.update(f.__code__.co_names)
U.update(dir(types.FunctionType)); U.update(dir(re.match('a', 'a')))
json.dump(sorted(U), sys.stdout)
'''


def universe(mods):
    """attribute names objects of the installed packages (the ones imported, and the standard ones behind them) may have"""
    return set(json.loads(_query(UNIVERSE, sorted(mods))))


# ------------------------------------------------------------------ natives
class Native:
    """what the extension modules define: {module: {name: parse formats}} and the methods of their types"""

    def __init__(self):
        from sa import ir, cg
        self.mods, self.types = {}, {}
        for ext in ir.extensions():
            m = ir.compile_extension(ext)
            tables = {}
            for g, text in m.globals.items():
                if 'PyMethodDef' in text and '[' in text:
                    t = {}
                    for s, f, fl in re.findall(r'%struct\.PyMethodDef \{ ptr @("?[\w.$]+"?), ptr @("?[\w.$]+"?), i32 (\d+)', text):
                        n = m.string(('glob', s.strip('"')))
                        t[n] = self.formats(m, f.strip('"'), int(fl))
                    tables[g] = t
            inmod = set()
            for g, text in m.globals.items():
                if 'PyModuleDef' in text:
                    inmod |= {x for x in cg.global_refs(m, g)}
            names, types = {}, {}
            for g, t in tables.items():
                if g in inmod:
                    names.update(t)
                else:
                    types.update(t)
            for f in m.repo_defined():
                for i in f.calls():
                    c = i.callee() or ''
                    if c.startswith('PyModule_Add') and len(i.x['args']) > 1:
                        n = m.string(i.x['args'][1])
                        if n:
                            names.setdefault(n, 'type' if c.startswith('PyModule_AddObject') else 'value')
            members = set()
            for g, text in m.globals.items():
                if 'PyMemberDef' in text or 'PyGetSetDef' in text:
                    for s in re.findall(r'%struct\.Py(?:MemberDef|GetSetDef) \{ ptr @("?[\w.$]+"?)', text):
                        members.add(m.string(('glob', s.strip('"'))))
            self.mods[ext] = names
            self.types[ext] = (types, members)

    def formats(self, m, fname, flags):
        """[(min, max, keywords or None)] the function accepts, or None"""
        if flags & 4:
            return (0, 0, ())
        f = m.functions.get(fname)
        if f is None:
            return None
        got = []
        for i in f.calls():
            c = i.callee() or ''
            if c.startswith('PyArg_Parse') and len(i.x['args']) > 1:
                k = 2 if 'Keywords' in c else 1
                s = m.string(i.x['args'][k])
                if s is None:
                    return None
                lo = hi = 0
                depth = 0
                opt = False
                for ch in re.sub(r'[:;].*', '', s):
                    if ch == '(':
                        if depth == 0:
                            hi += 1
                            lo += not opt
                        depth += 1
                    elif ch == ')':
                        depth -= 1
                    elif depth:
                        continue
                    elif ch == '|':
                        opt = True
                    elif ch.isalpha():
                        hi += 1
                        lo += not opt
                kw = ()
                if 'Keywords' in c:
                    kw = None
                got.append((lo, hi, kw))
        return got[0] if len(got) == 1 else None


# ------------------------------------------------------------------- scopes
def bound_in(body, glob=None):
    """names a body of statements binds in its own scope; nodes by name"""
    out = {}

    def put(n, node):
        out.setdefault(n, []).append(node)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            put(n.name, n)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    put(x.target.id, x)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            put(n.id, n)
        elif isinstance(n, ast.Import):
            for a in n.names:
                put(a.asname or a.name.split('.')[0], n)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != '*':
                    put(a.asname or a.name, n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            put(n.name, n)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            put(n.name, n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)) and glob is not None:
            glob.update(n.names)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out


def params(a):
    p = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        p.append(a.vararg.arg)
    if a.kwarg:
        p.append(a.kwarg.arg)
    return p


class Scope:
    def __init__(self, node, kind, parent, names, glob=()):
        self.node, self.kind, self.parent, self.names, self.glob = node, kind, parent, names, set(glob)

    def lookup(self, name):
        """the scope that binds the name, or None"""
        s, first = self, True
        while s is not None:
            if s.kind != 'class' or first:
                if name in s.glob:
                    while s.parent is not None:
                        s = s.parent
                    return s if name in s.names else None
                if name in s.names:
                    return s
            if s.kind != 'comp':
                first = False
            s = s.parent
        return None


def scopes(mod):
    """yield (Scope, nodes): every scope of a module with the expression nodes evaluated directly in it"""
    gl = set()
    top = {n: list(v) for n, v in bound_in(mod.tree.body, set()).items()}
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = set()
            b = bound_in(n.body, g)
            for x in g:
                if x in b:
                    top.setdefault(x, []).extend(b[x])
    root = Scope(mod.tree, 'module', None, top)
    out = []

    def visit(body, scope):
        nodes = []
        out.append((scope, nodes))
        for s in body:
            walk(s, scope, nodes)

    def walk(n, scope, nodes):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + (n.decorator_list if not isinstance(n, ast.Lambda) else []):
                walk(d, scope, nodes)
            g = set()
            body = [n.body] if isinstance(n, ast.Lambda) else n.body
            b = bound_in(body, g)
            for p in params(n.args):
                b.setdefault(p, []).append(n.args)
            for x in g:
                b.pop(x, None)
            nodes.append(n)
            visit(body, Scope(n, 'func', scope, b, g))
            return
        if isinstance(n, ast.ClassDef):
            for d in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                walk(d, scope, nodes)
            visit(n.body, Scope(n, 'class', scope, bound_in(n.body)))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            walk(n.generators[0].iter, scope, nodes)
            b = {}
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        b.setdefault(x.id, []).append(x)
            inner = Scope(n, 'comp', scope, b)
            parts = [n.elt] if hasattr(n, 'elt') else [n.key, n.value]
            for k, g in enumerate(n.generators):
                if k:
                    parts.append(g.iter)
                parts += g.ifs
            nodes.append(n)
            sub = []
            out.append((inner, sub))
            for p in parts:
                walk(p, inner, sub)
            return
        nodes.append(n)
        for c in ast.iter_child_nodes(n):
            walk(c, scope, nodes)
    visit(mod.tree.body, root)
    return root, out
