"""Which objects of the caller a function can reach, and which of them it changes in place.

A value is a set of (root, how):
  root  ('param', f, name)      what the caller passed
        ('default', f, name)    the default object of that parameter (one object for all calls)
        ('self', attr)          what the receiver holds under attr
        ('class', cls, attr)    an object created once in a class body
        ('global', mod, name)   a module level object
  how   'id'    the same object
        'elem'  something reached inside it (unpacking, constant index, iteration)
        'view'  a new array object over the same data
        'box'   a new container whose elements are reached inside it
        'part'  what it holds under a name; 'pview' a view of that
Values that are certainly new, and all values of operations not listed here, are the empty set: an
alias that is not understood is not reported.
"""
import ast

from sa import py

NP = {'numpy', 'np'}
# numpy functions whose result may share the data of their first argument
NP_VIEW = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel',
           'reshape', 'transpose', 'squeeze', 'swapaxes', 'rollaxis', 'moveaxis', 'broadcast_to', 'real', 'imag',
           'expand_dims', 'diagonal', 'flipud', 'fliplr', 'flip', 'rot90', 'require', 'asfortranarray'}
MA_VIEW = {'array', 'masked_array', 'asarray', 'masked_where', 'getdata', 'getmask', 'getmaskarray', 'ravel', 'reshape',
           'transpose', 'squeeze'}
METH_VIEW = {'view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'diagonal', '__array__', 'newbyteorder'}
ATTR_VIEW = {'T', 'real', 'imag', 'data', 'mask'}
ATTR_FLAT = {'flat'}
ARRAY_ATTRS = {'shape', 'dtype', 'strides', 'real', 'imag', 'flat', 'mask', 'fill_value', 'data'}
OBJ_ATTRS = {'shape', 'dtype', 'strides', 'fill_value', 'mask'}     # change the object itself, not only its data
# methods that change their receiver
MUT_METH = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse',
            'put', 'fill', 'itemset', 'partition', 'setflags', 'setfield', 'add', 'discard', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__iadd__'}
MUT_ARRAY_ONLY = {'resize', 'byteswap'}
# numpy functions that change their first argument
NP_MUT = {'put', 'copyto', 'place', 'putmask', 'put_along_axis', 'fill_diagonal', 'shuffle'}
UFUNC_AT = {'at'}
# things that make arrays: evidence that a name holds one
ARRAYISH = {'shape', 'size', 'dtype', 'ndim', 'astype', 'take', 'compress', 'flatten', 'squeeze', 'transpose', 'T', 'real',
            'imag', 'sum', 'mean', 'argmax', 'nonzero', 'conj', 'copy', 'compressed', 'filled', 'searchsorted', 'put',
            'reshape', 'ravel', 'flat', 'fill', 'mask'}


class Summary:
    def __init__(self):
        self.mut = {}       # (root, how, what) -> (node, via)
        self.ret = set()
        self.store = set()  # (attr, root, how, line)
        self.arrayish = set()


class Alias:
    def __init__(self, native_mut=None):
        self.pr = py.project()
        self.native_mut = native_mut or {}
        self.sum = {q: Summary() for q in self.pr.fn}
        self.calls = 0
        for _ in range(8):
            before = {q: (frozenset(s.mut), frozenset(s.ret), frozenset(s.store)) for q, s in self.sum.items()}
            for f in list(self.pr.fn.values()):
                if f.outer is None:
                    Fn(self, f).run()
            if before == {q: (frozenset(s.mut), frozenset(s.ret), frozenset(s.store)) for q, s in self.sum.items()}:
                break


def is_mutable_default(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
        (isinstance(d, ast.Call) and py.callee_name(d) in ('array', 'zeros', 'ones', 'list', 'dict', 'set', 'arange',
                                                           'empty', 'linspace', 'asarray', 'bytearray', 'defaultdict'))


class Fn:
    def __init__(self, al, f, env=None, outer=None):
        self.al, self.pr, self.f = al, al.pr, f
        self.s = al.sum[f.qual]
        self.env = dict(env or {})
        self.outer = outer
        self.keys = {}
        a = f.node.args
        allp = list(f.params) + f.kwonly
        for i, p in enumerate(allp):
            if i == 0 and f.cls and not f.static and f.outer is None:
                self.env[p] = frozenset([(('recv',), 'id')])
                continue
            v = {(('param', f.qual, p), 'id')}
            d = f.defaults.get(p)
            if d is not None and is_mutable_default(d):
                v.add((('default', f.qual, p), 'id'))
            self.env[p] = frozenset(v)
        if f.vararg:
            self.env[f.vararg] = frozenset([(('param', f.qual, '*' + f.vararg), 'box')])
        if f.kwarg:
            self.env[f.kwarg] = frozenset([(('param', f.qual, '**' + f.kwarg), 'box')])
        self.recv = f.params[0] if f.cls and not f.static and f.params else None
        self.local_array = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAYISH:
                self.local_array.add(n.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args \
                    and isinstance(n.args[0], ast.Name):
                self.local_array.add(n.args[0].id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.local_array.add(n.value.id)
        self.s.arrayish = {p for p in allp if p in self.local_array}

    def run(self):
        self.block(self.f.node.body)

    # ------------------------------------------------------------ effects
    def mutate(self, val, node, what, depth=0, via=()):
        """the object(s) val denotes are changed in place; what: 'data' | 'object'"""
        for root, how in val:
            if how == 'box' or root == ('recv',):
                continue
            if what in ('object', 'attr') and how in ('view', 'pview'):
                continue
            k = (root, how, what)
            if k not in self.s.mut:
                self.s.mut[k] = (node, via)

    # --------------------------------------------------------- statements
    def block(self, body):
        for n in body:
            self.stmt(n)

    def branch(self, bodies):
        outs = []
        start = dict(self.env)
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if not ends(b):
                outs.append(self.env)
        if not outs:
            outs = [start]
        m = {}
        for e in outs:
            for k, v in e.items():
                m[k] = m.get(k, frozenset()) | v
        self.env = m

    def stmt(self, n):
        if isinstance(n, ast.Expr):
            self.ev(n.value)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value)
            if len(n.targets) == 1 and ast.dump(n.value) == ast.dump(n.targets[0]).replace('Store()', 'Load()'):
                return
            for t in n.targets:
                self.assign(t, v, n.value, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value), n.value, n)
        elif isinstance(n, ast.AugAssign):
            self.ev(n.value)
            self.aug(n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), n, 'data')
        elif isinstance(n, (ast.Return,)):
            if n.value is not None:
                self.s.ret |= self.ev(n.value)
        elif isinstance(n, ast.If):
            self.ev(n.test)
            start = dict(self.env)
            # branches in which a name is None carry no object under it
            self.branch_if(n, start)
        elif isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                it = self.ev(n.iter)
            else:
                self.ev(n.test)
            start = dict(self.env)
            each = n.iter.elts if isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)) else []
            if not 0 < len(each) <= 8 or any(isinstance(e, ast.Starred) for e in each):
                each = [None]
            for e in list(each) * 2:
                if e is not None:               # the elements are written out: one after the other
                    self.assign(n.target, self.ev(e), e, n)
                elif isinstance(n, ast.For):
                    self.bind_iter(n.target, it, n.iter)
                self.block(n.body)
                for k, v in start.items():
                    self.env[k] = self.env.get(k, frozenset()) | v
            self.block(n.orelse)
        elif isinstance(n, ast.Try):
            self.block(n.body)
            self.block(n.orelse)
            start = dict(self.env)
            for h in n.handlers:
                self.env = dict(start)
                self.block(h.body)
                if not ends(h.body):
                    for k, v in self.env.items():
                        start[k] = start.get(k, frozenset()) | v
            self.env = start
            self.block(n.finalbody)
        elif isinstance(n, ast.With):
            for i in n.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, frozenset(), i.context_expr, n)
            self.block(n.body)
        elif isinstance(n, ast.FunctionDef):
            sub = None
            for q, g in self.pr.fn.items():
                if g.node is n:
                    sub = g
            if sub is not None:
                inner = Fn(self.al, sub, self.env, self)
                inner.run()
                # what the nested function changes of the enclosing one's objects is the enclosing one's doing
                for (root, how, what), (node, via) in list(inner.s.mut.items()):
                    if root[0] == 'param' and root[1] == sub.qual:
                        continue
                    self.s.mut.setdefault((root, how, what), (node, via))
            self.env[n.name] = frozenset()
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.ev(n.exc)
        elif isinstance(n, ast.Assert):
            self.ev(n.test)

    def branch_if(self, n, start):
        nm = none_test(n.test)
        outs = []
        for body, truth in ((n.body, True), (n.orelse, False)):
            self.env = dict(start)
            if nm and nm[1] == truth:
                # here the name is None
                self.env[nm[0]] = frozenset()
            self.block(body)
            if not ends(body):
                outs.append(self.env)
        m = {}
        for e in outs or [start]:
            for k, v in e.items():
                m[k] = m.get(k, frozenset()) | v
        self.env = m

    def bind_iter(self, target, it, node):
        # zip / enumerate / items: the elements go to the parts
        if isinstance(node, ast.Call) and isinstance(target, (ast.Tuple, ast.List)):
            cn = py.callee_name(node)
            if cn == 'enumerate' and len(target.elts) == 2 and node.args:
                self.assign(target.elts[0], frozenset(), None, node)
                self.bind_iter(target.elts[1], self.ev(node.args[0]), node.args[0])
                return
            if cn == 'zip' and len(target.elts) == len(node.args):
                for t, a in zip(target.elts, node.args):
                    self.bind_iter(t, self.ev(a), a)
                return
            if cn == 'items' and len(target.elts) == 2 and isinstance(node.func, ast.Attribute):
                self.assign(target.elts[0], frozenset(), None, node)
                self.assign(target.elts[1], inner(self.ev(node.func.value)), None, node)
                return
        if isinstance(node, ast.Call) and py.callee_name(node) in ('keys', 'range', 'items'):
            it = frozenset()
        if isinstance(node, (ast.Tuple, ast.List)) and node.elts:
            if isinstance(target, (ast.Tuple, ast.List)) and all(
                    isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(target.elts) for e in node.elts):
                for k, t in enumerate(target.elts):
                    v = frozenset()
                    for e in node.elts:
                        v |= self.ev(e.elts[k])
                    self.assign(t, v, None, node)
                return
            v = frozenset()
            for e in node.elts:
                v |= self.ev(e)
            self.assign(target, v, None, node)
            return
        self.assign(target, inner(it), None, node)
        # the keys of a dictionary, the positions of a sequence
        if isinstance(target, ast.Name):
            d = node
            if isinstance(d, ast.Call) and py.callee_name(d) == 'keys' and isinstance(d.func, ast.Attribute):
                d = d.func.value
            if isinstance(d, ast.Call) and py.callee_name(d) in ('sorted', 'list') and d.args:
                d = d.args[0]
            self.keys.setdefault(target.id, set()).add(ast.dump(d))
            if isinstance(d, ast.Call) and py.callee_name(d) == 'range':
                self.keys[target.id].add('*')

    def assign(self, t, v, value, n):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(e) for e in value.elts]
                for x, y, e in zip(t.elts, vs, value.elts):
                    self.assign(x, y, e, n)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, inner(v), None, n)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = self.ev(t.value)
            self.mutate(b, n, 'data')
            for root, how in b:
                if root[0] == 'self' and how != 'box':
                    for r2, h2 in v:
                        if r2 != ('recv',):
                            self.s.store.add((root[1], r2, 'box', getattr(n, 'lineno', 0)))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if isinstance(t.value, ast.Name) and t.value.id == self.recv:
                for root, how in v:
                    self.s.store.add((t.attr, root, how, getattr(n, 'lineno', 0)))
                self.env['.' + t.attr] = v | frozenset([(('self', t.attr), 'id')])
            elif t.attr in ARRAY_ATTRS:
                self.mutate(b, n, 'object' if t.attr in OBJ_ATTRS else 'data')
            else:
                self.mutate(b, n, 'attr')
                self.chain(t)

    def chain(self, t):
        """a store through self.part.attr: the receiver's part is changed"""
        x = t.value
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x.value, ast.Name) and x.value.id == self.recv:
                self.s.mut.setdefault((('self', x.attr if isinstance(x, ast.Attribute) else '[]'), 'elem', 'attr'), (t, ()))
                return
            x = x.value

    def aug(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            v = self.env.get(t.id, frozenset())
            if v and self.arrayish(t.id, v, n):
                self.mutate(v, n, 'data')
        elif isinstance(t, ast.Subscript):
            self.mutate(self.ev(t.value), n, 'data')
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.recv:
                v = self.ev(t)
                if self.attr_array(t.attr):
                    self.mutate(v, n, 'data')
            elif t.attr in ARRAY_ATTRS:
                self.mutate(self.ev(t.value), n, 'object' if t.attr in OBJ_ATTRS else 'data')
            else:
                self.mutate(self.ev(t.value), n, 'attr')
                self.chain(t)

    def arrayish(self, name, v, n):
        """is there evidence that the name holds an array or list (so that += changes it in place)?"""
        if name in self.local_array:
            return True
        if isinstance(n.value, (ast.List, ast.ListComp)):
            return True
        for root, how in v:
            if root[0] == 'param' and root[2] in self.al.sum[root[1]].arrayish and how == 'id':
                return True
            if root[0] == 'default':
                return True
        return False

    def attr_array(self, attr):
        for f in self.pr.fn.values():
            if f.cls is None or self.f.cls is None or f.cls not in self.pr.mro(self.f.cls):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr in ARRAYISH and isinstance(x.value, ast.Attribute) \
                        and x.value.attr == attr:
                    return True
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == attr:
                    return True
        return False

    # -------------------------------------------------------- expressions
    def ev(self, n):
        if n is None:
            return frozenset()
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            t = self.pr.resolve(self.f.mod, n)
            if isinstance(t, tuple) and t[0] == 'global':
                return frozenset([(('global', t[1].name, t[2]), 'id')])
            return frozenset()
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.recv:
                k = '.' + n.attr
                if k in self.env:
                    return self.env[k]
                v = {(('self', n.attr), 'id')}
                if self.f.cls:
                    for c in self.pr.mro(self.f.cls):
                        if n.attr in c.consts:
                            v.add((('class', c.qual, n.attr), 'id'))
                            break
                return frozenset(v)
            t = self.pr.resolve(self.f.mod, n) if py.dotted(n) and py.dotted(n).split('.')[0] not in self.env else None
            if isinstance(t, tuple) and t[0] == 'global':
                return frozenset([(('global', t[1].name, t[2]), 'id')])
            b = self.ev(n.value)
            if isinstance(n.value, ast.Name) and self.is_class(n.value):
                c = self.pr.resolve(self.f.mod, n.value)
                for k in self.pr.mro(c):
                    if n.attr in k.consts:
                        return frozenset([(('class', k.qual, n.attr), 'id')])
            if n.attr in ATTR_VIEW or n.attr in ATTR_FLAT:
                return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in b if h != 'box' and r != ('recv',))
            # what an object the caller passed holds under a name
            return frozenset((r, 'part') for r, h in b if r[0] in ('param', 'self') and h in ('id', 'part', 'elem'))
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value)
            self.ev(n.slice)
            if (('recv',), 'id') in b and not isinstance(n.slice, ast.Slice):
                return frozenset([(('self', '[]'), 'elem')])
            if isinstance(n.value, ast.Attribute) and not isinstance(n.slice, (ast.Slice, ast.Tuple)) and b and \
                    all(r[0] == 'self' and h == 'part' for r, h in b):
                return b
            if isinstance(n.slice, ast.Slice):
                return frozenset((r, h if h == 'box' else 'pview' if h in ('part', 'pview') else 'view') for r, h in b if r != ('recv',))
            if isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Slice) or
                                                      (isinstance(e, ast.Constant) and e.value in (None, Ellipsis))
                                                      for e in n.slice.elts) \
                    and all(isinstance(e, ast.Slice) or isinstance(e, ast.Constant) or
                            (isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)) for e in n.slice.elts):
                return frozenset((r, h if h == 'box' else 'pview' if h in ('part', 'pview') else 'view') for r, h in b if r != ('recv',))
            if isinstance(n.slice, ast.Constant) and (n.slice.value is Ellipsis or n.slice.value is None):
                return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in b if h != 'box' and r != ('recv',))
            if isinstance(n.slice, ast.Constant) or (isinstance(n.slice, ast.UnaryOp)
                                                     and isinstance(n.slice.operand, ast.Constant)):
                return inner(b)
            if isinstance(n.slice, ast.Name) and n.slice.id in self.keys:
                k = self.keys[n.slice.id]
                if '*' in k or ast.dump(n.value) in k:
                    return inner(b)
            return frozenset()
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            v = frozenset()
            for e in n.elts:
                v |= frozenset((r, 'box') for r, h in self.ev(e.value if isinstance(e, ast.Starred) else e)
                               if r != ('recv',))
            return v
        if isinstance(n, ast.Dict):
            v = frozenset()
            for k, e in zip(n.keys, n.values):
                self.ev(k)
                v |= frozenset((r, 'box') for r, h in self.ev(e) if r != ('recv',))
            return v
        if isinstance(n, ast.IfExp):
            self.ev(n.test)
            nm = none_test(n.test)
            a, b = self.ev(n.body), self.ev(n.orelse)
            return a | b
        if isinstance(n, ast.BoolOp):
            v = frozenset()
            for e in n.values:
                v |= self.ev(e)
            return v
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.env[n.target.id] = v
            return v
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            for g in n.generators:
                self.bind_iter(g.target, self.ev(g.iter), g.iter)
                for c in g.ifs:
                    self.ev(c)
            if isinstance(n, ast.DictComp):
                self.ev(n.key)
                v = self.ev(n.value)
            else:
                v = self.ev(n.elt)
            self.env = save
            return frozenset((r, 'box') for r, h in v if r != ('recv',))
        if isinstance(n, ast.Lambda):
            save = dict(self.env)
            for a in n.args.args:
                self.env[a.arg] = frozenset()
            self.ev(n.body)
            self.env = save
            return frozenset()
        if isinstance(n, ast.Starred):
            return self.ev(n.value)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return frozenset()

    def is_class(self, n):
        return n.id not in self.env and isinstance(self.pr.resolve(self.f.mod, n), py.Class)

    def callee(self, n):
        """Func, ('method', [Func], receiver value), ('ext', dotted) or None"""
        fn = n.func
        if isinstance(fn, ast.Name):
            if fn.id in self.env:
                o = self
                while o is not None:
                    q = o.f.qual + '.' + fn.id
                    if q in self.pr.fn:
                        return self.pr.fn[q]
                    o = o.outer
                return None
            return self.pr.resolve(self.f.mod, fn)
        if isinstance(fn, ast.Attribute):
            d = py.dotted(fn)
            if d and d.split('.')[0] not in self.env:
                t = self.pr.resolve(self.f.mod, fn)
                if t is not None:
                    return t
            if isinstance(fn.value, ast.Name) and fn.value.id == self.recv and self.f.cls:
                m = self.pr.method(self.f.cls, fn.attr)
                if m is not None:
                    return m
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                    and self.f.cls:
                for c in self.pr.mro(self.f.cls)[1:]:
                    if fn.attr in c.methods:
                        return c.methods[fn.attr]
        return None

    def call(self, n):
        self.al.calls += 1
        args = [(self.ev(a.value if isinstance(a, ast.Starred) else a), a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        name = py.callee_name(n)
        t = self.callee(n)
        if 'out' in kws:
            self.mutate(kws['out'], n, 'data')
        if isinstance(t, py.Class):
            init = self.pr.method(t, '__init__')
            if init is not None:
                self.apply(init, [(frozenset(), None)] + args, kws, n, own=False)
            return frozenset()
        if isinstance(t, py.Func):
            bound = False
            a = args
            own = False
            if t.cls is not None and not t.static:
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == self.recv:
                    a = [(self.env[self.recv], None)] + args
                    own = True
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call):
                    a = [(self.env.get(self.recv, frozenset()), None)] + args
                    own = True
                elif args and isinstance(args[0][1], ast.Name) and args[0][1].id == self.recv:
                    own = True
            return self.apply(t, a, kws, n, own)
        if isinstance(t, tuple) and t[0] == 'ext':
            return self.external(t[1], args, kws, n)
        if isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value)
            if name in METH_VIEW:
                return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in b if h != 'box' and r != ('recv',))
            if name == 'filled':
                return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in b if h != 'box' and r != ('recv',))
            if name == 'astype':
                c = [k.value for k in n.keywords if k.arg == 'copy']
                if c and isinstance(c[0], ast.Constant) and not c[0].value:
                    return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in b if h != 'box' and r != ('recv',))
                return frozenset()
            if name in ('get', 'pop', 'setdefault', 'popitem', '__getitem__'):
                if name != 'get' and name != '__getitem__':
                    self.mut_method(b, n, name)
                return inner(b)
            if name in ('values', 'items', '__iter__'):
                return frozenset((r, 'box') for r, h in b if r != ('recv',))
            if name in MUT_METH:
                self.mut_method(b, n, name)
                return frozenset()
            if name in MUT_ARRAY_ONLY and n.args:
                if name == 'resize' or (isinstance(n.args[0], ast.Constant) and n.args[0].value):
                    self.mutate(b, n, 'data')
                return frozenset()
            if name == 'at' and isinstance(n.func.value, ast.Attribute) and args:
                self.mutate(args[0][0], n, 'data')
            # a method of some project object: what every candidate of that name does
            cands = [c.methods[name] for c in self.pr.all_classes() if name in c.methods]
            if cands and name not in MUT_METH:
                self.apply_any(cands, args, kws, n)
                if all(any(r[0] == 'self' and h in ('id', 'view') for r, h in self.al.sum[c.qual].ret) for c in cands
                       if c.qual in self.al.sum):
                    return frozenset((r, 'part') for r, h in b if r[0] == 'param' and h in ('id', 'part'))
        return frozenset()

    def mut_method(self, b, n, name):
        # .add/.update/.pop/... of project objects are not container operations
        keep = frozenset((r, h) for r, h in b if not self.project_object(n.func.value, name))
        self.mutate(keep, n, 'data')

    def project_object(self, node, name):
        """the receiver is an object of this project having such a method: not a container operation, unless the name is
        used as a container elsewhere in the function"""
        if isinstance(node, ast.Name) and node.id in self.local_array:
            return False
        if isinstance(node, ast.Attribute) or isinstance(node, ast.Subscript):
            return any(name in c.methods for c in self.pr.all_classes())
        if isinstance(node, ast.Name):
            return any(name in c.methods for c in self.pr.all_classes())
        return False

    def external(self, d, args, kws, n):
        last = d.split('.')[-1]
        mod = d.split('.')[0]
        a0 = args[0][0] if args else frozenset()
        if d in self.al.native_mut or last in self.al.native_mut:
            for k in self.al.native_mut.get(d, self.al.native_mut.get(last, ())):
                if k < len(args):
                    self.mutate(args[k][0], n, 'data')
            return frozenset()
        if mod in NP:
            if '.ma.' in d or d.startswith('numpy.ma'):
                if last in MA_VIEW:
                    c = [k.value for k in n.keywords if k.arg == 'copy']
                    if c and isinstance(c[0], ast.Constant) and c[0].value:
                        return frozenset()
                    v = a0
                    return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in v if h != 'box' and r != ('recv',))
                return frozenset()
            if last in NP_MUT or (last == 'at' and d.count('.') >= 2):
                self.mutate(a0, n, 'data')
                return frozenset()
            if last in NP_VIEW:
                if last in ('asarray', 'asanyarray', 'ascontiguousarray', 'require', 'atleast_1d', 'atleast_2d',
                            'atleast_3d', 'squeeze'):
                    return frozenset((r, h) for r, h in a0 if h != 'box' and r != ('recv',))
                return frozenset((r, 'pview' if h in ('part', 'pview') else 'view') for r, h in a0 if h != 'box' and r != ('recv',))
            if last == 'array':
                c = [k.value for k in n.keywords if k.arg == 'copy']
                if c and isinstance(c[0], ast.Constant) and not c[0].value:
                    return frozenset((r, h) for r, h in a0 if h != 'box' and r != ('recv',))
                return frozenset()
            return frozenset()
        if d in ('list', 'tuple', 'set', 'dict', 'reversed', 'sorted', 'iter', 'zip', 'enumerate', 'map', 'filter',
                 'itertools.chain', 'copy.copy'):
            v = frozenset()
            for a, _ in args:
                v |= frozenset((r, 'box') for r, h in a if r != ('recv',))
            return v
        if d == 'next':
            return inner(a0)
        if d == 'getattr' and len(args) >= 2 and isinstance(args[1][1], ast.Constant) and isinstance(args[0][1], ast.Name) \
                and args[0][1].id == self.recv:
            return frozenset([(('self', args[1][1].value), 'id')])
        if d == 'setattr' and len(args) == 3 and isinstance(args[1][1], ast.Constant) and isinstance(args[0][1], ast.Name) \
                and args[0][1].id == self.recv:
            for root, how in args[2][0]:
                self.s.store.add((args[1][1].value, root, how, n.lineno))
        return frozenset()

    def match(self, t, args, kws):
        """param name -> value"""
        out = {}
        ps = list(t.params)
        for i, (v, a) in enumerate(args):
            if isinstance(a, ast.Starred):
                # an unpacked argument: its elements may be any of the remaining parameters - not followed
                break
            if i < len(ps):
                out[ps[i]] = v
            elif t.vararg:
                out['*' + t.vararg] = out.get('*' + t.vararg, frozenset()) | v
        for k, v in kws.items():
            if k in ps or k in t.kwonly:
                out[k] = v
        return out

    def apply(self, t, args, kws, n, own):
        s = self.al.sum.get(t.qual)
        if s is None:
            return frozenset()
        bind = self.match(t, args, kws)
        for (root, how, what), (node, via) in list(s.mut.items()):
            v = self.sub(root, how, bind, t, own)
            self.mutate(v, n, what, via=(t.qual,) + tuple(via)[:3])
        if own:
            for attr, root, how, line in list(s.store):
                if root[0] == 'param':
                    for r2, h2 in self.sub(root, how, bind, t, own):
                        self.s.store.add((attr, r2, h2, -abs(line)))
        out = frozenset()
        for root, how in s.ret:
            out |= self.sub(root, how, bind, t, own)
        if t.cls is not None and not own and t.name == '__init__':
            return frozenset()
        return out

    def apply_any(self, cands, args, kws, n):
        """effects on the arguments that every candidate has"""
        common = None
        for t in cands:
            s = self.al.sum.get(t.qual)
            bind = self.match(t, [(frozenset(), None)] + args, kws)
            got = set()
            for (root, how, what) in s.mut:
                if root[0] != 'param' or root[1] != t.qual:
                    continue
                for r, h in self.sub(root, how, bind, t, False):
                    got.add((r, h, what))
            common = got if common is None else common & got
        for r, h, what in common or ():
            self.mutate(frozenset([(r, h)]), n, what, via=(cands[0].qual,))

    def sub(self, root, how, bind, t, own):
        """the caller's values behind the callee's (root, how)"""
        if root[0] == 'param':
            if root[1] != t.qual:
                return frozenset()
            v = bind.get(root[2], frozenset())
            out = set()
            for r, h in v:
                if r == ('recv',):
                    continue
                h2 = compose(h, how)
                if h2:
                    out.add((r, h2))
            return frozenset(out)
        if root[0] == 'default':
            if root[2] in bind:
                return frozenset()
            return frozenset([(root, how)])
        if root[0] == 'self':
            return frozenset([(root, how)]) if own else frozenset()
        return frozenset([(root, how)])


def compose(h, how):
    """what 'how' of something that is 'h' of a root is to that root"""
    if h == 'box':
        if how in ('part', 'pview'):
            return None
        return {'id': 'box', 'view': 'box', 'elem': 'elem', 'box': 'box'}[how]
    if how == 'box':
        return 'box'
    if how == 'id':
        return h
    if how in ('part', 'pview'):
        return how if h in ('id', 'part', 'elem') else None
    if h in ('part', 'pview'):
        return 'pview' if how == 'view' or h == 'pview' else 'part'
    if how == 'view':
        return 'view'
    return 'elem' if h in ('id', 'elem') else 'view'


def inner(v):
    """what unpacking / indexing / iterating gives"""
    out = set()
    for r, h in v:
        if r == ('recv',):
            continue
        out.add((r, {'id': 'elem', 'elem': 'elem', 'view': 'view', 'box': 'elem', 'part': 'part', 'pview': 'pview'}[h]))
    return frozenset(out)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def none_test(t):
    """(name, truth value under which it is None)"""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        neg = not neg
        t = t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return (t.left.id, not neg)
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return (t.left.id, neg)
    return None
