"""LLVM-IR front end: the resolved, macro-expanded program of the C/C++
extensions, compiled from /repo's current tree with the build's own sources,
include directories and macros.  Nothing is executed; clang only translates."""
import ast as pyast
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor vanished or a unit could not be parsed: not a verdict."""


# ---------------------------------------------------------------- build model

def extensions():
    """Read the Extension(...) table out of setup.py's syntax tree:
    {module: (sources, include_dirs relative, macros)}"""
    src = open(os.path.join(REPO, 'setup.py')).read()
    tree = pyast.parse(src)
    macros_env = {}

    def lst(node):
        if isinstance(node, pyast.List):
            out = []
            for e in node.elts:
                if isinstance(e, pyast.Constant):
                    out.append(e.value)
                elif isinstance(e, pyast.Tuple):
                    out.append(tuple(x.value if isinstance(x, pyast.Constant) else None for x in e.elts))
                else:
                    out.append(('dyn', pyast.unparse(e)))
            return out
        if isinstance(node, pyast.BinOp) and isinstance(node.op, pyast.Add):
            return lst(node.left) + lst(node.right)
        if isinstance(node, pyast.Call) and getattr(node.func, 'id', '') == 'indir':
            d = node.args[0].value
            return [os.path.join(d, e) for e in lst(node.args[1])]
        if isinstance(node, pyast.Name):
            return macros_env.get(node.id, [])
        return []
    for n in pyast.walk(tree):
        if isinstance(n, pyast.Assign) and isinstance(n.value, pyast.List) and isinstance(n.targets[0], pyast.Name):
            macros_env[n.targets[0].id] = lst(n.value)
    out = {}
    for n in pyast.walk(tree):
        if isinstance(n, pyast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'Extension':
            name = n.args[0].value
            srcs = lst(n.args[1])
            inc, mac = [], []
            for k in n.keywords:
                if k.arg == 'include_dirs':
                    inc = [x for x in lst(k.value) if isinstance(x, str)]
                if k.arg == 'define_macros':
                    mac = [x for x in lst(k.value) if isinstance(x, tuple)]
            out[name] = (srcs, inc, mac)
    if not out:
        raise AnalysisBroken('no Extension(...) found in setup.py')
    return out


def _py_includes():
    r = subprocess.run(['/opt/venv/bin/python', '-c',
                        "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot locate Python/numpy headers: ' + r.stderr[-300:])
    return r.stdout.split()


_CACHE = {}


def compile_extension(ext, inline=None, only=None, passes='mem2reg', keep=None):
    """Compile extension `ext` to one linked, SSA-form IR module.
    inline: predicate(function name, linkage) -> bool: mark alwaysinline."""
    exts = extensions()
    if ext not in exts:
        raise AnalysisBroken('extension %s not in setup.py' % ext)
    srcs, inc, mac = exts[ext]
    if only:
        srcs = [s for s in srcs if os.path.basename(s) in only]
        if len(srcs) != len(only):
            raise AnalysisBroken('sources %s of %s not all in setup.py' % (only, ext))
    incs = _py_includes() + [os.path.join(REPO, i) for i in inc]
    flags = ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', '-w',
             '-fno-strict-aliasing', '-DNDEBUG']
    flags += ['-I' + i for i in incs]
    for m in mac:
        flags.append('-D%s%s' % (m[0], '' if m[1] is None else '=' + m[1]))
    tmp = tempfile.mkdtemp(prefix='sa_ir_')
    try:
        outs = []
        procs = []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + '.ll')
            cc = ['clang++'] if s.endswith('.cpp') else ['clang', '-fexceptions']
            procs.append((s, o, subprocess.Popen(cc + flags + [os.path.join(REPO, s), '-o', o],
                                                 stderr=subprocess.PIPE, text=True)))
        for s, o, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise AnalysisBroken('clang failed on %s: %s' % (s, err[-600:]))
            outs.append(o)
        linked = os.path.join(tmp, 'all.ll')
        if len(outs) > 1:
            r = subprocess.run(['llvm-link', '-S'] + outs + ['-o', linked], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('llvm-link: ' + r.stderr[-400:])
        else:
            linked = outs[0]
        if inline is not None:
            txt = open(linked).read()
            # only what the analysis asks for is inlined
            txt = re.sub(r'^(attributes #\d+ = \{.*)$', lambda k: k.group(1).replace(' alwaysinline', ''), txt, flags=re.M)
            txt = _mark_inline(txt, inline)
            linked2 = os.path.join(tmp, 'inl.ll')
            open(linked2, 'w').write(txt)
            linked = linked2
            passes = 'always-inline,' + passes
        final = os.path.join(tmp, 'final.ll')
        r = subprocess.run(['opt', '-S', '-passes=' + passes, linked, '-o', final], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt: ' + r.stderr[-400:])
        if keep:
            shutil.copy(final, keep)
        return Module(open(final).read(), srcs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_DEF = re.compile(r'^define (.*?)@("?[\w.$]+"?)\(', re.M)


def _mark_inline(txt, pred):
    # direct recursion cannot be inlined away; LLVM copes (it leaves a call)
    out = []
    for line in txt.split('\n'):
        if line.startswith('define '):
            m = _DEF.match(line)
            name = m.group(2).strip('"')
            if pred(name, m.group(1)):
                # insert before the attribute group / trailing parts
                i = _close(line, m.end() - 1)
                line = line[:i + 1] + re.sub(r'^((?: unnamed_addr| local_unnamed_addr)?)', r'\1 alwaysinline', line[i + 1:], count=1)
        out.append(line)
    return '\n'.join(out)


def _close(s, i):
    d = 0
    q = False
    while i < len(s):
        c = s[i]
        if c == '"':
            q = not q
        elif not q:
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise AnalysisBroken('unbalanced parens in IR line: ' + s[:80])


# ------------------------------------------------------------------- IR model

class V(tuple):
    """operand: ('reg',n) ('int',k) ('null',) ('glob',n) ('undef',) ('float',t)
    ('gep',base,[idx...]) constant expression, ('other',text), ('meta',t)"""
    __slots__ = ()

    @property
    def kind(self):
        return self[0]


class Inst:
    __slots__ = ('res', 'op', 'ty', 'ops', 'fn', 'block', 'idx', 'dbg', 'text', 'x')

    def __init__(self):
        self.res = None
        self.op = None
        self.ty = None
        self.ops = []
        self.fn = None
        self.block = None
        self.idx = 0
        self.dbg = None
        self.text = ''
        self.x = {}

    def callee(self):
        return self.x.get('callee')

    def __repr__(self):
        return '<%s>' % self.text.strip()[:100]


class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.params = []      # (type, reg)
        self.ret = None
        self.linkage = ''
        self.blocks = {}
        self.order = []
        self.entry = None
        self.dbg = None
        self._defs = None
        self._uses = None

    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i

    @property
    def defs(self):
        if self._defs is None:
            self._defs = {i.res: i for i in self.insts() if i.res}
        return self._defs

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts():
                for o in i.ops:
                    for r in regs_of(o):
                        u.setdefault(r, []).append(i)
            self._uses = u
        return self._uses

    def calls(self, *names):
        for i in self.insts():
            if i.op in ('call', 'invoke') and (not names or i.callee() in names):
                yield i

    def pretty(self):
        return demangle(self.name)

    def dominators(self):
        order = self.rpo()
        idx = {b: k for k, b in enumerate(order)}
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = set(allb)
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.blocks[b].pred if p in idx]
                n = set.intersection(*[dom[p] for p in ps]) if ps else set()
                n = n | {b}
                if n != dom[b]:
                    dom[b] = n
                    changed = True
        return dom

    def rpo(self):
        seen = set()
        out = []
        stack = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]


def regs_of(v):
    if v[0] == 'reg':
        yield v[1]
    elif v[0] in ('gep', 'cast', 'cexpr'):
        for x in v[1:]:
            if isinstance(x, V):
                for r in regs_of(x):
                    yield r


_DEM = {}


def demangle(n):
    if not n.startswith('_Z'):
        return n
    if n not in _DEM:
        r = subprocess.run(['c++filt', '-p', n], capture_output=True, text=True)
        _DEM[n] = r.stdout.strip() or n
    return _DEM[n]


def base_name(n):
    """source-level name of a possibly mangled function"""
    if n is None:
        return None
    if not n.startswith('_Z'):
        return n
    d = demangle(n)
    return d.split('::')[-1].split('(')[0]


class Module:
    def __init__(self, text, srcs=()):
        self.srcs = list(srcs)
        self.globals = {}
        self.decls = set()
        self.functions = {}
        self.meta = {}
        self.types = {}
        self._parse(text)

    # -- metadata
    def line(self, inst):
        """(file, line) of an instruction, resolving inlining to the outermost
        user-written location of the instruction itself"""
        d = inst.dbg if isinstance(inst, Inst) else inst
        if d is None:
            if isinstance(inst, Inst):
                # nearest previous instruction with a location
                blk = inst.fn.blocks[inst.block]
                for j in range(inst.idx, -1, -1):
                    if blk.insts[j].dbg:
                        d = blk.insts[j].dbg
                        break
            if d is None:
                return ('?', 0)
        m = self.meta.get(d, '')
        ln = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: !(\d+)', m)
        f = self.scope_file(sc.group(1)) if sc else '?'
        return (f, int(ln.group(1)) if ln else 0)

    def scope_file(self, s):
        for _ in range(50):
            m = self.meta.get(s, '')
            f = re.search(r'file: !(\d+)', m)
            if m.startswith('!DIFile') or 'DIFile(' in m:
                break
            if f:
                fm = self.meta.get(f.group(1), '')
                n = re.search(r'filename: "([^"]*)"', fm)
                return os.path.relpath(n.group(1), REPO) if n and n.group(1).startswith(REPO) else (n.group(1) if n else '?')
            sc = re.search(r'scope: !(\d+)', m)
            if not sc:
                break
            s = sc.group(1)
        return '?'

    def where(self, inst):
        f, l = self.line(inst)
        return '%s:%d' % (f, l)

    def repo_defined(self):
        """functions whose source lies in /repo"""
        out = []
        for f in self.functions.values():
            if f.dbg and not os.path.isabs(self.scope_file(f.dbg)) and self.scope_file(f.dbg) != '?':
                out.append(f)
        return out

    def fn(self, source_name):
        """function by source-level name"""
        if source_name in self.functions:
            return self.functions[source_name]
        c = [f for n, f in self.functions.items() if n.startswith('_Z') and base_name(n) == source_name]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken('function %s: %d definitions in the IR' % (source_name, len(c)))

    def has(self, source_name):
        try:
            self.fn(source_name)
            return True
        except AnalysisBroken:
            return False

    def string(self, v):
        """C string literal an operand points to (or None)"""
        off = 0
        while v[0] == 'gep':
            if any(x[0] != 'int' for x in v[3:]):
                return None
            if len(v) > 3:
                off = v[-1][1]
            v = v[2]
        if v[0] != 'glob':
            return None
        g = self.globals.get(v[1])
        if not g:
            return None
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*)"', g)
        if m:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1).replace('\\\\', '\\5C'))
            s = s[off:]
            return s.split('\0')[0]
        if 'zeroinitializer' in g:
            return ''
        return None

    def bytes_of(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*)"', g)
        if m:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
            return tuple(ord(c) for c in s)
        m = re.search(r'\[(\d+) x i8\] zeroinitializer', g)
        if m:
            return (0,) * int(m.group(1))
        return None

    # -- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                self._parse_fn(lines[i:j])
                i = j + 1
                continue
            if ln.startswith('@'):
                m = re.match(r'@("?[^"\s=]+"?) = (.*)$', ln)
                if m:
                    self.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('declare '):
                m = re.search(r'@("?[\w.$]+"?)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2).replace('distinct ', '', 1)
            elif ln.startswith('%'):
                m = re.match(r'(%\S+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            i += 1

    def _parse_fn(self, lines):
        h = lines[0]
        m = _DEF.match(h)
        name = m.group(2).strip('"')
        f = Function(name, self)
        f.linkage = m.group(1)
        pe = _close(h, m.end() - 1)
        P = Tok(h[m.end():pe])
        while not P.end():
            if P.peek() == '...':
                P.next()
                break
            ty = P.type()
            P.attrs()
            r = None
            if not P.end() and P.peek().startswith('%'):
                r = P.next()[1:].strip('"')
            else:
                r = str(len(f.params))
            f.params.append((ty, r))
            if not P.end():
                P.expect(',')
        d = re.search(r'!dbg !(\d+)', h[pe:])
        f.dbg = d.group(1) if d else None
        # implicit numbering of an unnamed entry block
        cur = None
        i = 1
        while i < len(lines):
            s = lines[i]
            i += 1
            if not s.strip():
                continue
            if not s.startswith(' '):
                mm = re.match(r'("?[^":]+"?):', s)
                cur = Block(mm.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('entry#')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            t = s.strip()
            if t.startswith(';'):
                continue
            # multi-line instructions
            if t.startswith('switch ') or ' = switch ' in t:
                while ']' not in lines[i - 1]:
                    t += ' ' + lines[i].strip()
                    i += 1
            if re.search(r'(^|= )(tail |musttail |notail )?invoke ', t) or t.startswith('invoke '):
                t += ' ' + lines[i].strip()
                i += 1
            if 'landingpad' in t:
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    t += ' ' + lines[i].strip()
                    i += 1
            if 'llvm.dbg.' in t or 'llvm.lifetime' in t or 'experimental.noalias' in t or t.startswith('#dbg'):
                continue
            ins = self._parse_inst(t)
            ins.fn = f
            ins.block = cur.name
            ins.idx = len(cur.insts)
            cur.insts.append(ins)
        f.entry = f.order[0]
        for b in f.blocks.values():
            if b.insts:
                b.succ = list(dict.fromkeys(b.insts[-1].x.get('succ', [])))
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].pred.append(b.name)
        # drop unreachable blocks
        reach = set(f.rpo())
        f.order = [b for b in f.order if b in reach]
        f.blocks = {b: f.blocks[b] for b in f.order}
        for b in f.blocks.values():
            b.pred = [p for p in b.pred if p in reach]
        self.functions[name] = f

    def _parse_inst(self, t):
        ins = Inst()
        ins.text = t
        d = re.search(r', !dbg !(\d+)', t)
        if d:
            ins.dbg = d.group(1)
        body = re.sub(r'(, ![\w.]+ !\d+)+$', '', t)
        body = re.sub(r'(, ![\w.]+ !\d+)+( to label)', r'\2', body)
        m = re.match(r'%("?[^"\s=]+"?) = ', body)
        if m:
            ins.res = m.group(1).strip('"')
            body = body[m.end():]
        P = Tok(body)
        op = P.next()
        while op in ('tail', 'musttail', 'notail'):
            op = P.next()
        ins.op = op
        try:
            getattr(self, '_i_' + op, self._i_generic)(ins, P)
        except AnalysisBroken:
            raise
        except Exception as e:
            raise AnalysisBroken('IR parse error (%s) in: %s' % (e, t[:200]))
        return ins

    def _i_generic(self, ins, P):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            while P.peek() in FLAGS:
                P.next()
            ins.ty = P.type()
            ins.ops.append(P.value())
            if op != 'fneg':
                P.expect(',')
                ins.ops.append(P.value())
        elif op in ('icmp', 'fcmp'):
            while P.peek() in FLAGS:
                P.next()
            ins.x['pred'] = P.next()
            ins.ty = P.type()
            ins.ops.append(P.value())
            P.expect(',')
            ins.ops.append(P.value())
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint',
                    'inttoptr', 'bitcast', 'addrspacecast'):
            while P.peek() in FLAGS:
                P.next()
            ins.x['from'] = P.type()
            ins.ops.append(P.value())
            P.expect('to')
            ins.ty = P.type()
        elif op == 'unreachable':
            pass
        elif op == 'freeze':
            ins.ty = P.type()
            ins.ops.append(P.value())
        elif op in ('va_arg', 'fence', 'cmpxchg', 'atomicrmw', 'extractelement', 'insertelement', 'shufflevector'):
            pass
        else:
            raise AnalysisBroken('unknown IR opcode %s' % op)

    def _i_alloca(self, ins, P):
        ins.x['alloc'] = P.type()
        ins.ty = 'ptr'
        if not P.end() and P.peek() == ',':
            P.next()
            if P.peek() not in ('align',):
                P.type()
                ins.ops.append(P.value())

    def _i_load(self, ins, P):
        if P.peek() in ('volatile', 'atomic'):
            P.next()
        ins.ty = P.type()
        P.expect(',')
        P.type()
        ins.ops.append(P.value())

    def _i_store(self, ins, P):
        if P.peek() in ('volatile', 'atomic'):
            P.next()
        ins.ty = P.type()
        ins.ops.append(P.value())
        P.expect(',')
        P.type()
        ins.ops.append(P.value())

    def _i_getelementptr(self, ins, P):
        while P.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            P.next()
        ins.x['elem'] = P.type()
        ins.ty = 'ptr'
        while not P.end():
            P.expect(',')
            P.type()
            ins.ops.append(P.value())

    def _i_phi(self, ins, P):
        while P.peek() in FLAGS:
            P.next()
        ins.ty = P.type()
        inc = []
        while not P.end():
            P.expect('[')
            v = P.value()
            P.expect(',')
            b = P.next()[1:].strip('"')
            P.expect(']')
            inc.append((v, b))
            ins.ops.append(v)
            if not P.end():
                P.expect(',')
        ins.x['inc'] = inc

    def _i_select(self, ins, P):
        while P.peek() in FLAGS:
            P.next()
        P.type()
        ins.ops.append(P.value())
        P.expect(',')
        ins.ty = P.type()
        ins.ops.append(P.value())
        P.expect(',')
        P.type()
        ins.ops.append(P.value())

    def _i_br(self, ins, P):
        if P.peek() == 'label':
            P.next()
            ins.x['succ'] = [P.next()[1:].strip('"')]
        else:
            P.type()
            ins.ops.append(P.value())
            P.expect(',')
            P.expect('label')
            a = P.next()[1:].strip('"')
            P.expect(',')
            P.expect('label')
            b = P.next()[1:].strip('"')
            ins.x['succ'] = [a, b]

    def _i_switch(self, ins, P):
        ins.ty = P.type()
        ins.ops.append(P.value())
        P.expect(',')
        P.expect('label')
        d = P.next()[1:].strip('"')
        P.expect('[')
        cases = []
        while P.peek() != ']':
            P.type()
            k = P.value()
            P.expect(',')
            P.expect('label')
            cases.append((k[1], P.next()[1:].strip('"')))
        ins.x['default'] = d
        ins.x['cases'] = cases
        ins.x['succ'] = [d] + [b for _, b in cases]

    def _i_ret(self, ins, P):
        if P.peek() == 'void':
            ins.ty = 'void'
            return
        ins.ty = P.type()
        ins.ops.append(P.value())

    def _i_resume(self, ins, P):
        ins.ty = P.type()
        ins.ops.append(P.value())

    def _i_extractvalue(self, ins, P):
        ins.x['agg'] = P.type()
        ins.ops.append(P.value())
        idx = []
        while not P.end():
            P.expect(',')
            idx.append(int(P.next()))
        ins.x['idx'] = idx

    def _i_insertvalue(self, ins, P):
        ins.ty = P.type()
        ins.ops.append(P.value())
        P.expect(',')
        P.type()
        ins.ops.append(P.value())
        idx = []
        while not P.end():
            P.expect(',')
            idx.append(int(P.next()))
        ins.x['idx'] = idx

    def _i_landingpad(self, ins, P):
        ins.ty = P.type()
        cl = []
        while not P.end():
            k = P.next()
            if k == 'cleanup':
                cl.append(('cleanup', None))
            elif k in ('catch', 'filter'):
                P.type()
                cl.append((k, P.value()))
        ins.x['clauses'] = cl

    def _i_call(self, ins, P):
        self._callsite(ins, P)

    def _i_invoke(self, ins, P):
        self._callsite(ins, P)
        P.skip_to('to')
        P.expect('to')
        P.expect('label')
        a = P.next()[1:].strip('"')
        P.expect('unwind')
        P.expect('label')
        b = P.next()[1:].strip('"')
        ins.x['succ'] = [a, b]
        ins.x['normal'] = a
        ins.x['unwind'] = b

    def _callsite(self, ins, P):
        while P.peek() in FLAGS or P.peek() in CCONV:
            P.next()
        P.attrs()
        ins.ty = P.type()
        # optional function type in parentheses for varargs
        if P.peek() == '(':
            P.skip_parens()
        while P.peek() == '*':
            P.next()
        c = P.value()
        ins.x['calleev'] = c
        ins.x['callee'] = c[1] if c[0] == 'glob' else None
        if c[0] == 'other' and c[1] == 'asm':
            ins.x['callee'] = '#asm'
        P.expect('(')
        args = []
        tys = []
        while P.peek() != ')':
            ty = P.type()
            if ty == 'metadata':
                P.skip_meta()
                args.append(V(('meta', '')))
                tys.append(ty)
            else:
                P.attrs()
                args.append(P.value())
                tys.append(ty)
            if P.peek() == ',':
                P.next()
        P.expect(')')
        ins.x['args'] = args
        ins.x['argty'] = tys
        ins.ops = list(args)
        if c[0] != 'glob':
            ins.ops.append(c)


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'samesign'}
CCONV = {'ccc', 'fastcc', 'coldcc', 'cc'}
ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
        'returned', 'immarg', 'inreg', 'nofree', 'noinline', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'nounwind'}

TOK = re.compile(r'\s*("[^"]*"|c"(?:[^"])*"|%"[^"]*"|@"[^"]*"|%[\w.$\-]+|@[\w.$\-]+|!\w+|![^\s,()]*|-?\d+\.\d+(?:e[+-]?\d+)?'
                 r'|0x[0-9A-FKLMH]+|-?\d+|\.\.\.|[\w.#\-]+|[()\[\]{}<>,=*|])')


class Tok:
    def __init__(self, s):
        self.t = []
        i = 0
        n = len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == '':
                    break
                raise AnalysisBroken('IR lex error: ' + s[i:i + 40])
            self.t.append(m.group(1))
            i = m.end()
        self.i = 0

    def end(self):
        return self.i >= len(self.t)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, c):
        x = self.next()
        if x != c:
            raise AnalysisBroken('IR: expected %r got %r in %s' % (c, x, ' '.join(self.t)[:200]))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def skip_meta(self):
        d = 0
        while True:
            x = self.peek()
            if d == 0 and x in (',', ')'):
                return
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
            self.next()

    def skip_to(self, w):
        while self.peek() != w:
            self.next()

    def attrs(self):
        while not self.end():
            p = self.peek()
            if p in ATTR:
                self.next()
            elif p in ('align',):
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'initializes',
                       'captures', 'nofpclass', 'memory', 'byref', 'inalloca', 'preallocated'):
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
            else:
                break

    def type(self):
        p = self.next()
        if p in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[p]
            d = 1
            out = [p]
            while d:
                x = self.next()
                if x in ('[', '<', '{', '('):
                    d += 1
                elif x in (']', '>', '}', ')'):
                    d -= 1
                out.append(x)
            ty = ' '.join(out)
        else:
            ty = p
        if self.peek() == '(' and False:
            self.skip_parens()
        while self.peek() == '*':
            self.next()
            ty += '*'
        if self.peek() == 'addrspace':
            self.next()
            self.skip_parens()
        return ty

    def value(self):
        p = self.peek()
        if p.startswith('%'):
            self.next()
            return V(('reg', p[1:].strip('"')))
        if p.startswith('@'):
            self.next()
            return V(('glob', p[1:].strip('"')))
        if re.fullmatch(r'-?\d+', p):
            self.next()
            return V(('int', int(p)))
        if p in ('true', 'false'):
            self.next()
            return V(('int', 1 if p == 'true' else 0))
        if p == 'null':
            self.next()
            return V(('null',))
        if p in ('undef', 'poison'):
            self.next()
            return V(('undef',))
        if p == 'zeroinitializer':
            self.next()
            return V(('int', 0))
        if p == 'getelementptr':
            self.next()
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            ety = self.type()
            self.expect(',')
            self.type()
            base = self.value()
            idx = []
            while self.peek() == ',':
                self.next()
                if self.peek() == 'inrange':
                    self.next()
                self.type()
                idx.append(self.value())
            self.expect(')')
            return V(('gep', ety, base) + tuple(idx))
        if p in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.next()
            self.expect('(')
            self.type()
            v = self.value()
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if p in ('add', 'sub', 'mul', 'icmp', 'and', 'or', 'xor', 'select', 'shl'):
            self.next()
            while self.peek() != '(':
                self.next()
            self.skip_parens()
            return V(('other', p))
        if p == 'asm':
            while self.peek() != '(':
                self.next()
            return V(('other', 'asm'))
        if p in ('{', '[', '<'):
            self.type()
            return V(('other', 'agg'))
        if p == 'c' or p.startswith('c"'):
            self.next()
            return V(('other', 'cstr'))
        self.next()
        return V(('float', p))
