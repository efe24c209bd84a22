"""A model of the CPython and numpy C interfaces for path-sensitive typestate
analysis (sa.pathsim) of extension entry points: references, exception state,
types, shapes.  The interface functions are modelled from their documentation;
the extension's own small helpers are inlined by the compiler front end."""
import glob
import os
import re

from sa import ir, cg
from sa.ir import AnalysisBroken, base_name
from sa.pathsim import Sim, Hooks, State, RState, C, root, INF

NPY = {'BOOL': 0, 'BYTE': 1, 'UBYTE': 2, 'SHORT': 3, 'USHORT': 4, 'INT': 5, 'UINT': 6, 'LONG': 7, 'ULONG': 8, 'LONGLONG': 9,
       'ULONGLONG': 10, 'FLOAT': 11, 'DOUBLE': 12, 'LONGDOUBLE': 13, 'CFLOAT': 14, 'CDOUBLE': 15, 'CLONGDOUBLE': 16, 'OBJECT': 17}
NPYNAME = {v: k for k, v in NPY.items()}
SIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 14: 8, 15: 16, 16: 32}
# how one element is laid out: (scalar LLVM type, scalars per element)
LAYOUT = {0: ('i8', 1), 1: ('i8', 1), 2: ('i8', 1), 3: ('i16', 1), 4: ('i16', 1), 5: ('i32', 1), 6: ('i32', 1), 7: ('i64', 1), 8: ('i64', 1),
          9: ('i64', 1), 10: ('i64', 1), 11: ('float', 1), 12: ('double', 1), 13: ('x86_fp80', 1), 14: ('float', 2), 15: ('double', 2), 16: ('x86_fp80', 2)}
ARR = ('nfn', 2)
CONTIG = 1
SINGLE = {'_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_EllipsisObject'}

# calls whose result is a new reference, or NULL with an exception set
NEWREF = {'PyLong_FromLong', 'PyLong_FromUnsignedLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t', 'PyLong_FromSize_t', 'PyFloat_FromDouble',
          'PyComplex_FromDoubles', 'PyUnicode_FromStringAndSize', 'PyUnicode_FromString', 'PyUnicode_FromFormat', 'PyUnicode_DecodeUTF8', 'PyUnicode_AsUTF8String',
          'PyUnicode_AsEncodedString', 'PyBytes_FromStringAndSize', 'PyBytes_FromString', 'PyTuple_New', 'PyList_New', 'PyDict_New', 'PyTuple_Pack',
          'PyObject_GetAttrString', 'PyObject_CallObject', 'PyObject_CallMethod', 'PyObject_CallFunction', 'PyObject_Call', 'PyNumber_Long',
          'PyNumber_Float', 'PyNumber_Index', 'PyObject_Str', 'PyObject_Repr', 'PyModule_Create2', 'PyImport_ImportModule', 'PyBool_FromLong',
          'PySequence_GetItem', 'PyUnicode_AsLatin1String', 'PyUnicode_DecodeLatin1', 'PyUnicode_AsASCIIString', 'PyObject_GetItem'}
N_NEWREF = {'PyArray_New', 'PyArray_SimpleNew', 'PyArray_NewFromDescr', 'PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_Zeros', 'PyArray_Empty',
            'PyArray_NewCopy', 'PyArray_CastToType', 'PyArray_DescrFromType', 'PyArray_Return', 'PyArray_FromArray'}
RAISES = {'PyErr_Format', 'PyErr_SetString', 'PyErr_SetNone', 'PyErr_NoMemory', 'PyErr_SetObject', 'PyErr_BadArgument', 'PyErr_SetFromErrno',
          'PyErr_BadInternalCall', 'PyErr_FormatV', 'PyErr_SetFromErrnoWithFilename'}
CLEARS = {'PyErr_Clear', 'PyErr_WriteUnraisable', 'PyErr_Print', 'PyErr_PrintEx'}

_API = None


def numpy_api():
    """{index: name} of numpy's C API table, read from numpy's header"""
    global _API
    if _API is None:
        incs = ir._py_includes()
        _API = {}
        for d in incs:
            p = os.path.join(d, 'numpy', '__multiarray_api.h')
            if os.path.exists(p):
                t = open(p).read()
                for m in re.finditer(r'#define (\w+) (?:\\\s*)?\(\*\([^#]*?PyArray_API\[(\d+)\]', t):
                    _API[int(m.group(2))] = m.group(1)
        if not _API:
            raise AnalysisBroken('numpy API header not found')
    return _API


def loops(f):
    order = {b: k for k, b in enumerate(f.rpo())}
    return any(order[s] <= order[b] for b in order for s in f.blocks[b].succ if s in order)


def is_header(m, f):
    return not any(f is g for g in m.repo_defined())


class Ext:
    """one extension compiled for this analysis: only the named sources (others are external), its own helpers inlined"""

    def __init__(self, ext, only=None, keep=(), small=120):
        plain = ir.compile_extension(ext, only=only)
        eps = cg.entry_points(plain)
        repo = {f.name for f in plain.repo_defined()}
        big = {f.name for f in plain.functions.values() if sum(1 for _ in f.insts()) > small or loops(f)}
        called = {i.callee() for f in plain.functions.values() for i in f.calls()}
        ptr = set()

        def pred(name, linkage):
            return name in repo and name not in eps and name not in big and name in called and base_name(name) not in keep
        self.m = ir.compile_extension(ext, only=only, inline=pred)
        self.plain = plain
        self.eps = {n: h for n, h in eps.items()}
        self.inlined = [n for n in repo if pred(n, '')]

    def entries(self):
        for n in sorted(self.eps):
            f = self.m.functions.get(n)
            if f is not None and not n.startswith('PyInit_'):
                yield f


def parse_fmt(fmt):
    """argument slots of PyArg_Parse*: [(code, nargs, optional)]"""
    out = []
    opt = False
    k = 0
    while k < len(fmt):
        c = fmt[k]
        if c in ':;':
            break
        if c == '|':
            opt = True
        elif c in '()$ ,':
            pass
        else:
            code = c
            while k + 1 < len(fmt) and fmt[k + 1] in '!&#*':
                code += fmt[k + 1]
                k += 1
            n = 2 if code in ('O!', 'O&', 's#', 'z#', 'y#', 'es', 'et') else 1
            out.append((code, n, opt))
        k += 1
    return out


INTRANGE = {'i': (-(1 << 31), (1 << 31) - 1), 'l': (-(1 << 63), (1 << 63) - 1), 'n': (-(1 << 63), (1 << 63) - 1), 'L': (-(1 << 63), (1 << 63) - 1),
            'h': (-(1 << 15), (1 << 15) - 1), 'b': (0, 255), 'p': (0, 1), 'H': (0, 65535), 'I': (0, (1 << 32) - 1), 'k': (0, (1 << 64) - 1)}


class CHooks(Hooks):
    """clients override site(), done(); self.report(kind, inst, text, st)"""

    def __init__(self, m, fn, unwinders=None):
        self.m, self.fn = m, fn
        self.unwinders = unwinders
        self.found = {}
        self.exits = 0
        self.sites = 0

    # ---- reporting
    def report(self, kind, inst, text, st=None):
        self.found.setdefault((kind, text), (inst, st.trail if st is not None else ()))

    # ---- naming
    def cname(self, sim, st, i):
        c = i.callee()
        if c:
            return base_name(c)
        t = sim.term(st, i.x['calleev'])
        if t[0] == 'nfn':
            return numpy_api().get(t[1], 'PyArray_API_%d' % t[1])
        return None

    derived = ('isinst', 'feature', 'index', 'tnum', 'nd', 'dim', 'flags', 'size', 'stride', 'descrf')

    def special(self, sim, st, i):
        if i.op == 'extractvalue' and i.x.get('idx') == [1]:
            return C(7)
        if (i.callee() or '').startswith('llvm.eh.typeid.for'):
            return C(7)     # the library throws one type only
        return None

    # ---- memory
    def load(self, sim, st, inst, loc):
        if loc[0] == 'g' and base_name(loc[1]) == 'PyArray_API' or loc[0] == 'g' and 'PyArray_API' in loc[1]:
            return ('napi',)
        if loc == ('napi',):
            return ('nfn', 0)
        if loc[0] == 'gep' and loc[1] == ('napi',):
            return ('nfn', loc[2][-1])
        if loc[0] == 'g' and loc[1].startswith('PyExc_'):
            return ('exc', loc[1])
        if loc[0] in ('dims', 'strides'):
            return self.dim(st, loc[1], C(0)) if loc[0] == 'dims' else ('stride', loc[1], C(0))
        if loc[0] == 'gep' and loc[1][0] in ('dims', 'strides') and len(loc[2]) == 1:
            k = loc[2][0]
            k = k if isinstance(k, tuple) else C(k)
            return self.dim(st, loc[1][1], k) if loc[1][0] == 'dims' else ('stride', loc[1][1], k)
        if loc[0] == 'gep' and loc[1][0] == 'descr' and len(loc[2]) == 2 and loc[2][0] == 0:
            if inst.ty == 'i32' and loc[2][1] == 6:
                return ('tnum', loc[1][1])
            return ('descrf', loc[1][1], loc[2][1])
        if loc[0] == 'gep' and loc[1][0] == 'adescr':
            return None
        return None

    def dim(self, st, a, k):
        for _ in range(8):
            if k[0] != 'c':
                return ('dim', a, k)
            d = st.facts.get(('newdim', a, k[1]))
            if d is not None:
                return d
            s = st.facts.get(('shapeof', a))
            if s is None:
                break
            a = s
        return ('dim', a, k)

    def out_args(self, inst):
        return None

    # ---- references
    def newref(self, st, t):
        st.facts[('ref', t)] = st.facts.get(('ref', t), 0) + 1
        st.facts.pop(('gone', t), None)

    def decref(self, st, inst, t):
        if t[0] in ('g', 'c', 'nfn', 'exc') or t[0] == '?':
            return
        n = st.facts.get(('ref', t), 0) - 1
        if n < 0:
            self.report('over-release', inst, 'a reference is released that this call does not own', st)
            n = 0
        if n == 0:
            st.facts.pop(('ref', t), None)
            if not self.outside(t):
                st.facts[('gone', t)] = 1
        else:
            st.facts[('ref', t)] = n

    def outside(self, t):
        """the object is kept alive by someone else (arguments)"""
        return t[0] in ('obj', 'arg', 'g', 'nfn')

    def incref(self, st, inst, t):
        if t[0] in ('g', 'c', 'nfn', 'exc', '?'):
            return
        st.facts[('ref', t)] = st.facts.get(('ref', t), 0) + 1

    def used(self, st, inst, t):
        if ('gone', t) in st.facts:
            self.report('use-after-release', inst, 'an object is used after its last reference was released', st)

    def fail(self, st):
        s = st.copy()
        s.facts['exc'] = 1
        return s

    def is_array(self, st, t):
        return ('arr', t) in st.facts or st.truth(('isinst', t, ARR)) is True

    def need_array(self, st, inst, t, what):
        self.used(st, inst, t)
        if not self.is_array(st, t):
            self.report('unchecked-object', inst, '%s is applied to an object that was not checked to be an array' % what, st)

    # ---- calls
    def call(self, sim, st, i, args):
        n = self.cname(sim, st, i)
        self.sites += 1
        F = st.facts
        res = ('v', i.res) if i.res else None

        def val(t=None, s=None):
            return [(s or st, t, 'ret')]
        pure = {'PyArray_NDIM': 'nd', 'PyArray_DIMS': 'dims', 'PyArray_SHAPE': 'dims', 'PyArray_STRIDES': 'strides', 'PyArray_DATA': 'data',
                'PyArray_BYTES': 'data', 'PyArray_DESCR': 'descr', 'PyArray_DTYPE': 'descr', 'PyArray_FLAGS': 'flags', 'PyArray_TYPE': 'tnum', 'PyArray_ITEMSIZE': 'isize'}
        if n in pure:
            self.need_array(st, i, args[0], n)
            return val((pure[n], args[0]))
        if n == 'PyArray_DIM':
            self.need_array(st, i, args[0], n)
            return val(self.dim(st, args[0], args[1]))
        if n == 'PyDataType_BYTEORDER' and args[0][0] == 'descr':
            return val(('descrf', args[0][1], 4))
        if n == 'PyArray_STRIDE':
            self.need_array(st, i, args[0], n)
            return val(('stride', args[0], args[1]))
        if n == 'PyArray_CHKFLAGS':
            self.need_array(st, i, args[0], n)
            f = ('op', 'and', ('flags', args[0]), args[1])
            return val(('icmp', 'eq', f, args[1]))
        if n == 'PyArray_MultiplyList':
            return val(('size', args[0][1] if args[0][0] == 'dims' else args[0]))
        if n in ('PyObject_TypeCheck', 'PyType_IsSubtype', 'Py_IS_TYPE', 'PyObject_IsInstance'):
            a = args[0][1] if args[0][0] == 'pytype' else args[0]
            return val(('isinst', a, args[1]))
        if n == 'Py_TYPE':
            return val(('pytype', args[0]))
        if n == 'PyType_HasFeature':
            return val(('feature', args[0][1] if args[0][0] == 'pytype' else args[0], args[1]))
        if n == 'PyIndex_Check':
            return val(('index', args[0]))
        if n in ('Py_INCREF', 'Py_XINCREF', 'Py_IncRef', 'Py_NewRef'):
            self.incref(st, i, args[0])
            return val(args[0] if n == 'Py_NewRef' else None)
        if n in ('Py_DECREF', 'Py_DecRef'):
            if st.truth(args[0]) is False:
                self.report('null-release', i, 'Py_DECREF of NULL', st)
                return val()
            self.decref(st, i, args[0])
            return val()
        if n == 'Py_XDECREF':
            tr = st.truth(args[0])
            if tr is False:
                return val()
            self.decref(st, i, args[0])
            return val()
        if n in RAISES:
            F['exc'] = 1
            return val(C(0))
        if n in CLEARS:
            F.pop('exc', None)
            return val()
        if n == 'PyErr_Fetch':
            F['saved'] = F.pop('exc', 0)
            return None
        if n == 'PyErr_Restore':
            if F.pop('saved', 0):
                F['exc'] = 1
            else:
                F.pop('exc', None)
            return val()
        if n == 'PyErr_Occurred':
            return val(C(1) if F.get('exc') else C(0))
        if n in ('PyErr_ExceptionMatches',):
            return None
        if n in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', '_PyArg_ParseTuple_SizeT', '_PyArg_ParseTupleAndKeywords_SizeT',
                 'PyArg_Parse', 'PyArg_UnpackTuple'):
            return self.parse(sim, st, i, n, args)
        if n == 'PyArray_DescrFromType':
            return val(('dft', args[0]))
        if n == 'PyArray_Return':
            a = args[0]
            if st.truth(a) is False:
                return val(C(0))
            self.used(st, i, a)
            k = F.pop(('ref', a), 0)
            if k < 1:
                self.report('over-release', i, 'PyArray_Return is given a reference this call does not own', st)
            if k > 1:
                F[('ref', a)] = k - 1
            t = sim.fresh(st, ('v', i.res))
            self.newref(st, t)
            st.con[t] = (1, INF, frozenset())
            F[('from', t)] = a
            return val(t)
        if n in NEWREF or n in N_NEWREF or n in ('Py_BuildValue', '_Py_BuildValue_SizeT'):
            return self.make(sim, st, i, n, args)
        if n in ('PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsSsize_t', 'PyNumber_AsSsize_t', 'PyLong_AsUnsignedLong', '_PyLong_AsInt', 'PyLong_AsInt'):
            self.used(st, i, args[0])
            t = sim.fresh(st, ('v', i.res))
            return [(st, t, 'ret'), (self.fail(st), C(-1), 'ret')]
        if n in ('PyFloat_AsDouble', 'PyComplex_RealAsDouble', 'PyComplex_ImagAsDouble'):
            self.used(st, i, args[0])
            ok = any(st.truth(('isinst', args[0], ('g', g))) is True for g in ('PyFloat_Type', 'PyComplex_Type'))
            t = sim.fresh(st, ('v', i.res))
            out = [(st, t, 'ret')]
            if not ok:
                out.append((self.fail(st), t, 'ret'))
            return out
        if n in ('PyUnicode_AsUTF8AndSize', 'PyUnicode_AsUTF8', 'PyBytes_AsString'):
            self.used(st, i, args[0])
            out = []
            seen = ('utf8', args[0]) in F
            if not seen:
                out.append((self.fail(st), C(0), 'ret'))
            F[('utf8', args[0])] = 1
            t = ('utf8', args[0])
            st.con[t] = (1, INF, frozenset())
            if len(args) > 1 and args[1][0] != 'c':
                sim.kill_alias(st, args[1])
                st.mem[args[1]] = ('utf8len', args[0])
                st.con[('utf8len', args[0])] = (0, INF, frozenset())
            out.append((st, t, 'ret'))
            return out
        if n in ('PyModule_AddObject', 'PyModule_AddIntConstant', 'PyType_Ready', 'Py_Initialize', 'PyModule_AddStringConstant'):
            return None
        if n == 'malloc' or n == 'calloc' or n == 'PyMem_Malloc':
            t = sim.fresh(st, ('v', i.res))
            F[('heap', t)] = n
            st.con[t] = (1, INF, frozenset())
            return val(t)
        if n in ('free', 'PyMem_Free'):
            a = args[0]
            if st.truth(a) is False:
                return val()
            if ('heap', a) in F:
                del F[('heap', a)]
                F[('freed', a)] = 1
            elif ('freed', a) in F:
                self.report('double-free', i, 'a buffer is freed twice', st)
            return val()
        if n == '__cxa_begin_catch':
            F['caught'] = 1
            return val()
        if n is None and i.ty == 'ptr' and i.res:
            return self.make(sim, st, i, 'tp_alloc', args)
        r = self.extra(sim, st, i, n, args)
        if r is not None:
            return r
        # any other function: what it is given must be alive
        for a in args:
            self.used(st, i, root(a))
            b = root(a)
            if b[0] in ('data', 'utf8'):
                self.used(st, i, b[1])
        return None

    def extra(self, sim, st, i, n, args):
        return None

    def parse(self, sim, st, i, n, args):
        k0 = 1 if n in ('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT', 'PyArg_Parse') else 2
        op = i.x['args'][k0]
        fmt = self.m.string(op)
        if fmt is None:
            raise AnalysisBroken('%s: argument format is not a literal' % self.fn.name)
        k = k0 + 1 + (1 if 'Keywords' in n else 0)
        bad = self.fail(st)
        outs = args[k:]
        slots = parse_fmt(fmt)
        need = sum(x[1] for x in slots)
        if need != len(outs):
            self.report('format-arity', i, 'the argument format %r takes %d slots, %d are given' % (fmt, need, len(outs)), st)
        st.facts[('fmt',)] = fmt
        p = 0
        for idx, (code, cnt, opt) in enumerate(slots):
            if p + cnt > len(outs):
                break
            dst = outs[p + cnt - 1]
            t = ('obj', i.block, idx)
            sim.kill_alias(st, dst)
            if code in ('O', 'O!', 'S', 'U', 'N'):
                if not opt:
                    st.mem[dst] = t
                    st.con[t] = (1, INF, frozenset())
                    if code == 'O!':
                        ty = outs[p]
                        if ty == ARR:
                            st.facts[('arr', t)] = 1
                        else:
                            st.con[('isinst', t, ty)] = (1, 1, frozenset())
                else:
                    st.mem.pop(dst, None)
            elif code in ('s', 'z', 'y') and not opt:
                st.mem[dst] = ('str', i.block, idx)
                if code != 'z':
                    st.con[('str', i.block, idx)] = (1, INF, frozenset())
            elif code in INTRANGE:
                t = ('num', i.block, idx)
                lo, hi = INTRANGE[code]
                st.mem[dst] = t
                st.con[t] = (lo, hi, frozenset())
            else:
                st.mem.pop(dst, None)
            p += cnt
        return [(st, C(1), 'ret'), (bad, C(0), 'ret')]

    def make(self, sim, st, i, n, args):
        F = st.facts
        bad = None
        for a in args:
            if a[0] in ('v', 'obj', 'arg'):
                self.used(st, i, a)
        if n in ('Py_BuildValue', '_Py_BuildValue_SizeT'):
            fmt = self.m.string(i.x['args'][0])
            steal = []
            if fmt is not None:
                p = 1
                for code, cnt, opt in parse_fmt(fmt.replace('[', '(').replace(']', ')').replace('{', '(').replace('}', ')').replace(':', ',')):
                    if code == 'N' and p < len(args):
                        steal.append(args[p])
                    p += cnt
                if p != len(args):
                    self.report('format-arity', i, 'the result format %r takes %d values, %d are given' % (fmt, p - 1, len(args) - 1), st)
            nul = [a for a in steal if st.truth(a) is False]
            for a in steal:
                if st.truth(a) is not False:
                    k = F.pop(('ref', a), 0)
                    if k > 1:
                        F[('ref', a)] = k - 1
                    elif k < 1:
                        self.report('over-release', i, 'format N gives away a reference this call does not own', st)
            if nul:
                return [(self.fail(st), C(0), 'ret')]
        bad = self.fail(st)
        t = sim.fresh(st, ('v', i.res))
        self.newref(st, t)
        st.con[t] = (1, INF, frozenset())
        if n in ('PyArray_New', 'PyArray_SimpleNew'):
            F[('arr', t)] = 1
            if n == 'PyArray_New':
                nd, dims, ty = args[1], args[2], args[3]
                flags = args[7] if len(args) > 7 else C(0)
                given = len(args) > 5 and st.truth(args[5]) is not False
            else:
                nd, dims, ty, flags, given = args[0], args[1], args[2], C(0), False
            for q, v in (('nd', nd), ('tnum', ty)):
                if v[0] == 'c':
                    st.con[(q, t)] = (v[1], v[1], frozenset())
            if nd[0] == 'c':
                for k in range(nd[1]):
                    d = st.mem.get(dims if k == 0 else sim.gep(st, dims, None, [C(k)]))
                    if d is None and dims[0] == 'gep':
                        d = st.mem.get(('gep', dims[1], dims[2][:-1] + (dims[2][-1] + k,)))
                    if d is None and k == 0:
                        d = st.mem.get(('gep', dims, (0, 0)))
                    F[('newdim', t, k)] = d if d is not None else ('dim?', t, k)
            if not given:
                F[('hasflags', t)] = 0x501
                st.con[('icmp', 'eq', ('op', 'and', ('flags', t), C(CONTIG)), C(CONTIG))] = (1, 1, frozenset())
                F[('fresh', t)] = 1
        elif n in ('PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_NewCopy', 'PyArray_CastToType', 'PyArray_FromArray'):
            F[('arr', t)] = 1
            F[('shapeof', t)] = args[0]
            if n in ('PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_FromArray') and len(args) > 1 and args[1][0] == 'dft' and args[1][1][0] == 'c':
                k = args[1][1][1]
                st.con[('tnum', t)] = (k, k, frozenset())
            req = args[4] if n in ('PyArray_FromAny', 'PyArray_CheckFromAny') and len(args) > 4 else args[2] if n == 'PyArray_FromArray' else C(0)
            F[('hasflags', t)] = (req[1] if req[0] == 'c' else 0) | (0x501 if n == 'PyArray_NewCopy' else 0)
            if req[0] == 'c' and req[1] & CONTIG or n in ('PyArray_NewCopy',):
                st.con[('icmp', 'eq', ('op', 'and', ('flags', t), C(CONTIG)), C(CONTIG))] = (1, 1, frozenset())
            nd = st.con.get(('nd', args[0]))
            if nd:
                st.con[('nd', t)] = nd
        return [(st, t, 'ret'), (bad, C(0), 'ret')]

    def may_unwind(self, inst):
        c = inst.callee()
        if c is None:
            return False
        if self.unwinders is None:
            return False
        return c in self.unwinders or base_name(c) in self.unwinders

    # ---- leaving
    def live_facts(self, st):
        return st.facts

    def resume(self, sim, st, inst):
        self.report('unwind', inst, 'an exception leaves the function', st)

    def ret(self, sim, st, inst, val):
        self.exits += 1
        self.done(sim, st, inst, val)
        kind = inst.ty
        exc = bool(st.facts.get('exc'))
        owed = {k[1]: n for k, n in st.facts.items() if isinstance(k, tuple) and k[0] == 'ref'}
        if kind == 'ptr' or kind and kind.endswith('*'):
            tr = st.truth(val) if val is not None else None
            if tr is False:
                if not exc:
                    self.report('null-no-exception', inst, 'returns NULL without setting an exception', st)
            elif tr is True or val[0] == 'g':
                if exc:
                    self.report('value-with-exception', inst, 'returns a result while an exception is pending', st)
                if val[0] not in ('g',):
                    self.used(st, inst, val)
                    n = owed.pop(val, 0)
                    if n < 1:
                        self.report('borrowed-return', inst, 'returns an object it does not own a reference to', st)
                    elif n > 1:
                        self.report('leak', inst, 'returns an object with %d references too many' % (n - 1), st)
        elif kind == 'i32':
            v = st.value(val) if val is not None else None
            if v is not None and (v < 0) != exc:
                self.report('status-mismatch', inst, 'returns %d with%s an exception set' % (v, '' if exc else 'out'), st)
        for t, n in owed.items():
            self.report('leak', inst, 'a reference is never released', st)
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == 'heap':
                self.report('heap-leak', inst, 'a buffer is never freed', st)

    def done(self, sim, st, inst, val):
        pass


def run(hooks, mod, limit=60000, split=24, relational=False):
    st = RState() if relational else State()
    for k, (ty, r) in enumerate(hooks.fn.params):
        if ty == 'ptr':
            st.con[('arg', k)] = (1, INF, frozenset())
    Sim(hooks.fn, hooks, limit=limit, mod=mod, split=split).run(st)
    return hooks
