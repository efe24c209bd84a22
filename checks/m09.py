"""M09: the native entry points own what they return, release what they acquire, and fail only with an exception."""
from sa import cg
from sa.capi import CHooks, Ext, run as crun
from sa.ir import base_name
from sa.native import native
from sa.report import Result

EXTS = [('aipy.utils', None), ('aipy._dsp', None), ('aipy._deconv', None), ('aipy._miriad', ['miriad_wrap.cpp'])]
ENTRY = {'leak', 'over-release', 'use-after-release', 'null-no-exception', 'value-with-exception', 'status-mismatch', 'borrowed-return',
         'heap-leak', 'double-free', 'null-release', 'format-arity'}
HELPER = {'heap-leak', 'double-free', 'null-release', 'over-release', 'use-after-release', 'format-arity'}


def run(tier):
    r = Result()
    unw = {base_name(n) for n in native().mu}
    r.rule('Every path of every function callable from Python is followed through a model of the CPython and numpy C interfaces '
           '(small helpers inlined): at each way out no reference or buffer acquired on the path is still held except the returned one, '
           'none was released twice or used after release, and the result is NULL or -1 exactly when an exception is set. Native helpers '
           'with loops are followed on their own for the buffers they allocate.')
    for ext, only in EXTS:
        E = Ext(ext, only)
        r.units += ['%s:%s' % (ext, s) for s in (only or E.m.srcs)]
        eps = {f.name for f in E.entries()}
        todo = [(f, ENTRY) for f in E.entries()]
        for f in E.m.repo_defined():
            if f.name in eps or f.name in E.inlined or f.name.startswith('PyInit_') or not any(
                    (i.callee() or '') in ('malloc', 'free', 'calloc') or base_name(i.callee() or '') in ('Py_INCREF', 'Py_DECREF', 'Py_XDECREF') for i in f.calls()):
                continue
            todo.append((f, HELPER))
        for f, kinds in todo:
            h = crun(CHooks(E.m, f, unw if ext == 'aipy._miriad' else None), E.m)
            r.count('entry_points' if kinds is ENTRY else 'helpers_with_buffers')
            r.count('ways_out', h.exits)
            r.count('call_steps', h.sites)
            for (k, text), (i, trail) in h.found.items():
                if k in kinds:
                    r.add('B-' + k, '%s/%s/%s' % (ext, base_name(f.name), text.split(':')[0][:60]), E.m.where(i), text,
                          ['line %s:%s' % E.m.line(x) for x in trail if E.m.line(x)[1]][-12:])
    r.floor('entry_points', 10)
    r.floor('ways_out', 50)
    r.assumptions = ['CPython and numpy behave as documented; allocation by malloc is assumed to succeed',
                     'C++ exceptions other than the MIRIAD error are not considered']
    return r
