#!/usr/bin/env python3
"""The table behind properties.jsonl and MANIFEST.json: run it to rewrite both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'aipy/_miriad/miriad_wrap.cpp'
MIR = 'aipy/_miriad/mir/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state))


IR = 'clang LLVM-IR (sources of setup.py, no optimisation beyond mem2reg)'

prop('M01', 'Failures in the MIRIAD layer surface as Python exceptions',
     'Whatever fatal error the bundled MIRIAD library reports (missing or damaged data-set, wrong type, exhausted table, I/O error), '
     'the Python process survives: the operation raises a Python exception. A fatal error never ends the process, never unwinds into '
     'the interpreter, never lets the failing routine carry on, and once caught is never reported to Python as success.',
     ['inputs', 'fault_sequences'], 'every operation of aipy.miriad / aipy._miriad, every data-set content, every failing system call',
     'the tests never provoke a MIRIAD error; there are several hundred error sites below two dozen entry points',
     [W, MIR + 'bug.c'], [('recovery handler', MIR + 'bug.c: bug_c, bugv_c, bugrecover_c'), ('try/catch around library calls', W)],
     'interprocedural exception-escape analysis, conditional constant propagation and path-sensitive typestate on LLVM IR',
     'Sound for the project error type over the linked call graph; trusts clang IR as a stand-in for the gcc build.')

prop('M02', 'One data-set\'s errors leave others alone; every handle is released once',
     'An error on one data-set never deletes, truncates or closes another open data-set, and never removes anything from disk by itself. '
     'Opening that fails gives back its slot; a UV object closes exactly the data-set it opened, once; an item handle acquired from a '
     'header or a file is released on every path, errors included.',
     ['histories', 'fault_sequences'], 'every sequence of opens, failures and closes over any number of data-sets',
     'tests open one or two data-sets and never fail in between',
     [W, MIR + 'hio.c', MIR + 'bug.c', MIR + 'uvio.c', 'aipy/miriad.py'],
     [('error recovery', MIR + 'bug.c'), ('slot tables', MIR + 'hio.c tree_addr/item_addr; ' + MIR + 'uvio.c uvs'), ('object life cycle', W + ' UVObject_new/init/dealloc')],
     'path-sensitive typestate analysis of slots and handles on LLVM IR and the Python syntax tree; call-graph reachability of destructive calls',
     'Typestates are followed per function with summaries for helpers that release what they are given; aliasing through the slot tables is by table.')

prop('M03', 'No I/O status is ever dropped',
     'Every status that a data-set I/O routine or file system call produces is examined before the operation reports success: it raises an '
     'error, is handed on to the caller, or (end of data only) ends the read it belongs to. An I/O error is never taken for end of data, and '
     'a short read or write is never taken for a complete one.',
     ['fault_sequences'], 'every call of a status-producing routine reachable from Python, every failing system call',
     'no test injects an I/O failure',
     [MIR + 'hio.c', MIR + 'dio.c', MIR + 'uvio.c', MIR + 'maskio.c', W], [('iostat protocol', MIR + 'hio.c, uvio.c CHECK macro'), ('CHK_IO', W)],
     'path-sensitive status dataflow on LLVM IR: status parameters inferred from errno, typestate of each status along every path',
     'Decides each function of the I/O layer and of the wrapper that reaches it; the handling of an error once raised is M01, M02 and M09.')

prop('M04', 'Nothing written is lost when a data-set or item is closed or repositioned',
     'Data accepted by a write (records, flags, variables, header values) reaches the file: before buffered data is discarded, its buffer '
     'reused or its handle released, modified buffers are written out in full, at the position they belong to.',
     ['histories'], 'every interleaving of reads, writes, seeks and closes on an item',
     'tests write one small file; buffer turnover, read/write alternation and close paths are barely exercised',
     [MIR + 'hio.c', MIR + 'maskio.c', MIR + 'uvio.c', MIR + 'dio.c'], [('WriteBack/dirty state', MIR + 'hio.c hio_c, hdaccess_c'), ('mkflush', MIR + 'maskio.c')],
     'path-sensitive dirty-buffer typestate with field-named memory on LLVM IR; loops over items and bytes decided for one arbitrary turn',
     'Paths through the filling of gaps are followed, their lengths are not related to each other; the bits inside a word of flags are out of reach.')

prop('M05', 'The UV record stream is read with exactly the layout it was written with',
     'For every variable type the writer and the reader of the visibility stream agree on record kind, header fields, element size, '
     'alignment, payload length, next record position and byte order, so that any sequence of variables and records written can be scanned back without '
     'loss of position; bookkeeping items restore what was saved under their name, so appending continues where and as writing stopped.',
     ['inputs'], 'all variable types, lengths and record sequences',
     'tests store a few float spectra', [MIR + 'uvio.c', MIR + 'pack.c', MIR + 'hio.c'],
     [('record headers', MIR + 'uvio.c uvputvr_c / uv_scan'), ('byte order', MIR + 'pack.c'), ('chunked transfer', MIR + 'hio.c hio_c'), ('ncorr, nwcorr, vislen, obstype', MIR + 'uvio.c uvopen_c / uvclose_c')],
     'byte-provenance dataflow of conversion loops (inverse pairs); path-sensitive extraction of record layouts as affine terms, writer and scanner compared over every residue of type size and count',
     'Layout terms are affine with divisions by constants up to 8; they are compared for 1 to 24 elements of each type at aligned positions, which covers every residue.')

prop('M06', 'Header items read back as the value that was written',
     'For every header item type, reading an item uses the type, byte offset, element size and conversion that writing it used, so a value '
     'written to a header is read back equal, character data included; an integer that does not fit its stored type is refused.',
     ['inputs'], 'all header item types and values', 'tests write strings and one number',
     [W, 'aipy/miriad.py', MIR + 'headio.c', MIR + 'hio.c'], [('hwrite/hread', W), ('_wrhd/_rdhd', 'aipy/miriad.py')],
     'path-sensitive protocol extraction on LLVM IR per type letter (stored type, offset, size, conversion), reader and writer tables compared',
     'Decides the accessors path by path over a model of the CPython API; what the bytes go through below hio_c is M03-M05.')

prop('M07', 'UV variables read back as the value that was written',
     'For every UV variable type, setting and getting use the same stored type, element size and length, what getting returns is '
     'accepted by setting, and no value or element beyond the stored length is read or written. A scalar integer that does not fit is refused, '
     'and a value that was set is what getting returns from then on.',
     ['inputs'], 'all UV variable types, scalar and array values, contiguous or not', 'tests use scalars of a few types',
     [W, MIR + 'uvio.c'], [('_rdvr/_wrvr', W), ('uvgetvr_c/uvputvr_c', MIR + 'uvio.c')],
     'path-sensitive protocol extraction on LLVM IR per type letter, reader and writer tables compared; typestate of the remembered value',
     'Decides the accessors and uvputvr_c/uvgetvr_c path by path; arrays of wider integers are converted by numpy as its interface documents.')

prop('M08', 'Baseline numbering is one-to-one and the same everywhere',
     'For all antenna numbers 0..2046, encoding a pair as a baseline number (ij2bl) and decoding it (bl2ij) gives back the pair in canonical '
     'order, distinct pairs get distinct numbers, and every other encoder and decoder (AntennaArray.ij2bl/bl2ij, pol.ijp2blp/blp2ijp, the '
     'native raw_read/raw_write path, MIRIAD\'s own antenna decoder) agrees with that numbering.',
     ['inputs'], 'all antenna pairs representable (about 2.1 million)', 'tests use a handful of small antenna numbers',
     ['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.h', W], [('ij2bl/bl2ij', 'aipy/miriad.py'), ('MKBL/GETI/GETJ', 'aipy/_miriad/miriad_wrap.h'), ('uvbasant_c', MIR + 'uvio.c'), ('ijp2blp', 'aipy/pol.py')],
     'piecewise-affine abstract interpretation of the Python functions and of the LLVM IR, composed encoder-decoder',
     'Exact on its domain: the regions cover all pairs 0..2046. Arithmetic outside the domain gives no verdict rather than a guess.')

prop('M09', 'Native calls balance references and fail only with an exception',
     'Every function of the native extensions (_miriad, _dsp, _deconv, utils) releases every reference and buffer it acquires exactly '
     'once on every path, errors included, never uses an object after releasing it, and returns either a result it owns with no exception '
     'pending, or NULL (-1) with an exception set.',
     ['inputs', 'fault_sequences'], 'every path through every function callable from Python, every failing allocation or conversion',
     'a leaked or doubly released reference shows only after many calls or on error paths no test takes',
     [W, 'aipy/_dsp/dsp.c', 'aipy/_deconv/deconv.cpp', 'aipy/utils/utils.cpp'],
     [('entry points', W), ('clean', 'aipy/_deconv/deconv.cpp'), ('add2array', 'aipy/utils/utils.cpp'), ('wrap_grid*', 'aipy/_dsp/dsp.c')],
     'path-sensitive typestate analysis of references, buffers and the exception state on LLVM IR against a model of the CPython/numpy C API',
     'Follows every path (states joined per typestate above a split bound). Trusts the modelled semantics of the CPython and numpy calls.')

prop('M10', 'Native code touches only memory inside the arrays it is given',
     'Whatever arrays and indices Python passes, the native code (add2array, CLEAN, gridding and degridding, visibility, variable and header '
     'access) reads and writes only inside those arrays and its own buffers, with the element type they really have: anything of the wrong '
     'type, rank, shape, layout, byte order or index is refused with an exception, and arrays that may not be written are not written. Text, '
     'bytes and counts that come from files, names or the environment do not run over the fixed buffers and tables of the MIRIAD layer.',
     ['inputs'], 'all argument arrays: every type, rank, shape, stride and index value',
     'an out-of-bounds access usually goes unnoticed; the tests pass only well-formed arrays',
     [W, 'aipy/_dsp/dsp.c', 'aipy/_dsp/grid/grid.c', 'aipy/_deconv/deconv.cpp', 'aipy/utils/utils.cpp'],
     [('argument checks', 'CHK_ARRAY_* in each extension'), ('fixed buffers', 'aipy/_miriad/mir/uvio.c uv_scan, uv_vartable_in, uv_mkvar; dio.c dopen_c'), ('kernels', 'aipy/_dsp/grid/grid.c, Clean<T>, AddStuff<T>'), ('library calls', W + ' uvread_c/uvwrite_c/uvgetvr_c/uvputvr_c/hio_c')],
     'symbolic bounds analysis on LLVM IR: argument facts by path-sensitive propagation, index ranges by dominating conditions and inductive loop bounds',
     'Each access is proved inside, refuted with sizes that leave it, or reported as undecided (none today). Index arithmetic is taken to be free of overflow. For the fixed buffers only positive arguments are findings: a copy whose length is unknown is not reported.')

prop('M11', 'Every name, attribute, call and option in the Python code resolves',
     'On every path through the library and its scripts, however rarely taken, each name read is bound, each attribute used of a module, class '
     'or object exists (native modules and installed packages included), each call passes arguments its target accepts, each callback '
     'handed over takes the arguments it is called with, and each option a script reads is one it declares.',
     ['inputs', 'histories'], 'every statement of aipy/*.py and scripts/*, error handlers and options nobody uses included',
     'most branches of the library and none of the scripts are executed by a test',
     ['aipy/miriad.py', 'aipy/img.py', 'aipy/healpix.py', 'aipy/scripting.py', 'scripts/mk_img.py', 'scripts/plot_uv.py'],
     [('module interfaces', 'aipy/__init__.py'), ('native method tables', W + ' UVObject_methods'), ('standard options', 'aipy/scripting.py add_standard_options')],
     'scope and binding resolution, may-be-bound dataflow, attribute and signature checking over the syntax trees, the native method tables and the installed packages',
     'Objects whose class is not known from the sources are only checked for attributes that nothing has; names made by exec at script level are left undecided.')

prop('M12', 'Fit parameters read back as they were set, by the same name',
     'For every object with fit parameters (sources, beams, antennas, collections of them), each name get_params gives is one set_params '
     'sets, in the same place, alone or with others: what was set is what is then given, other parameters and the caller\'s values stay as they were. '
     'Changes are reported, those of parts and members included, and followed by recomputation. Flattening parameters to a list and rebuilding gives them back.',
     ['inputs', 'histories'], 'every parameter of every class with get_params/set_params, every value, any subset of parameters, lists of any length',
     'tests set two or three parameters of one class; wrong names and lost values are silent by design (unknown keys are ignored)',
     ['aipy/fit.py', 'aipy/pol.py', 'aipy/_src/helm.py'],
     [('get_params/set_params', 'aipy/fit.py, aipy/pol.py'), ('flatten_prms/reconstruct_prms', 'aipy/fit.py')],
     'abstract interpretation of the Python functions over access paths with closed abstract dictionaries; writer and reader locations compared',
     'Loops over members are followed for one generic member (two for accumulation). What rests on constructs not understood is undecided, not alarmed.')

prop('M14', 'Inputs stay as they were, objects are independent, queries change nothing',
     'No public function changes an array, list, dictionary or object it is given (except what it documents it fills), nor the default value of '
     'a parameter. No object shares with another, or with the caller who constructed it, something that it changes in place. Asking an object for '
     'something (coordinates, phases, responses, parameters, pixels) leaves it as it was; a copy leaves its source as it was. '
     'Native routines write only the arrays they are documented to fill.',
     ['inputs', 'histories'], 'every public function, parameter, class and query method; every argument value and every sequence of calls',
     'a wrong in-place change shows only when the same object is used again, or a second one is made; tests use each object once',
     ['aipy/phs.py', 'aipy/amp.py', 'aipy/fit.py', 'aipy/pol.py', 'aipy/img.py', 'aipy/healpix.py', 'aipy/map.py', 'aipy/deconv.py', 'aipy/rfi.py',
      'aipy/coord.py', 'aipy/src.py', 'aipy/_src', 'aipy/_dsp', 'aipy/_deconv/deconv.cpp', 'aipy/utils/utils.cpp'],
     [('in-place operations', 'aipy/*.py'), ('constructors', 'aipy/phs.py, aipy/amp.py, aipy/fit.py, aipy/healpix.py'),
      ('native output arrays', 'aipy/_dsp/dsp.c, aipy/_deconv/deconv.cpp, aipy/utils/utils.cpp')],
     'interprocedural alias and effect analysis of the Python sources; written arrays of native entry points read off their IR',
     'An alias the analysis does not understand is not reported. HealpixMap.set_map takes over the array it is given, as documented.')

prop('M13', 'What an object derives from its channels, parameters and time is kept current',
     'After construction, update(), select_chans() or set_pointing(), the active frequencies and beam coefficients of a beam, the phase offsets, gain and '
     'pointing rotations of an antenna and the zenith projection of an array are those of its current parameters, channels and beam. update() and '
     'select_chans(c) of an array reach every antenna, compute() of a catalog every source; select_chans() selects all channels again. Setting the time, by '
     'either method, recomputes every projection that depends on it and drops the cached sources. compute() of a source projects from the position '
     'computed for this observer and takes its fluxes at the observer\'s frequencies. What sim_cache keeps of the sources is cut by one mask. Data put '
     'into an ImgW reaches planes kept by get; set_interpol of a sky map reaches all its parts.',
     ['histories', 'inputs'], 'every order of the calls that change parameters, channels, pointing or time and those that use what is derived from them',
     'a stale value shows only when something is used again after a change (another time, other channels, a second source) and is then only a wrong number',
     ['aipy/phs.py', 'aipy/amp.py', 'aipy/fit.py', 'aipy/pol.py', 'aipy/img.py', 'aipy/map.py'],
     [('Beam.update, select_chans; BeamPolynomial._update_sigma; BeamAlm._update_hmap', 'aipy/amp.py'), ('Antenna.update, set_pointing', 'aipy/amp.py'),
      ('ArrayLocation.set_jultime, set_ephemtime; AntennaArray.update, select_chans', 'aipy/phs.py'), ('AntennaArray.sim_cache', 'aipy/amp.py'),
      ('RadioBody.compute, SrcCatalog.compute', 'aipy/phs.py'), ('ImgW.put', 'aipy/img.py'), ('Map.set_interpol', 'aipy/map.py')],
     'abstract interpretation of each method of each class: an attribute is stale from a store into what it is computed from until it is stored again '
     'with a value built from the current inputs',
     'That set_params ends in update() is M12. The numbers computed are not judged, what they are computed from is.')

prop('M15', 'A copied data set keeps its records, flags, variables and header items',
     'What read returns and is handed to write reaches the file as the same preamble, visibilities and flags, with as many channels as were read; '
     'write(p, None) writes nothing; flags left out are taken from the mask (all good without one). all() yields every record as read gives it and '
     'ends only at the end of the data. pipe() gives each record to the callback once, writes exactly what it returns, copies variables that changed '
     '(in the record or in records skipped by decimation) before the record, and extends the history. init_from_uv() copies every header item and '
     'variable except the excluded, with overrides taking precedence and not tracked.',
     ['inputs', 'histories'], 'every record, mask, callback, override and exclude set; every way through the Python and native record functions',
     'a copy is wrong only for some record (masked, short, skipped, dropped), variable or option; tests copy one uniform file without options',
     ['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/uvio.c'],
     [('UV.read, write, all, pipe, init_from_uv', 'aipy/miriad.py'), ('UVObject_read, UVObject_write, copyvr, trackvr', 'aipy/_miriad/miriad_wrap.cpp'),
      ('uvcopyvr_c, uvread_c', 'aipy/_miriad/mir/uvio.c')],
     'abstract interpretation of the Python methods composed with each other (read then write), and of the native record functions over their IR',
     'Storage of the values themselves is M05-M07.')

prop('M16', 'Exchanging antennas conjugates a visibility; formulas hold along the chain',
     'A baseline (i, j) is position j less position i seen through the matrix of the projection; u, v, w are its components in wavelengths. The phase is '
     'exp(-2 pi i (w + refraction + offset j - offset i)), times 2 J1(x)/x for a disk; unphasing undoes phasing. Refraction is (dra u + ddec v)(mfreq/freq)^2. '
     'Gain and beam of a baseline are those of j (second polarisation) times the conjugate of those of i (first), cached or not; an antenna gain is '
     'amp (bp_r + i bp_i), a flux jys (freq/mfreq)^index. A simulated visibility is the sum over the sources above the horizon of gain, beam, flux and conjugate phase. So exchanging i and j '
     'conjugates it.',
     ['inputs'], 'every antenna pair, source, projection, frequency set, polarisation and cache state',
     'tests take one array, one or two sources and mostly zero offsets, unit gains and flat beams, where most of the factors drop out',
     ['aipy/phs.py', 'aipy/amp.py', 'aipy/pol.py'],
     [('get_baseline, gen_uvw, gen_phs, refract, resolve_src', 'aipy/phs.py'), ('passband, bm_response, sim, update_jys', 'aipy/amp.py'),
      ('per-polarisation gains and offsets', 'aipy/pol.py')],
     'terms extracted by abstract interpretation of the source, compared as normal forms over symbolic gains, phases and baselines',
     'Arithmetic over the reals; beams of BeamAlm and BeamPolynomial are taken as given.')

prop('M17', 'Coordinate conversions agree with each other and with the code using them',
     'Angles to vectors follow the documented axes (radec: x at ra 0, z north; azalt: x east, y north, z up, az clockwise from north); turning a vector '
     'into angles and back gives it over its length, and masked points stay masked. eq2top_m(ha, dec) has east, north and up as rows, top2eq_m is its inverse, '
     'for scalars and for arrays; rot_m is the right-handed rotation. convert() builds input coordinates at iepoch and output ones at oepoch, convert_m does so for '
     'each basis vector. A source is at the w axis of its projection, the zenith is up, an antenna beam points where it was pointed (polarisation y a quarter turn on, '
     'twist right-handed), an image centre is at its ra, dec.',
     ['inputs'], 'every angle, vector, mask, time, position and pointing',
     'a wrong sign or angle shows only for some quadrant, hour angle, twist, mask or array input; tests sample a few round values',
     ['aipy/coord.py', 'aipy/phs.py', 'aipy/amp.py', 'aipy/img.py'],
     [('conversions and rotation matrices', 'aipy/coord.py'), ('compute, get_crds, get_baseline, set_ephemtime', 'aipy/phs.py'),
      ('set_pointing, set_ephemtime', 'aipy/amp.py'), ('Img.get_eq', 'aipy/img.py')],
     'terms extracted by abstract interpretation of the source, compared as normal forms of a ring of sines, cosines and roots over symbolic angles',
     'Arithmetic over the reals; what ephem computes is taken as given.')

prop('M18', 'Maps and images keep each sample with its weight, its place and its order',
     'Adding samples to a Map adds weight and flux times weight (and index times weight) of each to the same pixels, also when several samples share one; put replaces them; a '
     'lookup is the sum over the weight where there is weight; resetting the weights keeps the means and leaves empty pixels empty; planes and columns are copied, stored and '
     'read as their own counterpart. Pixel numbers follow the scheme of their map in every conversion, reordering and copy. Img.put grids data and weights at the '
     'same indices (-v/res, u/res), each weight to its own plane, and only if asked to; append_hermitian negates u, v, w, conjugates data and repeats weights. get_LM, get_uv, '
     'get_top, image and bm_image give each pixel its place; ImgW sorts coordinates, data and weights alike, projects data and weights with one kernel and returns values in order.',
     ['inputs'], 'every set of samples, weights, pixels, schemes, centres and w values',
     'shared pixels, weights other than 1, NEST maps, off-centre images and unsorted w are not in the tests',
     ['aipy/map.py', 'aipy/healpix.py', 'aipy/img.py', 'aipy/deconv.py'],
     [('Map.add, put, get, reset_wgt, from_map, from_fits', 'aipy/map.py'), ('nest_ring_conv, crd2px, px2crd, change_scheme, from_hpm', 'aipy/healpix.py'),
      ('put, append_hermitian, get_LM, get_uv, get_top, image; ImgW.put, get; recenter', 'aipy/img.py')],
     'terms of what each method stores, reads and passes on, extracted by abstract interpretation and compared as normal forms with the sums and orders required',
     'healpy and the native gridding are taken as given; Img.get is not judged.')

prop('M19', 'A deconvolution returns a model and the residual that belongs to it',
     'Whatever the image, kernel, starting model, area and gain, and whichever way it ends (tolerance, iteration limit, divergence taken back, going on and falling back to the '
     'best model so far), the residual that clean, lsq, maxent and anneal report is the image less the circular convolution of the model they return with the kernel, up to '
     'rounding: every step taken from the residual goes into the model at the same pixel, in one and two dimensions, real and complex, in every precision; a step taken back is '
     'taken back in both; what is kept as the best is kept and put back of both. CLEAN puts components only inside the area.',
     ['inputs', 'histories'], 'every image, kernel, area, gain, precision and way of ending',
     'tests look at the model of one or two point sources; the ways back after divergence are hardly taken, and a residual that is off shows nowhere else',
     ['aipy/deconv.py', 'aipy/_deconv/deconv.cpp'],
     [('clean_1d_r, clean_2d_r, clean_1d_c, clean_2d_c', 'aipy/_deconv/deconv.cpp'), ('clean, lsq, maxent, anneal', 'aipy/deconv.py')],
     'changes of model, residual and the copies kept of them extracted from LLVM IR as (pixel, step) with polynomial normal forms, paired by dominance and path search; terms over the syntax tree in Python',
     'Rounding is left aside. Loops the decoding does not understand are undecided, not alarms.')

# What the package also exists to do, and no static argument in reach decides.
prop('N01', 'CLEAN and maximum entropy converge to the image that explains the data',
     'For a dirty image made with a beam, clean() ends with the residual score never '
     'above where it started and a model close to the sky, and maxent() ends with the image of highest entropy consistent with the noise.',
     ['inputs'], 'every image, beam, gain, tolerance and mask',
     'tests take one point source', ['aipy/deconv.py', 'aipy/_deconv/deconv.cpp'], [('clean, lsq, maxent', 'aipy/deconv.py'), ('clean loop', 'aipy/_deconv/deconv.cpp')],
     na='Convergence is a statement about floating-point sums over a data-dependent number of iterations; no static bound in reach relates '
        'them. That model and residual belong together is decided in M19, memory safety and argument checks of the loops in M09 and M10.')
prop('N02', 'Gridding then imaging recovers the sky that the visibilities came from',
     'Visibilities of a sky model put on the uv-plane, imaged and corrected for the gridding kernel give back the sky at the resolution of the array, up to aliasing.',
     ['inputs'], 'every uv coverage, field and w range',
     'tests compare shapes and one point source', ['aipy/img.py'], [('put, append_hermitian, image, convolution_kernel', 'aipy/img.py')],
     na='The error of the reconstruction depends on the sampling of the data and on FFT numerics; its size cannot be bounded from the source.')
prop('N03', 'Interpolated map values are close to the map, and spherical harmonics invert',
     'An interpolating map returns the weighted mean of the pixels around a direction, and from_map(to_map(alm)) gives alm back to the accuracy of the pixelisation.',
     ['inputs'], 'every map, order and direction',
     'tests take one order and few directions', ['aipy/map.py', 'aipy/healpix.py'], [('HealpixMap.__getitem__', 'aipy/healpix.py'), ('Alm.to_map, Alm.from_map', 'aipy/healpix.py')],
     na='The accuracy of interpolation and of iterated spherical-harmonic transforms is numerical, and computed by healpy, outside this repository, '
        'in floating point; no static argument in reach bounds it.')
prop('N04', 'Beam models agree with the measurements they were fitted to',
     'BeamAlm and BeamPolynomial reproduce the fitted response over their frequencies and directions, and vary smoothly between.',
     ['inputs'], 'every direction and frequency', 'tests take the zenith', ['aipy/amp.py', 'aipy/fit.py'], [('BeamAlm, BeamPolynomial', 'aipy/amp.py')],
     na='The coefficients are run-time data; whether the polynomial they define is close to a measurement is not a property of the source. '
        'That parameters reach the beams is decided in M13 and M14.')
prop('N05', 'Calculated positions of sources agree with the sky',
     'The positions of the Sun, the Moon, the planets and fixed sources, with precession, nutation and aberration, are those of the ephemeris.',
     ['inputs'], 'every time and place', 'tests take one date', ['aipy/phs.py', 'aipy/src.py'], [('RadioFixedBody, RadioSpecial', 'aipy/phs.py')],
     na='They are computed by the ephem package, outside this repository; what aipy does with them is decided in M13 and M17.')
prop('N06', 'Interference flagging finds interference and little else',
     'The thresholds of the rfi module flag what exceeds the noise by the given number of sigmas and keep the false alarm rate that this implies.',
     ['inputs'], 'every data array and mask', 'there is no test of it beyond import', ['aipy/rfi.py'], [('gen_rfi_thresh, flag_by_int, remove_spikes', 'aipy/rfi.py')],
     na='The guarantee is statistical: it depends on the distribution of the data, which the source does not determine.')

PENDING = 'no check for it has been finished yet in this tree'

ORDER = None


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif not p['technique']:
            na.append({'property': p['id'], 'reason': PENDING})
        else:
            c = 'python3 check.py %s' % p['id']
            checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': c, 'technique': 'static analysis: ' + p['technique'],
                           'level': 'other', 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they read /repo\'s sources (clang IR for C/C++, the syntax tree for Python) on every run. '
                    'No hooks are compiled into /repo.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
