#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
DH='shgpy/core/data_handler.py'; UT='shgpy/core/utilities.py'; FT='shgpy/core/_fourier_transform.py'; LT='shgpy/core/_lookup_table.py'
FF='shgpy/fformfit.py'; FG='shgpy/fformgen.py'; FO='shgpy/formgen.py'; TD='shgpy/tensor_definitions.py'; PL='shgpy/plotter.py'; SY='shgpy/shg_symbols.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

prop('C01','Ingested phi-space data are canonical and lose nothing',
 "A data container built from any valid set of (angle, value) samples holds, per polarization key, exactly the given samples with every angle converted to radians from the stated unit, reduced modulo 2*pi, unique and sorted ascending, each value still attached to its own angle (in either unit on the way out), whatever the order, sign, range, numeric dtype or repetition of the input angles. When several samples fall on the same angle modulo 2*pi (to rounding, 1e-10 rad) only the first given survives and a warning is issued (and none otherwise). Malformed input (non-string keys, values which are not two-dimensional real numeric arrays of at least two rows (angles, values), unknown units) is rejected with an exception.",
 ['inputs'],'every dict/pair-sequence of arrays: any length, order, sign, integer/float dtype, unit spelling, duplicate pattern',
 'Tests build containers from a handful of already sorted float arrays in [0,2*pi); duplicates, integers, negative or multi-turn angles in mixed order are sampled by at most one CSV fixture.',
 [DH],[('DataContainer construction: unit conversion, duplicate removal, modulation, sort',DH),('defining-iterable validation',DH)],['DataContainer(...)','get_pc','get_items','get_values','get_keys'])
prop('C02','Data-container histories agree with a simple model',
 "After any sequence of scalings, normalizations, phase shifts, minimum subtractions and filters, a data container's samples are those obtained by applying the same operations one after another to the original samples (a phase shift by a adds a to every angle modulo 2*pi and re-sorts, minimum subtraction removes the global minimum over all polarizations), and the reported scale, phase shift (either unit), offset (sum of the amounts added), and global or per-polarization maxima and minima agree with that history. A rejected operation (negative scale, unknown unit, unknown polarization) raises and leaves the samples and all reported metadata exactly as they were.",
 ['histories','inputs'],'every finite sequence of the public mutators and accessors on every valid container',
 'Tests apply two or three operations in one fixed order and look at one polarization.',
 [DH],[('scale_data/normalize_data/phase_shift_data/subtract_min/filter and their bookkeeping',DH)],['get_pc','get_scale','get_phase_shift','get_offset','get_maxval','get_minval','get_pc_maxval','get_pc_minval'],
 [('scale / phase shift / offset','accumulated manipulation of the data since construction',DH)])
prop('C03','Fourier-data-container histories agree with a simple model',
 "For any order M, after any sequence of scalings, normalizations and phase shifts a Fourier-data container's coefficients are the originals with each operation applied in turn (scaling multiplies every coefficient, a phase shift by a multiplies the n-th coefficient by exp(i*n*a)), and the reported order, scale, phase shift (either unit) and global or per-polarization maximum magnitude agree with that history. Malformed input (wrong length for M, non-complex dtype, non-string key) and invalid operations (negative scale, unknown unit) raise, the latter leaving the container unchanged.",
 ['histories','inputs'],'every finite operation sequence, every M, both complex dtypes, every set of keys',
 'Tests use M=16 only and one short sequence.',
 [DH],[('fDataContainer mutators and bookkeeping',DH)],['get_pc','get_M','get_scale','get_phase_shift','get_maxval','get_pc_maxval'])
prop('C04','Formula-container operations mean what they say numerically',
 "After any sequence of substitutions, phase shifts, scalings, simplifications and expansions on a phi-space or Fourier formula container (any M), evaluating the formula at any numeric point gives the value of the original formula with those operations applied: substitution replaces exactly the named symbols, a phase shift by a replaces phi by phi+a (equivalently multiplies the n-th Fourier coefficient by exp(i*n*a)), scaling multiplies every polarization by the same factor, simplify and expand change nothing. The reported free symbols are exactly those the formulas contain, sorted by name without repetition, and unaffected keys, key order and M are preserved.",
 ['histories','inputs'],'every formula (any symbols and assumptions, any M) and every finite operation sequence; evaluation at random points',
 'Tests check identity of containers after copy and one conversion; none evaluates a formula after a history of operations.',
 [DH],[('fFormContainer/FormContainer subs, apply_phase_shift, apply_arbitrary_scale, simplify, expand, get_free_symbols',DH)],['get_pc','get_items','get_free_symbols','get_M'])
prop('C05','Containers are isolated and calls leave their arguments alone',
 "A container shares no mutable state with the data it was built from, with what its single-polarization accessor returns, with a copy made of it, or with the result of any conversion, merge, arithmetic, save or fit it takes part in, and a copy reports the same contents and metadata (keys, samples or formulas, M, scale, phase shift, offset) as its original. No public function alters any argument it is given (arrays, dicts, lists, option dictionaries, containers), or process-wide settings (working directory, environment, numpy print/error options, warning filters, random state, the last except for stochastic fits given no seed), and nothing given to one call affects a later one.",
 ['histories','inputs'],'every public function and container type, arguments of every accepted kind, every interleaving of mutations of original and copy',
 'Tests check two copies for formula containers and a pickled deep copy; no test compares arguments before and after a call.',
 [DH,UT,FF,FG,FO,PL],[('deepcopy/copy of defining iterables, np.copy in accessors, copy methods',DH),('option dictionaries passed to the fit functions',FF),('rotation matrix construction',UT)],['all public functions'])
prop('C06','Normal-incidence data are completed by a 90 degree rotation',
 "Asked to extend normal-incidence data to oblique geometry, a container given exactly one parallel (PP or SS) and one crossed (PS or SP) dataset reports exactly PP, PS, SP and SS, where the given ones are unchanged and each missing one is its partner (PP with SS, PS with SP) with every angle advanced by pi/2 modulo 2*pi and values unchanged, in any unit, key order, key case or key suffix (only the first two letters count) and numeric dtype. Data already holding all four are only relabelled, and any other combination of keys is rejected.",
 ['inputs'],'every two-key and four-key dataset, with independent sampling per key; every other key set',
 'One test loads two CSV fixtures with one pairing.',
 [DH],[('oblique coercion at construction',DH)],['DataContainer(..., normal_to_oblique=True)','load_data*(..., normal_to_oblique=True)'])
prop('C07','Loading, dark subtraction and the loading pipeline are exact',
 "Loading CSV files yields exactly the numbers in the files (any delimiter accepted by the reader, any length), loading with dark files yields pointwise data minus dark matched by polarization and angle whatever row order or angle unit each file uses, and adding or subtracting containers is pointwise with angles preserved. The combined load-and-transform entry point returns the same phi-space container (samples, scale, offset, phase shift) as doing load, optional dark subtraction, optional minimum subtraction and optional scaling one by one, and a Fourier container that is the transform of it for every M, interpolation kind and scale. Containers with different polarizations or different angles are rejected rather than combined.",
 ['inputs','configurations'],'all file contents, units, row orders, key sets, and combinations of dark/min-subtract/scale/M/interp options',
 'Fixtures: one dataset in one unit and order; scale and min_subtract are never passed together, add/subtract never on mismatched input.',
 [DH],[('read_csv, load_data, load_data_and_dark_subtract, dat_add, dat_subtract, load_data_and_fourier_transform',DH)],['returned containers'])
prop('C08','phi-space and Fourier data are faithful transforms of each other',
 "For any order M, synthesising samples from Fourier data gives, at each of num_points equally spaced angles starting at 0, the real part of the Fourier sum, and analysing such samples (any number above 2*M+1) returns the original coefficients of real-valued data to single precision with zero above the signal's band. Analysis is linear in the data, independent of polarization labels, and equal to the discrete Fourier coefficients of the interpolant (of the requested kind) on len(data) equally spaced angles in [0,2*pi), for sorted data of any sampling.",
 ['inputs'],'all coefficient sets, M, sample counts, interpolation kinds and sampling patterns',
 'Tests transform one signal with M=16 and inspect few coefficients.',
 [DH],[('dat_to_fdat interpolation and coefficient sum; fdat_to_dat synthesis',DH)],['dat_to_fdat','fdat_to_dat'])
prop('C09','The symbolic Fourier transform of a formula is exact',
 "For every formula that is a trigonometric polynomial in phi up to degree 8 with arbitrary phi-free symbolic coefficients (constants, bare symbols, powers, products, complex numbers, sums; expanded or factored, single or many terms), the n-th entry of its Fourier formula for every n in -M..M and any M equals (1/2pi) times the integral of formula times exp(-i*n*phi), as an identity in all the symbols, including the tabulated transforms of every product of powers of sine and cosine. Formulas it cannot handle raise rather than give a wrong coefficient.",
 ['inputs'],'all trigonometric polynomials with symbolic coefficients, all n, all M',
 'Tests transform one or two formulas produced by the package itself and never compare with an independent integral.',
 [DH,FT,LT],[('term-by-term table lookup',FT),('precomputed table of Fourier coefficients of cos^a sin^b',LT),('form_to_fform driver',DH)],['form_to_fform'])
prop('C10','All conversion routes between representations agree',
 "For any formula, any M above its degree, and any assignment of its symbols, every route from formulas (phi-space or Fourier) to numbers gives the same data: formula to samples directly, via Fourier formula, via Fourier data, or via back-conversion to a phi-space formula, and likewise formula to Fourier data by any route, also when substitution, scaling or phase shifting is done before or after converting. The assignment may contain symbols the formula does not use, formulas may be constant in phi or zero, and an incomplete assignment is rejected.",
 ['inputs','histories'],'all formulas, M, assignments, sample counts, and commuting pairs of operations',
 'Each conversion is tested on one formula with M=16; the commuting squares are not tested.',
 [DH,FT],[('fform_to_fdat, fform_to_dat, fform_to_form, form_to_dat, form_to_fform, form_to_fdat, fdat_to_dat',DH)],['conversion functions'])
prop('C11','Saved Fourier formulas and merged containers lose nothing',
 "Saving a Fourier formula and loading it back, in the same or a new process, yields a formula with the same polarizations in the same order, the same M, structurally equal expressions (for expressions in sympy's automatically evaluated form) and identical symbols (including their assumptions), so that the result can be mixed with the original. Merging containers of one type gives a container of that type and order M holding every input item once under its mapped key (the mapping giving distinct keys) with identical contents, and mixing types (or unsupported types) is rejected.",
 ['inputs','histories'],'all formulas, symbol assumptions, M, file overwrites and reloads in new processes; all lists of containers and mappings',
 'Tests save and reload one formula and merge two default-size containers of two of the four types.',
 [DH,FG],[('save_fform/load_fform via srepr and pickle',DH),('merge_containers',DH)],['save_fform','load_fform','merge_containers'])
prop('C12','Generated phi-space formulas reproduce the physics of RA-SHG',
 "For any dipole (eee), magnetic (mee) and quadrupole (qee) tensors with real symbolic parameters (or explicit real+imaginary parts), any combination of them and any numeric or real symbolic angle of incidence, the four generated intensities evaluated at any phi and parameter values equal the squared far-field components computed numerically by rotating the sample tensors about the surface normal by phi, driving with P or S polarized light at that angle, forming P + curl-M + i*Q and projecting transverse to the outgoing direction; they are therefore real and non-negative and scale quadratically. The older generator functions agree with the current one, and a tensor with a non-real parameter, or no tensor at all, is rejected.",
 ['inputs'],'all tensors, angles, parameter values and phi',
 'Tests derive one formula for one point group and check little beyond it running.',
 [FO,UT],[('gen_S/formgen tensor rotation and contraction',FO),('formgen_just_dipole, formgen_dipole_quadrupole, gen_P_* and make_form_from_P_and_Q',FO)],['formgen','formgen_just_dipole','formgen_dipole_quadrupole','make_form_from_P_and_Q'])
prop('C13','Contracted Fourier formulas reproduce the same physics',
 "For any angle of incidence (hard-coded or symbolic) and any real-parameter dipole and quadrupole tensors, the Fourier formula obtained by generating the uncontracted transforms (any M of at least 8) and contracting them equals, coefficient by coefficient, the Fourier series of the SHG intensities of that geometry (the phi-space generator's intensities with phi advanced by pi), vanishes above the eighth harmonic, and is Hermitian-symmetric. The hard-coded and symbolic-angle routes agree, rounding to ndigits changes no coefficient by more than the rounding of its numeric factors, contracting transforms stored with another M than the requested one is rejected, and non-real parameters are rejected.",
 ['inputs','configurations'],'all tensors, angles, parameter values, M and ndigits',
 'Tests only check that generation runs and compare one pickle fixture at one angle.',
 [FG],[('uncontracted Fourier tensors by convolution',FG),('contraction with chi x conj(chi)',FG),('pickled formula',FG)],['generate_uncontracted_fourier_transforms','generate_uncontracted_fourier_transforms_symb','generate_contracted_fourier_transforms','load_fform'])
prop('C14','Tabulated tensors have exactly the symmetry of their point group',
 "Every tabulated dipole, surface and quadrupole susceptibility tensor is invariant under all symmetry operations of the point group it is filed under (in the table's axis convention), and is the most general tensor with that invariance (no other constraint, such as symmetry of the last two indices, is built in), so centrosymmetric groups have vanishing dipole tensors, all free parameters are independent, and the surface table is the dipole table with renamed parameters disjoint from it. Symbols used in the tables are those exported by the package, one object per name.",
 ['inputs'],'every entry of every table and every group operation (exhaustive), over all parameter values',
 'No test looks at table contents beyond using T_d and S_2.',
 [TD,SY],[('dipole/surface/quadrupole tables',TD),('symbol definitions',SY)],['tensor_definitions.dipole','tensor_definitions.surface','tensor_definitions.quadrupole'])
prop('C15','Tensor algebra and rotations obey their laws',
 "Tensor product, contraction over any set of index pairs in any order, and tensor transformation agree with their index-notation definitions for every rank and for numeric and symbolic entries; transforming by a product of operations equals transforming successively and the identity does nothing. The axis-angle rotation (numeric or symbolic, any non-zero axis length and numeric type) is the right-handed rotation by that angle: orthogonal, determinant +1, fixing the axis; and the matrix taking one vector to another is a proper rotation carrying the first direction onto the second for every pair of non-zero vectors, including parallel and antiparallel ones, whatever their lengths (its entries rounded to ndigits digits).",
 ['inputs'],'all tensors, ranks, index pairings, operations, axes, angles and vector pairs',
 'Not directly tested at all; one tensor rotation is exercised through formula generation.',
 [UT],[('tensor_product, tensor_contract, transform',UT),('rotation_matrix3, rotation_matrix3symb, rotation_matrix_from_two_vectors',UT)],['returned arrays'])
prop('C16','Particularizing a tensor imposes exactly the index symmetry',
 "Particularizing any tensor of sympy expressions linear in its parameters (with exact coefficients) returns a tensor that is symmetric in its last two indices (or in all indices when requested) and is the most general such specialisation of the input: its set of attainable values is exactly the set of symmetric tensors attainable by the input, uses no new symbols, keeps excluded symbols free wherever possible, and an already symmetric tensor comes back unchanged. The input is not modified.",
 ['inputs'],'every tabulated or rotated tensor and random linear tensors of rank 2 to 4, both modes, any exclude list',
 'Used once in a generation test without checking the result.',
 [UT],[('particularize via linear solve and substitution',UT)],['particularize'])
prop('C17','Making a tensor real or complex changes only assumptions',
 "Making a tensor complex replaces every parameter whose realness is unspecified by (real part)+i*(imaginary part), two real symbols named by the prefixes and suffixes around the original name, consistently across all entries and whatever the symbol's name or other assumptions, leaving symbols of known realness and numbers alone (for parameters with distinct names, the new names not being in use), so that substituting values back reproduces the original tensor's value at the corresponding complex parameters. Making a tensor real replaces each such parameter by a real symbol of the same name and changes nothing else; the results are accepted wherever real parameters are demanded, and distinct parameters stay distinct.",
 ['inputs'],'all tensors and shapes, symbol names (including sympy built-in names) and assumptions, prefix/suffix choices',
 'Tests call these helpers on two tensors with plain names and never check the values.',
 [UT],[('make_tensor_complex / make_tensor_real substitution',UT)],['make_tensor_complex','make_tensor_real','map_to_real'])
prop('C18','The compiled cost function is the sum of squared deviations',
 "For any Fourier formula (any M, symbols given real values, complex coefficients built from them with arithmetic, powers, trigonometric and exponential functions, conjugates) and Fourier data, the generated native cost function, chunked or not and in any requested argument order, returns the sum over all polarizations and coefficients of |formula - data|^2 at the given parameter values, to floating-point accuracy, for every one-per-parameter array a caller may pass (integer or single precision, strided, read-only), hence is non-negative and zero at exact parameters (within rounding). The generated native code reads exactly the parameter vector and nothing outside it, writes no caller memory and has no undefined behaviour, and is safe to call from many threads.",
 ['inputs','schedules'],'all formulas, data, parameter vectors and array layouts; concurrent callers',
 'Tests run a fit on one formula; the value of the generated function is never compared to an independent evaluation, nor is its memory behaviour observed.',
 [FF],[('energy expression building, C code generation, compilation, ctypes call',FF)],['gen_cost_func return value','generated C source through the compiler command'])
prop('C19','Saved cost functions always give what was last saved',
 "Loading a saved cost function at any time, from any kind of path (relative, absolute, string or path object), in the same or another process, with or without the multiprocessing option, or through a fit's load option, gives the function most recently saved there, even if an older version from that path was loaded before, and functions obtained earlier keep their own behaviour after the file is overwritten or deleted. Saving and loading does not change values, a generation that fails (compiler failure) raises and leaves a previously saved function intact, and loading a missing file or one which is not a library raises.",
 ['histories','fault_sequences'],'every interleaving of generate/save/load/overwrite/delete/call and compiler failures over a set of paths',
 'Tests save and load each file once.',
 [FF],[('shared library save, dlopen-based load',FF)],['gen_cost_func(save_filename=...)','load_func','fit load_cost_func_filename'])
prop('C20','Generated and reloaded model functions evaluate the formula',
 "For any Fourier formula, polarization and coefficient, the generated model function and the one loaded back from its folder (same or new process) return the complex value of that coefficient at the given parameters, whatever the number of terms per compiled file, and a later save to the same folder fully replaces the earlier one, also for functions loaded afterwards in the same process. If generation fails or is interrupted at any compile step, or a coefficient's compiled files are missing, then generating or loading raises instead of yielding a function that returns partial sums.",
 ['inputs','fault_sequences','crash_points'],'all formulas and terms-per-file settings; a fault at every compile step; every missing-file pattern',
 'Tests compile one model function and fit with it; no fault is injected.',
 [FF],[('per-component chunked compilation, folder save and glob load',FF)],['gen_model_func','load_model_func'])
prop('C21','Fits return consistent, bounded, no-worse-than-guess results',
 "Every fitting entry point returns a result whose symbol dictionary pairs each free symbol with its own fitted value (same values as the raw vector, in sorted-symbol order), whose reported objective equals the sum of squared deviations at that point (half of it for least squares), is never worse than at the initial guess, and whose parameters lie within the given bounds, regardless of the order of the guess and bounds dictionaries or unused entries in them. Data generated from the formula are fitted exactly when the guess is close; supplying gradients, chunking, saving or loading the cost function does not change the objective; the supplied gradient is the derivative of the objective; options reach the optimizer and a seed makes the result reproducible; a formula without free symbols yields an unsuccessful empty result with a warning, and the caller's option dictionaries are untouched.",
 ['inputs','configurations'],'all formulas, data, guesses, bounds, options and all seven fit functions',
 'Tests run each fitter once on one dataset and check it finishes.',
 [FF],[('least_squares_fit*, basinhopping_fit*, dual_annealing_fit_with_bounds',FF),('symbolic gradient compilation',FF)],['OptimizeResult.x/xdict/fun/cost/success'])
prop('C22','Tabular views contain exactly the container contents',
 "The pandas view of any of the four container types, in either index style and either angle unit, contains exactly one row per (polarization, angle or harmonic) of the container with exactly its value or expression, in container order, for any M, one or more polarizations and per-polarization sampling of different angles or lengths, and the printed representation always succeeds.",
 ['inputs'],'all container types, contents, index styles and units',
 'Not covered by any test.',
 [DH],[('as_pandas and __repr__ of the four containers',DH)],['as_pandas','repr'])
prop('C23','Plots draw exactly the requested data',
 "Both plotting helpers produce, for any accepted number of polarizations, one subplot per requested polarization titled with it in the requested order, holding one curve per dataset in order whose points are exactly that dataset's angles (radians) and values for that polarization and whose style is the one given for it, with labels, legends and saved files exactly as requested and nothing shown when asked not to. In polar plots the radial axis starts at zero and is ticked at the largest value over the datasets, and asking for more polarizations than the linear plot supports is rejected.",
 ['inputs','configurations'],'all datasets, polarization lists, style dictionaries and option combinations',
 'The plotter has no tests.',
 [PL],[('easy_plot, easy_polar_plot',PL)],['matplotlib figure state after the call'])
prop('C24','Code generation is clean under concurrency and leaves no debris',
 "Any number of cost, gradient and model functions may be generated, saved to distinct paths, loaded and called concurrently from threads and processes, each evaluating its own formula with no cross-talk. Generation writes only to its own temporary space, which is gone afterwards whether it succeeds or fails, and to the requested destination, where a reader, or the user after a crash, finds a complete library at every moment (for the folder of a model function: a complete one or none); it leaves unrelated files in the destination's directory, the working directory and the environment untouched.",
 ['schedules','fault_sequences'],'every interleaving of concurrent generators, loaders and callers; failures of the compiler',
 'All tests are sequential and none looks at the file system afterwards.',
 [FF],[('mkdtemp per compilation, copy to destination, rmtree',FF)],['file-system events, values returned by concurrently generated functions'])
prop('C25','The whole analysis recovers the physics the data come from',
 "For rotational-anisotropy data of any sample (point group, crystal orientation, real or complex susceptibilities, dipole, magnetic and quadrupole contributions, one or several), measured at any angle of incidence, azimuth, gain, dark level, angle unit, row order and equally spaced sampling that resolves the eighth harmonic, the complete chain works: loading the files (with dark subtraction, scaling and completion of normal-incidence data) and Fourier transforming them gives the coefficients and samples predicted by the formula generated for that sample, converted to Fourier space, shifted and scaled, at the true parameters; the compiled cost function is zero there to the single precision of Fourier data and the sum of squared deviations elsewhere; and a fit from a nearby guess describes the data, recovering the parameters if the data determine them.",
 ['inputs','configurations'],'all samples, experimental conditions, routes through the package and fits',
 'Each test exercises one stage; none starts from independently computed physics, so that conventions which disagree between stages go unnoticed.',
 [DH,FF,FG],[('load_data_and_fourier_transform, formgen, form_to_fform, gen_cost_func, fits',DH)],['Fourier data, predictions, cost and fitted parameters'])
prop('C26','Results are functions of the arguments, in every process',
 "Every operation of the package gives the same result for the same arguments in every process (whatever the hash seed, working directory, locale or time zone) and within a process whatever was called before, in whatever order and however often, also with arguments that look alike (same names with other assumptions, nearly equal numbers): the same polarizations in the same order, the same symbols in the same order (also symbols of one name with different assumptions), formulas and numbers of the same value, seeded fits with the same outcome, the same type of exception. A formula, cost function or model function saved by one process means the same, parameter by parameter, in another.",
 ['inputs','histories','configurations'],'all operations, arguments, call histories and interpreter hash seeds',
 'Tests run each operation once in one process; an order taken from a set or a stale cache shows in other processes or after other calls.',
 [DH,FF,FG,'shgpy/core/utilities.py'],[('get_free_symbols (sorted from a set), containers keyed by polarization, generated functions taking parameters by position',DH)],['results of all public functions in several interpreters'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
