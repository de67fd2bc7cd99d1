"""Executes a program of library calls and writes a log of their results.

    c26_worker.py PROGRAM.json LOG.json

The program holds everything (numbers, and sympy expressions as srepr text), so
that every process runs the same calls on the same arguments.  Results are
written as plain lists: expressions become their free symbols and their value
at a point which is a function of the symbols only.
"""
import json
import os
import sys
import warnings
import zlib

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import sympy as sp
import shgpy
from shgpy import fformfit, formgen as fo
from shgpy import tensor_definitions as td
import gen

NS = {k: getattr(sp, k) for k in dir(sp) if not k.startswith('__')}
DEPTH = [0]


def expr(text):
    return eval(text, dict(NS))


def arr(x):
    if isinstance(x, list):
        shape, y = [], x
        while isinstance(y, list):
            shape.append(len(y))
            y = y[0]
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            y = x
            for j in i:
                y = y[j]
            out[i] = expr(y)
        return out
    return expr(x)


def name(s):
    # srepr shows the assumptions with which a symbol was first created
    return '%s %s %s' % (type(s).__name__, s.name, sorted(
        s.assumptions0.items()))


def val(s):
    return gen.values(np.random.default_rng(zlib.crc32(
        name(s).encode())), [s])[s]


def record(x):
    """Plain, ordered description of a result."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ['n', float(x), 0.]
    if isinstance(x, (complex, np.complexfloating)):
        return ['n', float(x.real), float(x.imag)]
    if isinstance(x, sp.Basic):
        fs = sorted(x.free_symbols, key=name)
        v = complex(gen.ev(x, {s: val(s) for s in fs}))
        return ['x', [name(s) for s in fs], ['n', v.real, v.imag]]
    if isinstance(x, np.ndarray):
        return ['a', list(x.shape), [record(e) for e in x.ravel()]]
    if isinstance(x, dict):
        return ['d'] + [[record(k), record(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        return ['l'] + [record(e) for e in x]
    return str(type(x).__name__)


def syms(l):
    return [name(s) for s in l]


def data(a):
    return shgpy.DataContainer(
        {k: np.array(v) for k, v in a['d']}, a['unit'],
        normal_to_oblique=a.get('n2o', False))


def fform(a):
    return shgpy.fFormContainer({k: arr(v) for k, v in a['d']}, M=a['M'])


def form(a):
    return shgpy.FormContainer({k: arr(v) for k, v in a['d']})


def fdat(a):
    return shgpy.fDataContainer(
        {k: np.array([complex(*z) for z in v]) for k, v in a['f']}, M=a['M'])


def values_for(symbols):
    return {s: val(s) for s in symbols}


def op_data(a, d):
    c = data(a)
    for s in a['steps']:
        getattr(c, s[0])(*s[1:])
    p = c.as_pandas('degrees')
    return [list(c.get_keys()), list(c.get_items('radians')),
            list(c.get_values('degrees')), c.get_scale(),
            c.get_phase_shift('degrees'), c.get_maxval(), c.get_minval(),
            [str(i) for i in p.index], list(map(str, p.columns)), p.values]


def op_combine(a, d):
    p, q = data(a), data(dict(a, d=a['d2']))
    for s in a['steps']:
        getattr(p, s[0])(*s[1:])
        if s[0] == 'phase_shift_data':
            getattr(q, s[0])(*s[1:])
    fs = [{}, {}]
    for f, w in zip(fs, ('d', 'd2')):
        for i, (k, v) in enumerate(a[w]):
            f[k] = os.path.join(d, '%s_%d.csv' % (w, i))
            np.savetxt(f[k], np.transpose(v), delimiter=',')
    r = shgpy.load_data_and_dark_subtract(
        fs[0], a['unit'], fs[1], a['unit'],
        normal_to_oblique=a.get('n2o', False))
    return [[list(c.get_keys()), list(c.get_items('radians')), c.get_scale(),
             c.get_phase_shift('radians'), c.get_offset()]
            for c in (shgpy.dat_add(p, q), shgpy.dat_subtract(p, q), r)]


def op_fdata(a, d):
    c = fdat(a)
    for s in a['steps']:
        getattr(c, s[0])(*s[1:])
    p = c.as_pandas('none')
    return [list(c.get_keys()), list(c.get_items()), c.get_scale(),
            [str(i) for i in p.index], shgpy.fdat_to_dat(
                c, a['n']).get_items('radians')]


def op_convert(a, d):
    c = data(a)
    f = shgpy.dat_to_fdat(c, M=a['M'])
    return [list(f.get_items()), f.get_M()]


def op_form(a, d):
    c = form(a)
    out = [syms(c.get_free_symbols())]
    for s in a['steps']:
        if s[0] == 'subs':
            c.subs([(expr(x), expr(y)) for x, y in s[1]])
        elif s[0] == 'shift':
            c.apply_phase_shift(expr(s[1]), gen.PHI)
        elif s[0] == 'scale':
            c.apply_arbitrary_scale(expr(s[1]))
        else:
            getattr(c, s[0])()
    out += [syms(c.get_free_symbols()), list(c.get_keys()),
            list(c.get_items()), [str(i) for i in c.as_pandas('none').index]]
    env = {s: val(s) for s in c.get_free_symbols() if s != gen.PHI}
    out.append(list(shgpy.form_to_dat(c, env, 7).get_items('radians')))
    return out


def op_transform(a, d):
    f = shgpy.form_to_fform(form(a), M=a['M'])
    out = [syms(f.get_free_symbols()), list(f.get_items()), f.get_M()]
    env = values_for(f.get_free_symbols())
    out.append(list(shgpy.fform_to_fdat(f, env).get_items()))
    out.append(list(shgpy.form_to_fdat(form(a), env, M=a['M']).get_items()))
    return out


def op_fform(a, d):
    c = fform(a)
    out = [syms(c.get_free_symbols())]
    for s in a['steps']:
        if s[0] == 'subs':
            c.subs([(expr(x), expr(y)) for x, y in s[1]])
        else:
            getattr(c, s[0])(expr(s[1]))
    env = values_for(c.get_free_symbols())
    return out + [
        syms(c.get_free_symbols()), list(c.get_keys()), list(c.get_items()),
        list(shgpy.fform_to_fdat(c, env).get_items()),
        list(shgpy.fform_to_dat(c, env, 9).get_items('radians')),
        list(shgpy.fform_to_form(c).get_items()),
        [str(i) for i in c.as_pandas().index]]


def op_merge(a, d):
    cs = [form(x) if a['form'] else fform(x) for x in a['cs']]
    m = shgpy.merge_containers(cs, lambda k, i: dict(a['map'][i])[k])
    return [list(m.get_keys()), list(m.get_items()),
            syms(m.get_free_symbols())]


def op_save(a, d):
    c = fform(a)
    f = os.path.join(d, 'f.p')
    shgpy.save_fform(c, f)
    c = shgpy.load_fform(f)
    return [syms(c.get_free_symbols()), list(c.get_items()), c.get_M()]


def tensor(a):
    if 'table' in a:
        return getattr(td, a['table'])[a['name']].copy()
    return arr(a['t'])


def op_particularize(a, d):
    kw = dict(permute_all_indices=True) if a['all'] else {}
    if a.get('exclude'):
        kw['exclude'] = [expr(x) for x in a['exclude']]
    return shgpy.particularize(tensor(a), **kw)


def op_params(a, d):
    return [shgpy.make_tensor_complex(tensor(a)),
            shgpy.make_tensor_real(tensor(a)),
            shgpy.make_tensor_complex(tensor(a), prefix=tuple(a['prefix']))]


def op_rotate(a, d):
    R = shgpy.rotation_matrix3(np.array(a['n']), a['angle'])
    Q = shgpy.rotation_matrix_from_two_vectors(
        np.array(a['n']), np.array(a['m']))
    t = tensor(a)
    return [R, Q, shgpy.transform(t, R), shgpy.tensor_product(t[0], t[1]),
            shgpy.tensor_contract(t, [[0, 1]])]


def op_formgen(a, d):
    kw = {k: shgpy.make_tensor_real(tensor(t)) for k, t in a['kw']}
    f = fo.formgen(expr(a['theta']), **kw)
    out = [syms(f.get_free_symbols()), list(f.get_items())]
    if set(kw) == {'t_eee'}:
        g = fo.formgen_just_dipole(kw['t_eee'], expr(a['theta']))
        out += [syms(g.get_free_symbols()), list(g.get_items())]
    elif set(kw) == {'t_eee', 't_qee'}:
        g = fo.formgen_dipole_quadrupole(kw['t_eee'], kw['t_qee'],
                                         expr(a['theta']))
        out += [syms(g.get_free_symbols()), list(g.get_items())]
    return out


def op_load(a, d):
    fs = {k: os.path.join(d, 'in_' + k + '.csv') for k, _ in a['d']}
    for k, v in a['d']:
        with open(fs[k], 'w') as f:
            for x, y in zip(*v):
                f.write('%r,%r\n' % (x, y))
    c = shgpy.load_data(fs, a['unit'], normal_to_oblique=a.get('n2o', False))
    r, g = shgpy.load_data_and_fourier_transform(
        fs, a['unit'], dark_filenames_dict=fs if a['dark'] else None,
        dark_angle_units=a['unit'], M=a['M'], scale=a['scale'],
        min_subtract=a['min'], normal_to_oblique=a.get('n2o', False))
    return [list(c.get_items('radians')), list(r.get_items('degrees')),
            list(g.get_items())]


def points(n):
    # by position: the meaning of a position must not depend on the process
    return [np.array([.3 + .17*i + .05*j*i for i in range(n)])
            for j in range(2)]


def op_cost(a, d):
    f, g = fform(a), fdat(a)
    n = len(f.get_free_symbols())
    kw = dict(save_filename=os.path.join(d, 'cost.so')) if a['save'] else {}
    c = fformfit.gen_cost_func(f, g, chunk=a['chunk'], **kw)
    out = [c(x) for x in points(n)]
    if a['save']:
        c = fformfit.load_func(os.path.join(d, 'cost.so'))
        out += [c(x) for x in points(n)]
    return [syms(f.get_free_symbols()), out]


def op_model(a, d):
    f = fform(a)
    n = len(f.get_free_symbols())
    m = fformfit.gen_model_func(f, os.path.join(d, 'model'))
    return [m(x, pc, k) for x in points(n) for pc in f.get_keys()
            for k in range(-a['M'], a['M'] + 1)]


def op_fit(a, d):
    f, g = fform(a), fdat(a)
    fs = f.get_free_symbols()
    guess = {s: .5 + .1*i for i, s in enumerate(fs)}
    bounds = {s: (-3., 4.) for s in fs}
    np.random.seed(7)
    k = a['fit']
    if k == 'lsq':
        r = fformfit.least_squares_fit(f, g, guess)
    elif k == 'lsqb':
        r = fformfit.least_squares_fit_with_bounds(f, g, guess, bounds)
    elif k == 'bh':
        r = fformfit.basinhopping_fit(f, g, guess, 2)
    elif k == 'bhj':
        r = fformfit.basinhopping_fit_jac(f, g, guess, 2)
    elif k == 'bhb':
        r = fformfit.basinhopping_fit_with_bounds(f, g, guess, bounds, 2)
    else:
        r = fformfit.dual_annealing_fit_with_bounds(
            f, g, guess, bounds, maxiter=5)
    return [[name(s) for s in r.xdict], list(r.xdict.values()),
            np.atleast_1d(r.x)]


def op_store(a, d):
    f, g = fform(a), fdat(a)
    s = a['shared']
    shgpy.save_fform(f, os.path.join(s, 'f.p'))
    fformfit.gen_cost_func(f, g, chunk=a['chunk'],
                           save_filename=os.path.join(s, 'c.so'))
    fformfit.gen_model_func(f, os.path.join(s, 'm'))
    return op_fetch(a, d)


def op_fetch(a, d):
    s = a['shared']
    f = shgpy.load_fform(os.path.join(s, 'f.p'))
    n = len(f.get_free_symbols())
    c = fformfit.load_func(os.path.join(s, 'c.so'))
    m = fformfit.load_model_func(f, os.path.join(s, 'm'))
    fit = fformfit.least_squares_fit(
        f, fdat(a), {x: .4 for x in f.get_free_symbols()},
        load_cost_func_filename=os.path.join(s, 'c.so'))
    return [syms(f.get_free_symbols()), list(f.get_items()),
            [c(x) for x in points(n)],
            [m(x, pc, k) for x in points(n) for pc in f.get_keys()
             for k in range(-a['M'], a['M'] + 1)],
            [name(x) for x in fit.xdict], list(fit.xdict.values())]


def run(job, d):
    try:
        return ['ok', record(globals()['op_' + job['op']](job['a'], d))]
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (12, 28, 23, 24, 11):
            raise
        return ['raised', type(e).__name__, str(e)[:200]]


def main():
    prog = json.load(open(sys.argv[1]))
    log = {}
    for n, job in enumerate(prog['jobs']):
        d = os.path.join(prog['dir'], 'd%d' % n)
        os.makedirs(d)
        r = run(job, d)
        if job.get('id') is not None:
            log.setdefault(str(job['id']), []).append(r)
    with open(sys.argv[2], 'w') as f:
        json.dump(dict(log=log, seed=hash('x')), f)


if __name__ == '__main__':
    main()
