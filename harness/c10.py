"""C10 - all conversion routes between representations agree."""
import numpy as np
import sympy as sp
from shgpy import FormContainer, form_to_fform
from shgpy.core.data_handler import (
    fform_to_fdat, fform_to_dat, fform_to_form, form_to_dat, form_to_fdat,
    fdat_to_dat)
import gen
import model

PROPERTY = 'C10'
RULE = ('one random formula, M, assignment and sample count pushed through '
        'every conversion route and through commuting pairs of operations; '
        'all results compared with direct numeric evaluation of the formula; '
        'distinct by formula, M and operations')
ASSUMPTIONS = ['identity in the symbols is decided at random points']
MIN_EVENTS = {'routes compared': 1000, 'commuting squares': 100,
              'incomplete assignments': 30, 'unused symbols': 60,
              'formulas constant in phi': 20}
PHI = gen.PHI


def plan(tier):
    k = 2 if tier == 'quick' else 25
    return [('routes', 130*k), ('commute', 170*k), ('incomplete', 70*k)]


def make(rng, mon, deg=6):
    syms = gen.symbols(rng, int(rng.integers(1, 4)))
    exprs = {}
    for k in gen.subset_pcs(rng):
        r = rng.random()
        if r < .1:
            exprs[k] = gen.coeff(rng, syms)
        elif r < .15:
            exprs[k] = sp.Integer(0)
        else:
            exprs[k] = gen.formula(rng, syms, deg)
        if PHI not in sp.sympify(exprs[k]).free_symbols:
            mon.count('formulas constant in phi')
    exprs = {k: sp.sympify(e) for k, e in exprs.items()}
    fs = set().union(*[e.free_symbols for e in exprs.values()]) - {PHI}
    env = gen.values(rng, fs)
    return syms, exprs, env


def given(rng, env, mon):
    """The assignment as a caller may write it."""
    out = {}
    for s, v in env.items():
        if isinstance(v, complex):
            out[s] = v if rng.random() < .5 else (sp.Float(v.real)
                                                  + sp.I*sp.Float(v.imag))
        else:
            k = rng.integers(3)
            out[s] = [v, np.float64(v), sp.Float(v)][k]
            if v == int(v) and rng.random() < .5:
                out[s] = int(v)
    if rng.random() < .5:
        out[sp.Symbol('unused', real=True)] = 1.5
        out[sp.Symbol('unused2')] = 2
        mon.count('unused symbols')
    return out


def truth(exprs, env, N, a=0.0, scale=1.0):
    phi = 2*np.pi*np.arange(N)/N
    return {k: scale*gen.ev(e, {**env, PHI: phi + a})*np.ones(N, complex)
            for k, e in exprs.items()}


def spectrum(exprs, env, M, a=0.0, scale=1.0):
    return {k: gen.dft(v, M, 64)
            for k, v in truth(exprs, env, 64, a, scale).items()}


def check_dat(d, exprs, env, N, mon, route, a=0.0, scale=1.0):
    mon.check(d.get_keys() == list(exprs), 'keys of data', lambda: route)
    w = truth(exprs, env, N, a, scale)
    big = truth(exprs, env, 64, a, scale)
    phi = 2*np.pi*np.arange(N)/N
    for k in exprs:
        g = d.get_pc(k, 'radians')
        mag = np.abs(big[k]).max()
        model.match_samples(g[0], g[1], phi, w[k].real, mon,
                            'samples by ' + route, ytol=1e-8, detail=f'{k}: {exprs[k]} at {env}',
                            yabs=max(mag, 1e-3))
    mon.count('routes compared')


def check_fdat(f, exprs, env, M, mon, route, a=0.0, scale=1.0):
    mon.check(f.get_keys() == list(exprs), 'keys of fdata', lambda: route)
    mon.check(f.get_M() == M, 'M of fdata', lambda: (route, f.get_M(), M))
    w = spectrum(exprs, env, M, a, scale)
    for k in exprs:
        mag = np.abs(truth(exprs, env, 64, a, scale)[k]).max()
        mon.close(f.get_pc(k), w[k], 'coefficients by ' + route, 0,
                  1e-8*mag + 1e-10, lambda: f'{k}: {exprs[k]} at {env}')
    mon.count('routes compared')


def check_fform(f, exprs, env, M, mon, route, a=0.0, scale=1.0):
    mon.check(f.get_M() == M and f.get_keys() == list(exprs),
              'M and keys of fform', route)
    w = spectrum(exprs, env, M, a, scale)
    for k in exprs:
        mag = np.abs(truth(exprs, env, 64, a, scale)[k]).max()
        mon.close(gen.ev_array(f.get_pc(k), env), w[k],
                  'formula coefficients by ' + route, 0, 1e-8*mag + 1e-10,
                  lambda: f'{k}: {exprs[k]} at {env}')


def check_form(f, exprs, env, mon, route, a=0.0, scale=1.0):
    mon.check(f.get_keys() == list(exprs), 'keys of form', route)
    w = truth(exprs, env, 16, a, scale)
    phi = 2*np.pi*np.arange(16)/16
    for k in exprs:
        mag = np.abs(w[k]).max()
        mon.close(gen.ev(f.get_pc(k), {**env, PHI: phi})*np.ones(16), w[k],
                  'formula by ' + route, 0, 1e-8*mag + 1e-10,
                  lambda: f'{k}: {exprs[k]} at {env}')


def run(kind, idx, rng, mon, tier):
    syms, exprs, env = make(rng, mon)
    M = int(rng.choice([8, 9, 16, 17, 7]))
    N = int(rng.choice([1, 5, 16, 40]))
    form = FormContainer(exprs)
    mon.note_sample(f'{kind} M={M} N={N} {exprs}')
    if kind == 'routes':
        sd = given(rng, env, mon)
        fform = form_to_fform(form, M=M)
        check_dat(form_to_dat(form, sd, N), exprs, env, N, mon, 'form')
        check_dat(fform_to_dat(fform, sd, N), exprs, env, N, mon, 'fform')
        fd = form_to_fdat(form, sd, M)
        check_fdat(fd, exprs, env, M, mon, 'form to fdata')
        if M == 16:
            check_fdat(form_to_fdat(form, sd), exprs, env, M, mon,
                       'form to fdata, default M')
        check_dat(fdat_to_dat(fd, N), exprs, env, N, mon, 'form, fdata')
        fd2 = fform_to_fdat(fform, sd)
        check_fdat(fd2, exprs, env, M, mon, 'fform to fdata')
        check_dat(fdat_to_dat(fd2, N), exprs, env, N, mon, 'fform, fdata')
        back = fform_to_form(fform)
        check_form(back, exprs, env, mon, 'fform to form')
        check_dat(form_to_dat(back, sd, N), exprs, env, N, mon,
                  'fform, form')
        again = form_to_fform(back, M=M)
        check_fform(again, exprs, env, M, mon, 'fform, form, fform')
        check_dat(fform_to_dat(again, sd, N), exprs, env, N, mon,
                  'fform, form, fform')
        mon.sig(kind, M, N, [str(e) for e in exprs.values()])
    elif kind == 'commute':
        j = idx % 6
        sd = given(rng, env, mon)
        if j == 0:       # partial substitution before or after
            fs = sorted(env, key=str)
            if not fs:
                return
            s = fs[int(rng.integers(len(fs)))]
            rest = {k: v for k, v in sd.items() if k != s}
            pair = [(s, sd[s])] if rng.random() < .5 else {s: sd[s]}
            a = form.copy()
            a.subs(pair)
            check_dat(form_to_dat(a, rest, N), exprs, env, N, mon,
                      'substitution, form')
            fa = form_to_fform(a, M=M)
            check_fdat(fform_to_fdat(fa, rest), exprs, env, M, mon,
                       'substitution, fform')
            b = form_to_fform(form, M=M)
            b.subs(pair)
            check_fdat(fform_to_fdat(b, rest), exprs, env, M, mon,
                       'fform, substitution')
            check_form(fform_to_form(b), exprs, env, mon,
                       'fform, substitution, form')
        elif j == 1:     # scaling
            c = float(np.round(rng.uniform(.2, 3), 3))
            a = form.copy()
            a.apply_arbitrary_scale(c)
            check_fdat(form_to_fdat(a, sd, M), exprs, env, M, mon,
                       'scale, fdata', scale=c)
            b = form_to_fform(form, M=M)
            b.apply_arbitrary_scale(c)
            check_fdat(fform_to_fdat(b, sd), exprs, env, M, mon,
                       'fform, scale, fdata', scale=c)
            d = form_to_fdat(form, sd, M)
            d.scale_fdata(c)
            check_fdat(d, exprs, env, M, mon, 'fdata, scale', scale=c)
            check_dat(fdat_to_dat(d, N), exprs, env, N, mon,
                      'fdata, scale, data', scale=c)
            e = form_to_dat(form, sd, N)
            e.scale_data(c)
            check_dat(e, exprs, env, N, mon, 'data, scale', scale=c)
        elif j == 2:     # symbolic scaling
            A = sp.Symbol('AA', real=True)
            c = float(np.round(rng.uniform(.2, 3), 3))
            sd2 = {**sd, A: c}
            a = form.copy()
            a.apply_arbitrary_scale(A)
            b = form_to_fform(form, M=M)
            b.apply_arbitrary_scale(A)
            check_fdat(form_to_fdat(a, sd2, M), exprs, env, M, mon,
                       'symbolic scale, fdata', scale=c)
            check_fdat(fform_to_fdat(b, sd2), exprs, env, M, mon,
                       'fform, symbolic scale', scale=c)
            check_dat(form_to_dat(a, sd2, N), exprs, env, N, mon,
                      'symbolic scale, data', scale=c)
        elif j in (3, 4):   # phase shift by a number or by a symbol
            al = float(np.round(rng.normal(), 3))
            if j == 3:
                sh, sd2 = al, sd
            else:
                P = sp.Symbol('psi', real=True)
                sh, sd2 = P, {**sd, P: al}
            a = form.copy()
            a.apply_phase_shift(sh, PHI)
            check_dat(form_to_dat(a, sd2, N), exprs, env, N, mon,
                      'shift, data', a=al)
            check_fdat(form_to_fdat(a, sd2, M), exprs, env, M, mon,
                       'shift, fdata', a=al)
            b = form_to_fform(form, M=M)
            b.apply_phase_shift(sh)
            check_fdat(fform_to_fdat(b, sd2), exprs, env, M, mon,
                       'fform, shift', a=al)
            check_dat(fform_to_dat(b, sd2, N), exprs, env, N, mon,
                      'fform, shift, data', a=al)
            check_dat(form_to_dat(fform_to_form(b), sd2, N), exprs, env, N,
                      mon, 'fform, shift, form, data', a=al)
            d = form_to_fdat(form, sd, M)
            d.phase_shift_fdata(al, 'radians')
            check_fdat(d, exprs, env, M, mon, 'fdata, shift', a=al)
            check_dat(fdat_to_dat(d, N), exprs, env, N, mon,
                      'fdata, shift, data', a=al)
        else:            # expansion and simplification
            a = form.copy()
            a.expand()
            check_fform(form_to_fform(a, M=M), exprs, env, M, mon,
                        'expand, fform')
            check_dat(form_to_dat(a, sd, N), exprs, env, N, mon,
                      'expand, data')
        mon.count('commuting squares')
        mon.sig(kind, j, M, N, [str(e) for e in exprs.values()])
    else:
        fs = sorted(env, key=str)
        if idx % 3 == 0:    # a parameter which only shares the name of phi
            twin = sp.Symbol('phi')
            k = list(exprs)[0]
            odd = FormContainer({**exprs, k: exprs[k] + twin*sp.cos(PHI)})
            mon.raises(lambda: form_to_dat(odd, env, N),
                       'incomplete assignment rejected by form_to_dat',
                       detail=lambda: (exprs, 'and a twin of phi'))
            mon.raises(lambda: form_to_fdat(odd, env, M),
                       'incomplete assignment rejected by form_to_fdat',
                       detail=lambda: (exprs, 'and a twin of phi'))
            both = {**exprs, k: exprs[k] + twin*sp.cos(PHI)}
            check_dat(form_to_dat(odd, {**env, twin: .5}, N), both,
                      {**env, twin: .5}, N, mon, 'twin of phi')
            mon.count('twins of phi')
        if not fs:
            return
        s = fs[int(rng.integers(len(fs)))]
        bad = {k: v for k, v in env.items() if k != s}
        if rng.random() < .4:
            # the right name with other assumptions is another symbol
            other = sp.Symbol(s.name, real=True) if not s.is_real else \
                sp.Symbol(s.name)
            bad[other] = 1.0
        if rng.random() < .3:
            bad[sp.Symbol('unused')] = 1
        # only symbols that are still there after evaluation count
        fform = form_to_fform(form, M=M)
        need = s in set().union(*[e.free_symbols for e in exprs.values()])
        if not need:
            return
        mon.raises(lambda: form_to_dat(form, bad, N),
                   'incomplete assignment rejected by form_to_dat',
                   detail=lambda: (exprs, bad))
        if s in fform.get_free_symbols():
            mon.raises(lambda: fform_to_fdat(fform, bad),
                       'incomplete assignment rejected by fform_to_fdat')
            mon.raises(lambda: fform_to_dat(fform, bad, N),
                       'incomplete assignment rejected by fform_to_dat')
            mon.raises(lambda: form_to_fdat(form, bad, M),
                       'incomplete assignment rejected by form_to_fdat')
        mon.count('incomplete assignments')
        mon.sig(kind, str(s), [str(e) for e in exprs.values()])
