"""C17 - making a tensor real or complex changes only assumptions."""
import numpy as np
import sympy as sp
from shgpy import formgen
import shgpy.tensor_definitions as td
from shgpy import make_tensor_real, make_tensor_complex, map_to_real
import gen

PROPERTY = 'C17'
RULE = ('tabulated and random tensors of any shape with symbols of every kind '
        'of name (sympy built-ins, punctuation, LaTeX) and assumption, '
        'non-linear entries, numbers, all prefix/suffix choices; distinct by '
        'tensor and affixes')
ASSUMPTIONS = ['parameters have distinct names, and the new names are not in '
               'use for other symbols; parameters whose realness is specified '
               '(either way) are left alone']
MIN_EVENTS = {'made complex': 150, 'made real': 100, 'odd names': 60,
              'symbols already real': 60, 'accepted as real': 60}
ODD = ['S', 'N', 'I', 'E', 'Q', 'O', 'pi', 'beta', 'gamma', 'zeta', 'lambda',
       'Symbol', 'test', 'a b', 'chi_{xx,y}', 'x1:3', 'chi^(2)', 'é', 're',
       'real_', 'cos', 'None', 'x.y', '1', 'oo']
ASSUME = [{}, {}, {}, {'real': True}, {'positive': True},
          {'real': True, 'nonzero': True}, {'integer': True},
          {'nonzero': True}, {'imaginary': True}, {'complex': True},
          {'zero': False}, {'finite': True}, {'nonnegative': True}]


def plan(tier):
    k = 4 if tier == 'quick' else 40
    return [('table', 97), ('random', 160*k), ('gate', 60*k), ('map', 30*k)]


def make(rng, mon):
    n = int(rng.integers(1, 6))
    names = list(gen.NAMES)
    if rng.random() < .6:
        names = list(ODD) + names[:2]
        mon.count('odd names')
    names = [str(x) for x in rng.permutation(names)[:n]]
    if 'real_' in names and rng.random() < .5:
        names.remove('real_')
        names = names or ['a']
    many = rng.random() < .12
    if many:
        names += ['b%d' % i for i in range(int(rng.integers(5, 25)))]
        mon.count('many symbols')
    syms = [sp.Symbol(nm, **ASSUME[rng.integers(len(ASSUME))])
            for nm in names]
    shape = [(3, 3, 3), (3,)*4, (2, 2), (5,), (3, 1, 2), (1,), ()][
        rng.choice(7, p=[.35, .1, .2, .15, .1, .05, .05])]
    if shape == ():
        shape = (2, 3)
    t = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        r = rng.random()
        if r < .5:
            t[i] = syms[rng.integers(len(syms))]*int(rng.choice([-1, 1, 2]))
        elif r < .6:
            t[i] = sp.sympify(gen.coeff(rng, syms, depth=2))
        elif r < .7:
            t[i] = syms[0]**2*sp.sin(syms[-1]) + sp.I*syms[-1]
        elif r < .8:
            t[i] = [0, 1, -2, 1.5, 1j][rng.integers(5)]
        else:
            t[i] = sp.Integer(0)
    if many:
        i = tuple(int(rng.integers(d)) for d in shape)
        t[i] = sum((int(k)*s for k, s in
                    zip(rng.integers(1, 9, len(syms)), syms)), sp.Integer(0))
    return t


def symbols_of(t):
    return sorted({s for e in t.ravel() for s in sp.sympify(e).free_symbols},
                  key=lambda s: (s.name, sp.srepr(s)))


def rv(rng, s):
    if s.is_integer:
        return float(rng.integers(1, 5))
    if s.is_imaginary:
        return 1j*float(rng.uniform(.2, 2))
    if s.is_nonnegative:
        return float(rng.uniform(.2, 2))
    return float(rng.normal())


def complexify(t, rng, mon):
    k = rng.integers(4)
    pre, suf = [(('real_', 'imag_'), ('', '')), (('', 'i_'), ('_r', '')),
                (('', ''), ('_re', '_im')), (('R', 'I'), ('', ''))][k]
    syms = symbols_of(t)
    unspec = [s for s in syms if s.is_real is None]
    new = {}
    for s in unspec:
        new[s] = (sp.Symbol(pre[0] + s.name + suf[0], real=True),
                  sp.Symbol(pre[1] + s.name + suf[1], real=True))
    others = [s for s in syms if s not in unspec]
    flat = [x for p in new.values() for x in p]
    if len({x.name for x in flat} | {s.name for s in others}) < \
            len(flat) + len(others):
        return None
    before = [sp.srepr(sp.sympify(e)) for e in t.ravel()]
    kw = {} if k == 0 else dict(prefix=pre, suffix=suf)
    g = make_tensor_complex(t, **kw)
    what = lambda: f'{t.tolist()} {kw}: {g.tolist()}'
    mon.check(before == [sp.srepr(sp.sympify(e)) for e in t.ravel()],
              'the input is left alone', what)
    mon.check(isinstance(g, np.ndarray) and g.shape == t.shape, 'shape', what)
    got = set(symbols_of(g))
    mon.check(got <= set(flat) | set(others), 'symbols of the complex tensor',
              lambda: f'{got} want {set(flat) | set(others)}; {what()}')
    env, old = {}, {}
    for s, (a, b) in new.items():
        env[a], env[b] = float(rng.normal()), float(rng.normal())
        old[s] = env[a] + 1j*env[b]
    for s in others:
        env[s] = old[s] = rv(rng, s)
    mon.close(gen.ev_array(g, env), gen.ev_array(t, old),
              'value at complex parameters', rtol=1e-8, detail=what)
    mon.count('made complex')
    if others:
        mon.count('symbols already real')
    return g


def realify(t, rng, mon):
    syms = symbols_of(t)
    m = {s: sp.Symbol(s.name, real=True) for s in syms if s.is_real is None}
    before = [sp.srepr(sp.sympify(e)) for e in t.ravel()]
    g = make_tensor_real(t)
    what = lambda: f'{t.tolist()}: {g.tolist()}'
    mon.check(before == [sp.srepr(sp.sympify(e)) for e in t.ravel()],
              'the input is left alone', what)
    mon.check(isinstance(g, np.ndarray) and g.shape == t.shape, 'shape', what)
    env = {s: rv(rng, s) for s in syms}
    new = {m.get(s, s): v for s, v in env.items()}
    got = set(symbols_of(g))
    mon.check(got <= set(new), 'symbols of the real tensor',
              lambda: f'{got} want {set(new)}; {what()}')
    mon.close(gen.ev_array(g, new), gen.ev_array(t, env),
              'value at real parameters', detail=what)
    for a, b in zip(t.ravel(), g.ravel()):
        a = sp.sympify(a)
        if a.is_Symbol or a.is_number:
            mon.check(b == m.get(a, a), 'bare symbols and numbers',
                      lambda: f'{a!r} became {b!r}')
    mon.count('made real')
    return g


def run(kind, idx, rng, mon, tier):
    if kind == 'table':
        tabs = [(t, k) for t in ('dipole', 'surface', 'quadrupole')
                for k in sorted(getattr(td, t))]
        if idx >= len(tabs):
            return
        tab, name = tabs[idx]
        t = getattr(td, tab)[name]
        c = complexify(t, rng, mon)
        r = realify(t, rng, mon)
        for x in (c, r):
            for s in symbols_of(x):
                mon.check(s.is_real is True, 'all parameters are real',
                          lambda: f'{tab}[{name}] {s}')
        mon.check(len(symbols_of(r)) == len(symbols_of(t)) and
                  len(symbols_of(c)) == 2*len(symbols_of(t)),
                  'distinct parameters stay distinct')
        mon.sig(tab, name)
        mon.note_sample(f'{tab}[{name}]')
    elif kind == 'random':
        t = make(rng, mon)
        realify(t, rng, mon)
        g = complexify(t, rng, mon)
        if g is not None:       # now nothing is unspecified: no change
            h = make_tensor_real(g)
            mon.check(all(sp.sympify(a) == b for a, b in
                          zip(g.ravel(), h.ravel())),
                      'a real tensor is unchanged')
        mon.sig(kind, str(t.tolist()))
        mon.note_sample(t.tolist())
    elif kind == 'gate':
        # accepted wherever real parameters are demanded, rejected before
        t = np.array(td.dipole[sorted(td.dipole)[int(
            rng.integers(len(td.dipole)))]])
        bare = bool(symbols_of(t))
        ren = {s: sp.Symbol(str(rng.permutation(ODD)[i]) + s.name)
               for i, s in enumerate(symbols_of(t)[:len(ODD)])}
        t = np.array([sp.sympify(e).xreplace(ren) for e in t.ravel()],
                     dtype=object).reshape(t.shape)
        f = lambda x: formgen.formgen_just_dipole(x, 0.2)
        if rng.random() < .5:
            f = lambda x: formgen.formgen(0.2, t_eee=x)
        if bare:
            mon.raises(lambda: f(t), 'parameters which are not real rejected',
                       detail=t.tolist())
        for g in (make_tensor_real(t), make_tensor_complex(t)):
            form = f(g)
            mon.check(set(form.get_free_symbols()) <=
                      set(symbols_of(g)) | {gen.PHI},
                      'accepted, with these symbols')
        mon.count('accepted as real')
        mon.sig(kind, str(t.tolist()))
        mon.note_sample(t.tolist())
    else:
        nm = str(rng.permutation(ODD + gen.NAMES)[0])
        s = sp.Symbol(nm, **ASSUME[rng.integers(len(ASSUME))])
        g = map_to_real(s)
        mon.check(g == sp.Symbol(nm, real=True), 'map_to_real',
                  lambda: f'{s!r}: {g!r}')
        mon.sig(kind, nm)
        mon.note_sample(nm)
