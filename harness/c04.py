"""C04 - formula-container operations mean what they say numerically."""
import numpy as np
import sympy as sp
from shgpy import FormContainer, fFormContainer
import gen

PROPERTY = 'C04'
RULE = ('random histories of subs/phase shift/scale/expand/simplify on random '
        'phi-space and Fourier formula containers, the current formula '
        'evaluated at random complex points and compared with the composition '
        'of the operations on the original formula; distinct by container '
        'kind, M, formula shapes and operation sequence')
ASSUMPTIONS = ['evaluation at random points in double precision decides '
               'identity of formulas']
MIN_EVENTS = {'operations': 500, 'points evaluated': 2000,
              'substitutions': 100, 'chained substitutions': 30, 'shifts': 80, 'scales': 60,
              'simplify or expand': 40, 'formulas with roots': 40}
TOL = 1e-7


def plan(tier):
    k = 4 if tier == 'quick' else 25
    return [('form', 220*k), ('fform', 220*k), ('malformed', 40*k),
            ('roots', 60*k)]


PHI = gen.PHI
FRESH = [sp.Symbol('q1', real=True), sp.Symbol('q2'),
         sp.Symbol('q3', positive=True)]
K = 3      # points evaluated together


class Model:
    """name -> function of env; env maps symbols to arrays of K values."""

    def __init__(self, exprs):
        self.f = {k: (lambda env, e=e: gen.ev(e, env)*np.ones(K, complex))
                  for k, e in exprs.items()}

    def subs(self, s, v):
        old = self.f
        self.f = {k: (lambda env, f=f: f({**env, s: gen.ev(v, env)}))
                  for k, f in old.items()}

    def scale(self, v):
        old = self.f
        self.f = {k: (lambda env, f=f: gen.ev(v, env)*f(env))
                  for k, f in old.items()}

    def fourier_shift(self, a):
        self.f = {k: (lambda env, f=f, n=k[1]:
                      f(env)*np.exp(1j*n*gen.ev(a, env)))
                  for k, f in self.f.items()}


def small_value(rng, syms, real):
    """What a symbol is replaced by."""
    k = rng.integers(5)
    if k < 2:
        return float(np.round(rng.normal(), 3)) or .5
    if k == 2:
        return int(rng.integers(1, 4))
    if k == 3 and not real:
        return sp.Float(.3) + sp.I*sp.Rational(1, 2)
    f = FRESH[rng.integers(3)]
    return [f, f + 1, 2*f, f**2][rng.integers(4)]


def root(rng, syms):
    """A square root which is not the product of the factors' roots."""
    c = [sp.Integer(int(rng.integers(-3, 1))) + sp.I*sp.Rational(
        int(rng.choice([-1, 1])*rng.integers(2, 9)), 4) for _ in range(2)]
    x, y = (syms[i] for i in rng.permutation(len(syms))[:2])
    if rng.random() < .5:       # both of them complex numbers
        x, y = sp.Symbol('r_1'), sp.Symbol('r_2')
        return [sp.sqrt(x*y), (x*y)**sp.Rational(1, 3), sp.sqrt(x**3*y)][
            rng.integers(3)]
    return sp.sqrt((x + c[0])*(y + c[1]))


def roots(rng, mon):
    """Rewriting formulas in which roots are taken of complex numbers.  (No
    substitution: sympy 1.8 itself gets some roots of squares wrong.)"""
    syms = gen.symbols(rng, 3)
    raw = {}
    for k in ['SS', 'PS'][:int(rng.integers(1, 3))]:
        a, b = (gen.coeff(rng, syms, depth=1) for _ in range(2))
        raw[k] = ((a*sp.cos(PHI) + root(rng, syms))
                  * (b + [1, root(rng, syms)][rng.integers(2)]))
    c = FormContainer(raw)
    op = ['expand', 'simplify'][int(rng.random() < .15)]
    getattr(c, op)()
    env = {PHI: rng.normal(size=8)}
    for s in syms + [sp.Symbol('r_1'), sp.Symbol('r_2')]:
        env[s] = (rng.integers(1, 4, 8).astype(float) if s.is_integer else
                  rng.uniform(.3, 1.7, 8) if s.is_positive else
                  rng.normal(size=8) + (0 if s.is_real else
                                        1j*rng.normal(size=8)))
    for k, e in raw.items():
        w = gen.ev(e, env)*np.ones(8, complex)
        g = gen.ev(c.get_pc(k), env)*np.ones(8, complex)
        if np.isfinite(w).all():
            mon.close(g, w, 'formula value', TOL, TOL,
                      lambda: f'{k}: {c.get_pc(k)} after {op} from {e}')
            mon.count('points evaluated', 8)
    mon.count('formulas with roots')
    mon.sig('roots', op, [str(e) for e in raw.values()])
    mon.note_sample(f'{op} {raw}')


def run(kind, idx, rng, mon, tier):
    if kind == 'roots':
        return roots(rng, mon)
    if kind == 'malformed':
        return malformed(idx, rng, mon)
    syms = gen.symbols(rng, int(rng.integers(1, 5)))
    keys = [['PP', 'PS', 'SP', 'SS', 'other', 'z 1'][i]
            for i in rng.permutation(6)[:int(rng.integers(1, 4))]]
    fourier = kind == 'fform'
    if fourier:
        M = int(rng.choice([0, 1, 2, 3, 5, 16]))
        raw = {}
        for k in keys:
            v = np.zeros(2*M+1, dtype=object)
            for i in range(2*M+1):
                r = rng.random()
                if r < .5:
                    v[i] = gen.coeff(rng, syms)
                elif r < .6:
                    v[i] = float(np.round(rng.normal(), 3))
                elif r < .65:
                    v[i] = complex(1, -2)
            if rng.random() < .05:
                v = np.array([float(i) for i in range(2*M+1)], dtype=object)
            raw[k] = v
        it = [raw, list(raw.items()), zip(raw.keys(), raw.values()),
              raw.items()][rng.integers(4)]
        c = fFormContainer(it) if M == 16 else fFormContainer(it, M=M)
        exprs = {(k, n): raw[k][n+M] for k in keys for n in range(-M, M+1)}
    else:
        M = None
        raw = {k: gen.formula(rng, syms, 5) for k in keys}
        if rng.random() < .2:
            raw[keys[0]] = [0, 3, 2.5, 'a+b*cos(phi)', 1j][rng.integers(5)]
        it = [raw, list(raw.items()), zip(raw.keys(), raw.values()),
              raw.items()][rng.integers(4)]
        c = FormContainer(it)
        exprs = dict(raw)
        if isinstance(exprs[keys[0]], str):
            exprs[keys[0]] = (sp.Symbol('a')
                              + sp.Symbol('b')*sp.cos(sp.Symbol('phi')))
            mon.count('string formulas')
    exprs = {k: sp.sympify(v) for k, v in exprs.items()}
    model = Model(exprs)
    allowed = set()
    for e in exprs.values():
        allowed |= e.free_symbols
    ops = []
    size = 0

    def current():
        if fourier:
            return {(k, n): c.get_pc(k)[n+M]
                    for k in keys for n in range(-M, M+1)}
        return {k: c.get_pc(k) for k in keys}

    def compare():
        mon.check(c.get_keys() == keys, 'keys', lambda: (c.get_keys(), keys))
        if fourier:
            mon.check(c.get_M() == M, 'M', c.get_M)
            for k in keys:
                mon.check(c.get_pc(k).shape == (2*M+1,), 'shape')
        items, vals = c.get_items(), c.get_values()
        mon.check([k for k, _ in items] == keys, 'item keys')
        for i, k in enumerate(keys):
            p = c.get_pc(k)
            mon.check(np.all(items[i][1] == p) and np.all(vals[i] == p),
                      'accessors agree')
        cur = current()
        have = set()
        for e in cur.values():
            mon.check(isinstance(e, sp.Basic), 'formulas are sympy',
                      lambda: type(e))
            have |= e.free_symbols
        fs = c.get_free_symbols()
        mon.check(isinstance(fs, list) and len(set(fs)) == len(fs)
                  and set(fs) == have, 'free symbols',
                  lambda: f'{fs} but formulas contain {have} after {ops}')
        mon.check([str(s) for s in fs] == sorted(str(s) for s in fs),
                  'free symbols sorted', lambda: fs)
        mon.check(have <= allowed, 'no foreign symbols',
                  lambda: f'{have - allowed} after {ops}')
        env = {}
        for s in allowed | set(syms) | set(FRESH) | {PHI}:
            if s.is_integer:
                v = rng.integers(1, 4, K).astype(float)
            elif s.is_positive:
                v = rng.uniform(.3, 1.7, K)
            elif s.is_real or s == PHI:
                v = rng.normal(size=K)
            else:
                v = rng.normal(size=K) + .5j*rng.normal(size=K)
            env[s] = v
        for k, e in cur.items():
            w = model.f[k](env)
            g = gen.ev(e, env)*np.ones(K, complex)
            mag = np.abs(w).max()
            mon.count('points evaluated', K)
            if not np.isfinite(mag) or mag > 1e12:
                continue
            mon.close(g, w, 'formula value', TOL, TOL,
                      lambda: f'{k}: {e} after {ops} from {exprs[k]}')

    compare()
    for _ in range(int(rng.integers(1, 7))):
        j = int(rng.integers(11))
        free = sorted(allowed, key=str)
        cand = [s for s in free if s != PHI]
        if j == 10:
            # a chain: each replacement brings in what the next one replaces
            if len(cand) < 2:
                continue
            chain = [cand[i] for i in rng.permutation(len(cand))]
            chain = chain[:int(rng.integers(2, 4))]
            pairs = [(s, [t, t + 1, 2*t, t**2][rng.integers(4)])
                     for s, t in zip(chain, chain[1:])]
            pairs.append((chain[-1], small_value(rng, syms, True)))
            if chain[-1] in sp.sympify(pairs[-1][1]).free_symbols:
                continue
            c.subs([pairs, tuple(pairs), iter(pairs)][rng.integers(3)])
            for s, v in pairs:
                model.subs(s, sp.sympify(v))
                allowed.discard(s)
                allowed |= sp.sympify(v).free_symbols
            mon.count('chained substitutions')
            ops.append(f'subs {pairs}')
        elif j < 4 and cand:
            n = int(rng.integers(1, 3))
            pairs = []
            for _ in range(n):
                s = cand[rng.integers(len(cand))]
                if s in FRESH and rng.random() < .7:
                    continue
                if any(s == p[0] for p in pairs):
                    continue
                v = small_value(rng, syms, s.is_real)
                if s in sp.sympify(v).free_symbols:
                    continue
                pairs.append((s, v))
            if rng.random() < .15:
                pairs.append((PHI, float(np.round(rng.normal(), 3))))
            if rng.random() < .2:
                pairs.append((sp.Symbol('unused_symbol'), 3))
            if not pairs:
                continue
            overlap = any(s in sp.sympify(v).free_symbols
                          for s, _ in pairs for _, v in pairs)
            if rng.random() < .5 and not overlap:
                c.subs(dict(pairs))
            elif rng.random() < .3:
                c.subs(zip([s for s, _ in pairs], [v for _, v in pairs]))
                mon.count('pairs from an iterator')
            else:
                c.subs(pairs)
            if not overlap:
                # simultaneous and successive replacement coincide
                for s, v in reversed(pairs):
                    model.subs(s, sp.sympify(v))
            else:
                # successive: the first replacement acts on the formula first
                for s, v in pairs:
                    model.subs(s, sp.sympify(v))
            for s, v in pairs:
                allowed.discard(s)
                allowed |= sp.sympify(v).free_symbols
            mon.count('substitutions')
            ops.append(f'subs {pairs}')
        elif j < 6:
            a = [float(np.round(rng.normal(), 3)), sp.pi/3, FRESH[0],
                 FRESH[0] + 1, int(rng.integers(-2, 3)),
                 -FRESH[2]][rng.integers(6)]
            a = sp.sympify(a)
            if fourier:
                c.apply_phase_shift(a)
                model.fourier_shift(a)
                allowed |= a.free_symbols
            else:
                var = PHI
                if cand and rng.random() < .3:
                    var = cand[rng.integers(len(cand))]
                if var in a.free_symbols:
                    continue
                c.apply_phase_shift(a, var)
                model.subs(var, var + a)
                allowed |= a.free_symbols
            mon.count('shifts')
            ops.append(f'shift {a}')
        elif j < 8:
            a = sp.sympify([2, .5, FRESH[1], FRESH[2], sp.Symbol('A'),
                            syms[0], sp.I][rng.integers(7)])
            c.apply_arbitrary_scale(a)
            model.scale(a)
            allowed |= a.free_symbols
            mon.count('scales')
            ops.append(f'scale {a}')
        elif not fourier:
            cur = current()
            if j == 8 and all(e.count_ops() < 12 for e in cur.values()):
                c.simplify()
                ops.append('simplify')
            elif all(e.count_ops() < 120 for e in cur.values()):
                c.expand()
                ops.append('expand')
            else:
                continue
            mon.count('simplify or expand')
        else:
            c = c.copy()
            ops.append('copy')
        mon.count('operations')
        compare()
    mon.sig(kind, M, [type(e).__name__ for e in exprs.values()],
            [o.split()[0] for o in ops], [o[:25] for o in ops])
    mon.note_sample(f'{kind} M={M} {list(exprs.items())[:2]} {ops}')


def malformed(idx, rng, mon):
    v = np.array([sp.Symbol('a')]*3, dtype=object)
    bad = [
        ('fform int key', lambda: fFormContainer({1: v}, M=1)),
        ('fform short', lambda: fFormContainer({'PP': v[:2]}, M=1)),
        ('fform default M', lambda: fFormContainer({'PP': v})),
        ('fform float dtype',
         lambda: fFormContainer({'PP': np.zeros(3)}, M=1)),
        ('fform list', lambda: fFormContainer({'PP': list(v)}, M=1)),
        ('fform 2-d',
         lambda: fFormContainer({'PP': v.reshape(1, 3)}, M=1)),
        ('fform none', lambda: fFormContainer(None, M=1)),
        ('form int key', lambda: FormContainer({1: sp.Symbol('a')})),
        ('form none', lambda: FormContainer(None)),
        ('form int', lambda: FormContainer(3)),
        ('form one bad key',
         lambda: FormContainer({'PP': sp.Symbol('a'), None: 1})),
    ]
    name, f = bad[idx % len(bad)]
    mon.sig('malformed', name)
    mon.note_sample(name)
    mon.raises(f, 'malformed input rejected', detail=name)
