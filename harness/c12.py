"""C12 - generated phi-space formulas reproduce the physics of RA-SHG."""
import numpy as np
import sympy as sp
import shgpy
from shgpy import formgen as fo
from shgpy import shg_symbols as S
from shgpy import tensor_definitions as td
import gen

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('random sparse tensors (symbols, sums, products, numbers, real and '
        'imaginary parts), every tabulated tensor, all combinations of '
        'contributions, numeric, exact and symbolic angles of incidence, '
        'evaluated at random parameters and angles phi against a numeric '
        'computation of the far field; distinct by tensors used, pattern of '
        'entries and kind of angle')
ASSUMPTIONS = [
    'geometry: k_in=(s,0,c), k_out=(s,0,-c), p field (-c,0,s), s field '
    '(0,1,0), sample rotated by +phi about z; magnetic term k_in x M; '
    'quadrupole term i Q with k_in on the second index',
    'floating-point tolerance 1e-8 of the largest intensity']
FIRST = ('dense',)
MIN_EVENTS = {'intensities compared': 3000, 'fields compared': 80,
              'dipole': 30, 'magnetic': 20, 'quadrupole': 15,
              'combinations': 8, 'symbolic angle': 15, 'numeric angle': 30,
              'complex parameters': 10, 'tabulated tensors': 40,
              'older generators': 10, 'rejected': 40}


def plan(tier):
    q = tier == 'quick'
    return [('random', 90 if q else 1500), ('table', 3*32 if q else 9*32),
            ('legacy', 20 if q else 300), ('reject', 12 if q else 60),
            ('dense', 2 if q else 16)]


# -------------------------------------------------------------------- oracle
EPS = np.zeros((3, 3, 3))
for _i, _j, _k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
    EPS[_i, _j, _k], EPS[_i, _k, _j] = 1, -1


def fields(theta, phi, eee=None, mee=None, qee=None):
    """Transverse far fields for p and s polarized light (numeric)."""
    c, s = np.cos(theta), np.sin(theta)
    kin, kout = np.array([s, 0, c]), np.array([s, 0, -c])
    C, Sn = np.cos(phi), np.sin(phi)
    R = np.array([[C, -Sn, 0], [Sn, C, 0], [0, 0, 1]])
    out = []
    for F in (np.array([-c, 0, s]), np.array([0, 1., 0])):
        e = np.zeros(3, dtype=complex)
        if eee is not None:
            t = np.einsum('ai,bj,ck,ijk->abc', R, R, R, eee)
            e = e + np.einsum('ijk,j,k->i', t, F, F)
        if mee is not None:
            t = np.einsum('ai,bj,ck,ijk->abc', R, R, R, mee)
            e = e + np.einsum('abc,b,cjk,j,k->a', EPS, kin, t, F, F)
        if qee is not None:
            t = np.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, qee)
            e = e + 1j*np.einsum('ijkl,j,k,l->i', t, kin, F, F)
        out.append(e - kout*np.dot(kout, e))
    return out


def intensities(*a, **k):
    p, s = fields(*a, **k)
    return dict(PP=abs(p[0])**2 + abs(p[2])**2, PS=abs(p[1])**2,
                SP=abs(s[0])**2 + abs(s[2])**2, SS=abs(s[1])**2)


# ---------------------------------------------------------------- generators
def entry(rng, syms):
    k = int(rng.integers(9))
    a, b = (syms[rng.integers(len(syms))] for _ in range(2))
    if k == 8:      # not linear in the parameters
        return [(a + sp.I*b)**2, 1/(2 + a**2 + sp.I*b), sp.exp(sp.I*a)*b,
                (a + 2*sp.I)*(b - sp.I), 1/(2 + sp.I*a), a*sp.cos(b),
                sp.exp(sp.I*sp.pi/3)*a, sp.sqrt(1 + a**2)][rng.integers(8)]
    if k < 3:
        return a
    if k == 3:
        return a + b*gen.num(rng)
    if k == 4:
        return -a
    if k == 5:
        return a + sp.I*b
    if k == 6:
        return gen.num(rng, True)
    return a*b/2


def tensor(rng, rank, syms, n):
    t = np.zeros((3,)*rank, dtype=object)
    if rng.random() < .5:
        t[...] = sp.Integer(0)
    for _ in range(n):
        t[tuple(rng.integers(3, size=rank))] = entry(rng, syms)
    return t


def angle(rng, mon):
    """(what is passed, its numeric value, symbol or None)"""
    k = int(rng.integers(9))
    if k < 3:
        mon.count('symbolic angle')
        v = float(rng.uniform(-.2, 1.7))
        t = [S.theta, sp.Symbol('th', real=True), sp.pi/2 - S.theta][k]
        return t, (v if k < 2 else np.pi/2 - v), (
            {t: v} if k < 2 else {S.theta: v})
    mon.count('numeric angle')
    t = [float(rng.uniform(0, 1.5)), 0, sp.pi/int(rng.integers(3, 9)),
         np.float64(rng.uniform(0, np.pi)), -float(rng.uniform(0, 3)),
         [sp.pi/2, -sp.pi/6, 2, 1, -1, np.pi/2, sp.pi][rng.integers(7)]][k-3]
    return t, float(t), {}


def env_for(rng, *arrays):
    syms = set()
    for a in arrays:
        if a is not None:
            for e in a.ravel():
                syms |= sp.sympify(e).free_symbols
    syms = sorted(syms - {S.theta}, key=str)
    return gen.values(rng, syms, complex_ok=False)


def num_of(t, env):
    return None if t is None else gen.ev_array(t, env)


def compare(rng, mon, form, th, tenv, tens, rule, npts=3):
    mon.check(sorted(form.get_keys()) == sorted(gen.PCS), 'the four intensities',
              form.get_keys)
    for _ in range(npts):
        env = env_for(rng, *tens)
        nt = [num_of(t, env) for t in tens]
        full = dict(env)
        full.update(tenv)
        phis = [float(x) for x in rng.uniform(-7, 7, size=3)]
        for p in phis:
            full[S.phi] = p
            want = intensities(th, p, *nt)
            scale = max(max(want.values()), sum(
                np.sum(np.abs(t)**2) for t in nt if t is not None), 1e-30)
            memo = {}
            for k, w in want.items():
                got = complex(gen.ev(form.get_pc(k), full, memo))
                mon.check(abs(got - w) <= 1e-8*scale, rule,
                          lambda: f'{k}: got {got} want {w} theta {th} phi '
                                  f'{p} {env}')
                mon.check(got.real >= -1e-8*scale and
                          abs(got.imag) <= 1e-8*scale, 'real, non-negative',
                          lambda: got)
                mon.count('intensities compared')


def compare_fields(rng, mon, SpSs, th, tenv, tens):
    env = env_for(rng, *tens)
    nt = [num_of(t, env) for t in tens]
    full = dict(env)
    full.update(tenv)
    full[S.phi] = p = float(rng.uniform(-7, 7))
    want = fields(th, p, *nt)
    scale = max(sum(np.sum(np.abs(t)) for t in nt if t is not None), 1e-30)
    for got, w in zip(SpSs, want):
        g = np.array([complex(gen.ev(x, full)) for x in got])
        mon.check(np.all(np.abs(g - w) <= 1e-8*scale), 'far field',
                  lambda: (g, w))
        mon.count('fields compared')


def complexify(rng, mon, t):
    mon.count('complex parameters')
    return shgpy.make_tensor_complex(t)


def make(rng, mon, t, gt, gm, gq):
    kw = {}
    if gt is not None or rng.random() < .3:
        kw['t_eee'] = gt
    if gm is not None or rng.random() < .3:
        kw['t_mee'] = gm
    if gq is not None or rng.random() < .3:
        kw['t_qee'] = gq
    if rng.random() < .2:
        return fo.formgen(t, gt, gm, gq), (t, gt, gm, gq)
    return fo.formgen(t, **kw), (t, gt, gm, gq)


def check_all(rng, mon, gt, gm, gq, rule, npts=3):
    for n, x in (('dipole', gt), ('magnetic', gm), ('quadrupole', gq)):
        if x is not None:
            mon.count(n)
    if sum(x is not None for x in (gt, gm, gq)) > 1:
        mon.count('combinations')
    t, th, tenv = angle(rng, mon)
    before = [None if x is None else x.copy() for x in (gt, gm, gq)]
    form, args = make(rng, mon, t, gt, gm, gq)
    for b, x in zip(before, (gt, gm, gq)):
        mon.check(b is None or np.array_equal(b, x), 'tensor left alone')
    compare(rng, mon, form, th, tenv, (gt, gm, gq), rule, npts)
    if rng.random() < .5:
        compare_fields(rng, mon, fo.gen_S(*args), th, tenv, (gt, gm, gq))


def random(rng, mon):
    n = int(rng.integers(1, 4))
    syms = gen.symbols(rng, n, real=True)
    which = int(rng.integers(1, 8))
    few = bin(which).count('1') > 1
    mk = lambda bit, rank: tensor(rng, rank, syms, int(rng.integers(
        1, 3 if few or rank == 4 else 6))) if which & bit else None
    gt, gm, gq = mk(1, 3), mk(2, 3), mk(4, 4)
    mon.sig(which, str([None if x is None else np.argwhere(x != 0).tolist()
                        for x in (gt, gm, gq)]))
    mon.note_sample(f'{[None if x is None else x[x != 0] for x in (gt, gm, gq)]}')
    check_all(rng, mon, gt, gm, gq, 'intensity')


TABLES = ['dipole', 'surface', 'quadrupole']


def table(idx, rng, mon):
    tab = getattr(td, TABLES[idx % 3])
    name = sorted(tab)[(idx // 3) % len(tab)]
    t = np.array(tab[name], dtype=object)
    nsym = len({s for e in t.ravel() for s in sp.sympify(e).free_symbols})
    t = shgpy.make_tensor_real(t)
    if t.ndim == 4:
        # keep a handful of parameters: the others are set to zero
        syms = sorted({s for e in t.ravel()
                       for s in sp.sympify(e).free_symbols}, key=str)
        rng.shuffle(syms)
        zero = {s: 0 for s in syms[4:]}
        t = np.array([sp.sympify(e).subs(zero) for e in t.ravel()],
                     dtype=object).reshape(t.shape)
    elif nsym > 8:
        syms = sorted({s for e in t.ravel()
                       for s in sp.sympify(e).free_symbols}, key=str)
        rng.shuffle(syms)
        zero = {s: 0 for s in syms[8:]}
        t = np.array([sp.sympify(e).subs(zero) for e in t.ravel()],
                     dtype=object).reshape(t.shape)
    elif nsym <= 4 and rng.random() < .5:
        t = shgpy.make_tensor_complex(np.array(tab[name], dtype=object))
        mon.count('complex parameters')
    mon.sig('table', TABLES[idx % 3], name)
    mon.note_sample(f'{TABLES[idx % 3]}[{name!r}]')
    mon.count('tabulated tensors')
    if t.ndim == 4:
        check_all(rng, mon, None, None, t, 'intensity of a tabulated tensor', 2)
    elif rng.random() < .5:
        check_all(rng, mon, t, None, None, 'intensity of a tabulated tensor', 2)
    else:
        check_all(rng, mon, None, t, None, 'intensity of a tabulated tensor', 2)


def legacy(rng, mon):
    syms = gen.symbols(rng, int(rng.integers(1, 4)), real=True)
    t1 = tensor(rng, 3, syms, int(rng.integers(1, 4)))
    t2 = tensor(rng, 4, syms, int(rng.integers(1, 3)))
    t, th, tenv = angle(rng, mon)
    mon.sig('legacy', str(t1[t1 != 0]), str(t2[t2 != 0]))
    mon.note_sample((t1[t1 != 0], t2[t2 != 0], t))
    compare(rng, mon, fo.formgen_just_dipole(t1, t), th, tenv,
            (t1, None, None), 'formgen_just_dipole', 1)
    compare(rng, mon, fo.formgen_dipole_quadrupole(t1, t2, t), th, tenv,
            (t1, None, t2), 'formgen_dipole_quadrupole', 1)
    compare(rng, mon, fo.make_form_from_P_and_Q(
        *fo.gen_P_dipole_quadrupole(t1, t2, t)), th, tenv,
        (t1, None, t2), 'gen_P_dipole_quadrupole', 1)
    compare(rng, mon, fo.make_form_from_P_and_Q(
        *fo.gen_P_just_dipole(t1, t)), th, tenv,
        (t1, None, None), 'gen_P_just_dipole', 1)
    mon.count('older generators')


def reject(rng, mon):
    a, z = sp.Symbol('a', real=True), sp.Symbol('z')
    pos = lambda r: tuple(rng.integers(3, size=r))
    good3, good4 = np.zeros((3,)*3, dtype=object), np.zeros((3,)*4, dtype=object)
    good3[pos(3)] = a
    good4[pos(4)] = a
    bads = [z, a + z, sp.I*z, sp.Symbol('c', complex=True), a*z,
            sp.sqrt(z), sp.Symbol('n', imaginary=True)]
    bad = bads[rng.integers(len(bads))]
    bad3, bad4 = good3.copy(), good4.copy()
    bad3[pos(3)] = bad
    bad4[pos(4)] = bad
    mon.sig('reject', str(bad))
    mon.note_sample(bad)
    th = [.3, S.theta][rng.integers(2)]
    for f in (lambda: fo.formgen(th, t_eee=bad3),
              lambda: fo.formgen(th, t_mee=bad3),
              lambda: fo.formgen(th, t_qee=bad4),
              lambda: fo.formgen(th, t_eee=good3, t_mee=bad3),
              lambda: fo.formgen(th, t_eee=good3, t_qee=bad4),
              lambda: fo.formgen(th, t_eee=bad3, t_qee=good4),
              lambda: fo.formgen(th),
              lambda: fo.gen_S(th),
              lambda: fo.formgen_just_dipole(bad3, th),
              lambda: fo.formgen_dipole_quadrupole(good3, bad4, th),
              lambda: fo.formgen_dipole_quadrupole(bad3, good4, th)):
        mon.raises(f, 'rejected', detail=bad)
        mon.count('rejected')


def dense(idx, rng, mon):
    """Every entry of the tensors non-zero, with numbers for most of them."""
    a, b = gen.symbols(rng, 2, real=True)
    mk = lambda r: np.array([
        [a, b, a - b][rng.integers(3)]*float(np.round(rng.normal(), 2))
        + float(np.round(rng.normal(), 2)) for _ in range(3**r)],
        dtype=object).reshape((3,)*r)
    mon.sig('dense', idx)
    mon.note_sample('dense tensors of two parameters')
    check_all(rng, mon, mk(3), mk(3) if idx % 2 else None,
              None if idx % 2 else mk(4), 'intensity', 4)


def run(kind, idx, rng, mon, tier):
    if kind in ('table', 'dense'):
        globals()[kind](idx, rng, mon)
    else:
        globals()[kind](rng, mon)
