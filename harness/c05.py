"""C05 - containers are isolated and calls leave their arguments alone."""
import collections
import copy
import os
import pickle
import sys
import warnings
from pathlib import Path

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import sympy as sp
import shgpy
from shgpy import (DataContainer, FormContainer, fDataContainer,
                   fFormContainer)
from shgpy import fformfit, fformgen, formgen as fo, plotter
from shgpy import shg_symbols as S
from shgpy import tensor_definitions as td
import accel
import fgen
import gen

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('every public function called on randomly built arguments of every '
        'accepted kind with all arguments, the tensor tables and the '
        'process-wide settings fingerprinted before and after; containers, '
        'their sources, copies, results and returned arrays mutated in random '
        'interleavings, every other object being compared with its last known '
        'contents after each step; distinct by function, argument kinds and '
        'sequence of mutations')
ASSUMPTIONS = [
    'get_values and get_items are views of the container by design',
    'stochastic fits without a seed draw from the global random generator',
    "sympy itself draws from Python's random module",
    'caches which are never observable are allowed']
MIN_EVENTS = {'calls observed': 2000, 'mutations': 1500,
              'isolation comparisons': 5000, 'container types': 4,
              'copies': 100, 'fits': 15, 'raising calls': 40,
              'repeated calls': 20, 'code generations': 5}
FIRST = ('uncontracted', 'fits')
SOFT_S = {'quick': 300, 'thorough': 3000}


def plan(tier):
    q = tier == 'quick'
    return [('containers', 160 if q else 3000), ('convert', 120 if q else 2000),
            ('load', 30 if q else 400), ('algebra', 60 if q else 900),
            ('formulas', 16 if q else 200), ('uncontracted', 2 if q else 8),
            ('fits', 28 if q else 350), ('plots', 12 if q else 150),
            ('defaults', 30 if q else 300)]


# ------------------------------------------------------------- fingerprints
CONTAINERS = (DataContainer, fDataContainer, FormContainer, fFormContainer)


def num(x):
    """A number, so that NaN and signed zero compare by their bits."""
    return np.asarray(x).tobytes()


def fp_container(c):
    if isinstance(c, DataContainer):
        keys = c.get_keys()
        return ('DataContainer', tuple(keys),
                tuple(fp(c.get_pc(k, u)) for k in keys
                      for u in ('radians', 'degrees')),
                num(float(c.get_scale())), num(float(c.get_offset())),
                num(float(c.get_phase_shift('radians'))),
                num(float(c.get_phase_shift('degrees'))))
    if isinstance(c, fDataContainer):
        keys = c.get_keys()
        return ('fDataContainer', tuple(keys), c.get_M(),
                tuple(fp(c.get_pc(k)) for k in keys),
                num(float(c.get_scale())),
                num(float(c.get_phase_shift('radians'))))
    if isinstance(c, fFormContainer):
        keys = c.get_keys()
        return ('fFormContainer', tuple(keys), c.get_M(),
                tuple(fp(c.get_pc(k)) for k in keys),
                tuple(c.get_free_symbols()))
    keys = c.get_keys()
    return ('FormContainer', tuple(keys),
            tuple(fp(c.get_pc(k)) for k in keys),
            tuple(c.get_free_symbols()))


def fp(x):
    """Everything a caller could see of x, as an immutable value."""
    if isinstance(x, CONTAINERS):
        return fp_container(x)
    if isinstance(x, np.ndarray):
        data = tuple(fp(e) for e in x.ravel().tolist()) \
            if x.dtype == object else x.tobytes()
        return ('array', x.shape, x.dtype.str, x.strides, x.flags.writeable,
                data)
    if isinstance(x, dict):
        return (type(x).__name__, tuple((fp(k), fp(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(e) for e in x))
    if isinstance(x, sp.Basic):
        return (type(x), x)
    if isinstance(x, (float, complex, np.number)):
        return (type(x), num(x))
    if isinstance(x, (int, str, bytes, bool, type(None), Path)):
        return (type(x), x)
    if isinstance(x, os.PathLike):
        return ('path', os.fspath(x))
    return ('object', id(x))


def process_state(rand=True):
    s = dict(
        cwd=os.getcwd(), environ=tuple(sorted(os.environ.items())),
        printoptions=repr(sorted(np.get_printoptions().items(), key=str)),
        errstate=repr(sorted(np.geterr().items())),
        errcall=id(np.geterrcall()),
        filters=repr(warnings.filters), showwarning=id(warnings.showwarning),
        path=tuple(sys.path), recursion=sys.getrecursionlimit(),
        stdout=id(sys.stdout), stderr=id(sys.stderr),
        hook=id(sys.excepthook), argv=tuple(sys.argv),
        rc=repr(sorted(matplotlib.rcParams.copy().items(), key=str)),
        backend=matplotlib.get_backend(), interactive=plt.isinteractive(),
        umask=_umask(), tempdir=__import__('tempfile').gettempdir(),
        fds=len(os.listdir('/proc/self/fd')),
        trace=id(sys.gettrace()), profile=id(sys.getprofile()),
        locale=__import__('locale').setlocale(__import__('locale').LC_ALL),
        decimal=repr(__import__('decimal').getcontext()),
    )
    if rand:
        st = np.random.get_state()
        s['numpy random'] = (st[0], st[1].tobytes(), st[2:])
    return s


def _umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


TABLES = {n: getattr(td, n) for n in ('dipole', 'surface', 'quadrupole')}
TABLES0 = {n: fp(t) for n, t in TABLES.items()}
SYMS0 = {k: v for k, v in vars(S).items() if isinstance(v, sp.Basic)}


def check_tables(mon):
    for n, t in TABLES.items():
        mon.check(getattr(td, n) is t and fp(t) == TABLES0[n],
                  'the tensor tables are left alone', n)
    now = {k: v for k, v in vars(S).items() if isinstance(v, sp.Basic)}
    mon.check(now == SYMS0, 'the exported symbols are left alone')


def diff(a, b):
    return [(k, str(a[k])[:200], str(b[k])[:200]) for k in a if a[k] != b[k]]


class Watch:
    """Calls functions while watching their arguments and the process."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon

    def __call__(self, f, *args, raises=False, rand=True, **kw):
        mon = self.mon
        name = getattr(f, '__qualname__', str(f))
        before = [(i, a, fp(a)) for i, a in
                  list(enumerate(args)) + list(kw.items())]
        owner = getattr(f, '__self__', None)
        st = process_state(rand)
        out, exc = None, None
        try:
            out = f(*args, **kw)
        except Exception as e:
            if not raises:
                raise
            exc = e
        after = process_state(rand)
        for i, a, v in before:
            if a is owner:
                continue
            mon.check(fp(a) == v, 'arguments are left alone',
                      lambda: f'{name}: argument {i} was {str(v)[:300]} and '
                              f'became {str(fp(a))[:300]}')
        # tempfile and matplotlib open nothing that stays open
        if after['fds'] <= st['fds'] + 1:
            after['fds'] = st['fds']
        mon.check(after == st, 'process-wide settings are left alone',
                  lambda: f'{name}: {diff(st, after)}')
        mon.count('calls observed')
        if raises:
            mon.check(exc is not None, 'the call is rejected', name)
            mon.count('raising calls')
        mon.sig('call', name, tuple(type(a).__name__ for a in args),
                tuple(sorted(kw)), raises)
        return out

    def get(self, f, *args, **kw):
        return self(f, *args, **kw)


# --------------------------------------------------------------- generators
def dict_kind(rng, d):
    """The same items as another kind of mapping or list of pairs."""
    k = int(rng.integers(4))
    if k == 0:
        return dict(d)
    if k == 1:
        return collections.OrderedDict(d)
    if k == 2:
        r = collections.defaultdict(lambda: 1/0)
        r.update(d)
        return r
    return [(a, b) for a, b in d.items()]


def mapping_kind(rng, d):
    r = dict_kind(rng, d)
    return r if isinstance(r, dict) else dict(r)


def samples(rng, degrees=False, n=None):
    n = int(rng.integers(9, 16)) if n is None else n
    t = np.sort(rng.uniform(0, 2*np.pi, n))
    t = t + np.arange(n)*1e-3
    if degrees:
        t = np.degrees(t)
    a = np.array([t, rng.normal(size=n)])
    k = int(rng.integers(6))
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.full((4, 2*n), 1e3)
        b[::2, ::2] = a
        a = b[::2, ::2]
    elif k == 3:
        a.flags.writeable = False
    elif k == 4:
        a = a[:, rng.permutation(n)]
    elif k == 5:
        a = np.array([np.arange(n)*(20 if degrees else .3), a[1]])
        if degrees:
            a = np.round(a).astype(int)
    return a


def make_dat(rng, w=None, keys=None):
    unit = ['radians', 'degrees'][rng.integers(2)]
    keys = gen.subset_pcs(rng) if keys is None else keys
    src = {k: samples(rng, unit == 'degrees') for k in keys}
    arg = dict_kind(rng, src)
    kw = {}
    if set(keys) in ({'PP', 'PS'}, {'SS', 'SP'}) and rng.random() < .5:
        kw['normal_to_oblique'] = True
    unit = unit.upper() if rng.random() < .2 else unit
    c = w(DataContainer, arg, unit, **kw) if w else DataContainer(
        arg, unit, **kw)
    return c, arg, src


def make_fdat(rng, w=None, M=None, keys=None):
    M = int(rng.integers(1, 5)) if M is None else M
    keys = gen.subset_pcs(rng) if keys is None else keys
    src = {}
    for k in keys:
        a = rng.normal(size=2*M+1) + 1j*rng.normal(size=2*M+1)
        t = int(rng.integers(4))
        if t == 1:
            a = a.astype(np.complex64)
        elif t == 2:
            b = np.zeros(4*M+2, dtype=complex)
            b[::2] = a
            a = b[::2]
        elif t == 3:
            a.flags.writeable = False
        src[k] = a
    arg = dict_kind(rng, src)
    c = w(fDataContainer, arg, M=M) if w else fDataContainer(arg, M=M)
    return c, arg, src


def make_fform(rng, w=None, M=None, syms=None):
    M = int(rng.integers(1, 4)) if M is None else M
    syms = syms or gen.symbols(rng, int(rng.integers(1, 4)), real=True)
    src = {}
    for k in gen.subset_pcs(rng):
        a = np.array([gen.coeff(rng, syms, True, 1)
                      if rng.random() < .7 else [0, 1.5, sp.Integer(2)][
                          rng.integers(3)]
                      for _ in range(2*M+1)] + [None], dtype=object)[:-1]
        if rng.random() < .3:
            a.flags.writeable = False
        src[k] = a
    arg = dict_kind(rng, src)
    c = w(fFormContainer, arg, M=M) if w else fFormContainer(arg, M=M)
    return c, arg, src


def make_form(rng, w=None, syms=None, deg=3):
    syms = syms or gen.symbols(rng, int(rng.integers(1, 4)), real=True)
    src = {k: gen.trig_poly(rng, syms, deg, 3) if rng.random() < .9 else 2
           for k in gen.subset_pcs(rng)}
    arg = dict_kind(rng, src)
    c = w(FormContainer, arg) if w else FormContainer(arg)
    return c, arg, src


MAKE = dict(dat=make_dat, fdat=make_fdat, fform=make_fform, form=make_form)


# ---------------------------------------------------------------- isolation
def write(arr, rng):
    """Overwrite one entry of an array; False if that is impossible."""
    if not isinstance(arr, np.ndarray) or not arr.size or \
            not arr.flags.writeable:
        return False
    i = tuple(int(rng.integers(n)) for n in arr.shape)
    old = arr[i]
    arr[i] = sp.Symbol('intruder') if arr.dtype == object else \
        (int(old) + 17 if arr.dtype.kind in 'iu' else 1e3 + rng.random())
    return True


def mutate(x, rng, mon):
    """Change x through its public interface.  Returns a name or None."""
    if isinstance(x, DataContainer):
        k = int(rng.integers(7))
        if k == 0:
            x.scale_data(2.5)
        elif k == 1:
            x.phase_shift_data(37.5, 'degrees')
        elif k == 2:
            x.subtract_min()
        elif k == 3:
            x.filter(lambda y: y[::-1]*1.5)
        elif k == 4:
            if x.get_maxval()[1] > 0:
                x.normalize_data(3.)
        elif k == 5:
            for _, v in x.get_items('radians'):
                write(v, rng)
        else:
            for v in x.get_values('radians'):
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v *= 1.25
        return f'dat{k}'
    if isinstance(x, fDataContainer):
        k = int(rng.integers(5))
        if k == 0:
            x.scale_fdata(2.5)
        elif k == 1:
            x.phase_shift_fdata(.3, 'radians')
        elif k == 2:
            x.normalize_fdata(2.)
        elif k == 3:
            for _, v in x.get_items():
                write(v, rng)
        else:
            for v in x.get_values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v *= 1.25
        return f'fdat{k}'
    if isinstance(x, fFormContainer):
        k = int(rng.integers(4))
        if k == 0:
            x.apply_arbitrary_scale(sp.Symbol('scale'))
        elif k == 1:
            x.apply_phase_shift(sp.Rational(1, 3))
        elif k == 2 and x.get_free_symbols():
            x.subs([(x.get_free_symbols()[0], sp.Integer(3))])
        else:
            for _, v in x.get_items():
                write(v, rng)
        return f'fform{k}'
    if isinstance(x, FormContainer):
        k = int(rng.integers(4))
        if k == 0:
            x.apply_arbitrary_scale(sp.Symbol('scale'))
        elif k == 1:
            x.apply_phase_shift(sp.Rational(1, 3), S.phi)
        elif k == 2 and x.get_free_symbols():
            x.subs([(x.get_free_symbols()[0], sp.Integer(3))])
        else:
            x.expand()
            x.apply_arbitrary_scale(2)
        return f'form{k}'
    if isinstance(x, np.ndarray):
        return 'array' if write(x, rng) else None
    if isinstance(x, dict):
        if x and rng.random() < .5:
            x.pop(list(x)[rng.integers(len(x))])
        else:
            x['new'] = 5
        return 'dict'
    if isinstance(x, list):
        if x and rng.random() < .5:
            x.pop()
        else:
            x.append(('new', 5))
        return 'list'
    return None


class Herd:
    """Objects which must be independent of each other."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.objs, self.log = [], []

    def add(self, name, x, of=None):
        """of: container of which x is the (shared) source container type."""
        self.objs.append([name, x, fp(x), of])
        return x

    def alive(self, what):
        for name, x, v, _ in self.objs:
            now = fp(x)
            self.mon.check(now == v, 'objects are independent',
                           lambda: f'{name} changed by {what} after '
                                   f'{self.log[-8:]}: {str(v)[:300]} became '
                                   f'{str(now)[:300]}')
            self.mon.count('isolation comparisons')

    def step(self):
        e = self.objs[self.rng.integers(len(self.objs))]
        what = mutate(e[1], self.rng, self.mon)
        if what is None:
            return
        self.mon.count('mutations')
        self.log.append((e[0], what))
        e[2] = fp(e[1])
        # an iterable of arrays shows the contents of the arrays in it
        for o in self.objs:
            if o is not e and o[3] is not None and (
                    o[3] == e[3]):
                o[2] = fp(o[1])
        self.alive((e[0], what))

    def run(self, n):
        self.alive('construction')
        for _ in range(n):
            self.step()
        self.mon.sig(tuple(self.log[:12]))
        self.mon.note_sample(self.log)


def add_sources(h, name, arg, src):
    """The iterable and the arrays in it may share among themselves."""
    g = object()
    h.add(name + '.iterable', arg, g)
    for k, v in src.items():
        if isinstance(v, np.ndarray):
            h.add(f'{name}.source[{k}]', v, g)
    # (the dict src itself is not handed to the code)


def containers(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    kind = list(MAKE)[idx % 4]
    c, arg, src = MAKE[kind](rng, w)
    if idx < 4:
        mon.count('container types')
    # bring it into a state with a history before it is copied
    for _ in range(int(rng.integers(0, 4))):
        mutate(c, rng, mon)
    h.add('original', c)
    add_sources(h, 'original', arg, src)
    owners = [('original', c)]
    for i in range(3):
        name, o = owners[rng.integers(len(owners))]
        # (sympy 1.8 cannot unpickle symbols without altering others)
        how = int(rng.integers(5 if kind in ('dat', 'fdat') else 3))
        if how <= 2:
            d = w(o.copy)
        elif how == 3:
            d = copy.deepcopy(o)
        else:
            d = pickle.loads(pickle.dumps(o))
        mon.check(type(d) is type(o), 'a copy has the type of its original')
        mon.check(fp(d) == fp(o), 'a copy equals its original',
                  lambda: f'copy {how} of {str(fp(o))[:400]} is '
                          f'{str(fp(d))[:400]}')
        mon.check(d is not o, 'a copy is another object')
        mon.count('copies')
        h.add(f'copy{i} of {name}', d)
        owners.append((f'copy{i}', d))
        for _ in range(int(rng.integers(0, 3))):
            h.step()
    for name, o in owners:
        for k in o.get_keys():
            a = w(o.get_pc, k, 'radians') if kind == 'dat' else \
                w(o.get_pc, k)
            h.add(f'{name}.get_pc({k})', a)
            if kind == 'dat':
                h.add(f'{name}.get_pc({k}, deg)', w(o.get_pc, k, 'degrees'))
        h.add(f'{name}.get_keys()', w(o.get_keys))
        if kind in ('form', 'fform'):
            h.add(f'{name}.get_free_symbols()', w(o.get_free_symbols))
        # views which leave the container alone
        for i in ('multi', 'none'):
            before = fp(o)
            df = w(o.as_pandas, 'degrees', i) if kind == 'dat' else \
                w(o.as_pandas, i)
            df.iloc[:, :] = None
            df.drop(df.index, inplace=True)
            mon.check(fp(o) == before, 'a table is independent', i)
        before = fp(o)
        w(o.__repr__)
        mon.check(fp(o) == before, 'printing changes nothing')
        # accessors report and change nothing
        for m in ('get_maxval', 'get_minval', 'get_offset', 'get_scale',
                  'get_M', 'get_free_symbols', 'get_keys'):
            if hasattr(o, m):
                w(getattr(o, m))
        for m in ('get_items', 'get_values'):
            w(getattr(o, m), *(['degrees'] if kind == 'dat' else []))
        for m in ('get_pc_maxval', 'get_pc_minval'):
            if hasattr(o, m):
                w(getattr(o, m), o.get_keys()[0])
        if kind in ('dat', 'fdat'):
            w(o.get_phase_shift, 'degrees')
        mon.check(fp(o) == before, 'reading changes nothing')
    h.run(12)
    # the mutators and the arguments they take
    o = c
    if kind == 'dat':
        extra = [rng.normal(size=3), {'a': [1, 2]}]
        w(o.filter, lambda y, a, b=None: np.asarray(y)*2, extra[0],
          b=extra[1])
        w(o.scale_data, np.array(2.))
        w(o.phase_shift_data, np.array(.2), 'radians')
        if o.get_maxval()[1] > 0:
            w(o.normalize_data, np.array(2.))
        w(o.subtract_min)
        if rng.random() < .5:
            w(o.scale_data, -1., raises=True)
            w(o.phase_shift_data, 1., 'furlongs', raises=True)
            w(o.get_pc, 'XX', 'radians', raises=True)
    elif kind == 'fdat':
        w(o.scale_fdata, np.array(2.))
        w(o.phase_shift_fdata, np.array(.2), 'Degrees')
        w(o.normalize_fdata, np.array(2.))
        if rng.random() < .5:
            w(o.scale_fdata, -1., raises=True)
            w(o.get_pc, 'XX', raises=True)
    else:
        fs = o.get_free_symbols()
        s = {a: sp.Float(rng.normal()) for a in fs[:2]}
        w(o.subs, s if rng.random() < .5 else list(s.items()))
        w(o.apply_arbitrary_scale, sp.Symbol('q'))
        if kind == 'form':
            w(o.apply_phase_shift, sp.Symbol('d', real=True), S.phi)
            w(o.expand)
            if rng.random() < .1:
                w(o.simplify)
        else:
            w(o.apply_phase_shift, sp.Symbol('d', real=True))
    h.objs = [e for e in h.objs if e[1] is not o]
    h.alive('mutators of the original')
    check_tables(mon)


# ------------------------------------------------------------- conversions
def convert(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    k = idx % 12
    syms = gen.symbols(rng, int(rng.integers(1, 3)), real=True)
    vals = {s: [float(rng.normal()), sp.Float(.5), 2][rng.integers(3)]
            for s in syms}
    vals = mapping_kind(rng, vals)
    if k == 0:
        a = h.add('form', make_form(rng, w, syms)[0])
        r = w(shgpy.form_to_fform, a, M=4)
    elif k == 1:
        a = h.add('form', make_form(rng, w, syms)[0])
        r = w(shgpy.form_to_dat, a, vals, 11)
        h.add('values', vals)
    elif k == 2:
        a = h.add('form', make_form(rng, w, syms)[0])
        r = w(shgpy.form_to_fdat, a, vals, M=4)
        h.add('values', vals)
    elif k == 3:
        a = h.add('fform', make_fform(rng, w, syms=syms)[0])
        r = w(shgpy.fform_to_fdat, a, vals)
        h.add('values', vals)
    elif k == 4:
        a = h.add('fform', make_fform(rng, w, syms=syms)[0])
        r = w(shgpy.fform_to_form, a)
    elif k == 5:
        a = h.add('fform', make_fform(rng, w, syms=syms)[0])
        r = w(shgpy.fform_to_dat, a, vals, 11)
    elif k == 6:
        a = h.add('fdat', make_fdat(rng, w)[0])
        r = w(shgpy.fdat_to_dat, a, 13)
    elif k == 7:
        a = h.add('dat', make_dat(rng, w)[0])
        r = w(shgpy.dat_to_fdat, a, ['cubic', 'linear'][rng.integers(2)], M=3)
    elif k in (8, 9):
        kind = list(MAKE)[rng.integers(4)]
        kw = dict(M=2) if kind in ('fdat', 'fform') else {}
        cs = [MAKE[kind](rng, w, **kw)[0] for _ in range(
            int(rng.integers(1, 4)))]
        if rng.random() < .3:
            cs.append(cs[0])
        lst = cs if rng.random() < .6 else tuple(cs)
        for i, c in enumerate(cs):
            if all(c is not o[1] for o in h.objs):
                h.add(f'part{i}', c)
        r = w(shgpy.merge_containers, lst, lambda key, i: f'{key}{i}')
        first = cs[0]
        # changing the list of containers does not matter
        if isinstance(lst, list):
            lst.pop()
        other = MAKE['dat' if kind != 'dat' else 'form'](rng)[0]
        w(shgpy.merge_containers, [first, other],
          lambda key, i: f'{key}{i}', raises=True)
    elif k == 10:
        a, arg, src = make_dat(rng, w)
        b = w(a.copy)
        b.scale_data(1.5)
        h.add('dat1', a)
        h.add('dat2', b)
        f = [shgpy.dat_add, shgpy.dat_subtract][rng.integers(2)]
        r = w(f, a, b)
        c = make_dat(rng, w, keys=a.get_keys()[:1])[0]
        w(f, a, c, raises=True)
    else:
        fn = Path(mon.dir)/'f.pkl'
        a = h.add('fform', make_fform(rng, w, syms=syms)[0])
        w(shgpy.save_fform, a, str(fn))
        r = w(shgpy.load_fform, str(fn))
        r2 = h.add('loaded twice', w(shgpy.load_fform, str(fn)))
        mon.check(fp(r) == fp(a) == fp(r2), 'loading returns what was saved')
    h.add('result', r)
    for key in r.get_keys():
        h.add('result.get_pc', r.get_pc(key, 'radians') if isinstance(
            r, DataContainer) else r.get_pc(key))
    h.run(10)
    check_tables(mon)


def load(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    keys = gen.subset_pcs(rng)
    t = np.linspace(0, 2*np.pi, 12, endpoint=False)
    files, darks = {}, {}
    for k in keys:
        for d, n in ((files, 'data'), (darks, 'dark')):
            p = os.path.join(mon.dir, f'{n}_{k}.csv')
            np.savetxt(p, np.array([t, rng.normal(size=12)]).T,
                       delimiter=',')
            d[k] = p if rng.random() < .6 else Path(p)
    files, darks = mapping_kind(rng, files), mapping_kind(rng, darks)
    disk = {p: Path(p).read_bytes() for p in
            list(files.values()) + list(darks.values())}
    os.chdir(mon.dir)
    h.add('csv', w(shgpy.read_csv, files[keys[0]]))
    h.add('load', w(shgpy.load_data, files, 'radians'))
    h.add('dark', w(shgpy.load_data_and_dark_subtract, files, 'radians',
                    darks, 'radians'))
    kw = {}
    if rng.random() < .5:
        kw.update(dark_filenames_dict=darks, dark_angle_units='radians')
    if rng.random() < .5:
        kw['min_subtract'] = True
    if rng.random() < .5:
        kw['scale'] = 2.5
    kw['M'] = 4
    dat, fdat = w(shgpy.load_data_and_fourier_transform, files, 'radians',
                  **kw)
    h.add('pipeline dat', dat)
    h.add('pipeline fdat', fdat)
    bad = dict(darks)
    bad['XX'] = '/nonexistent'
    w(shgpy.load_data_and_dark_subtract, files, 'radians', bad, 'radians',
      raises=True)
    w(shgpy.load_data, {'PP': 'nonexistent.csv'}, 'radians', raises=True)
    h.add('files', files)
    h.add('darks', darks)
    h.run(8)
    mon.check({p: Path(p).read_bytes() for p in disk} == disk,
              'the files are left alone')
    mon.check(set(os.listdir(mon.dir)) == {os.path.basename(p) for p in disk},
              'no files appear', lambda: os.listdir(mon.dir))


# ------------------------------------------------------------ tensor algebra
def numeric(rng, shape):
    a = rng.normal(size=shape)
    k = int(rng.integers(4))
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        a.flags.writeable = False
    elif k == 3:
        a = np.round(a*4).astype(int)
        a.ravel()[0] = 1
    return a


def symbolic(rng, rank, syms, real=True):
    t = np.full((3,)*rank, sp.Integer(0), dtype=object)
    for _ in range(int(rng.integers(2, 8))):
        t[tuple(rng.integers(3, size=rank))] = \
            syms[rng.integers(len(syms))]*sp.Integer(int(rng.integers(1, 4)))
    if rng.random() < .3:
        t.flags.writeable = False
    return t


def results(h, name, r, *args):
    """A result may be an argument itself only if it is (a view of) it."""
    if isinstance(r, np.ndarray):
        for a in args:
            if isinstance(a, np.ndarray) and a is not r:
                h.mon.check(not np.shares_memory(a, r)
                            if a.dtype != object else
                            not np.may_share_memory(a, r),
                            'a result shares no memory with an argument',
                            name)
                h.mon.count('isolation comparisons')
    return r


def algebra(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    syms = gen.symbols(rng, 3, real=False)
    reals = gen.symbols(rng, 3, real=True)
    v1, v2 = numeric(rng, 3), numeric(rng, 3)
    vec = v1 if rng.random() < .5 else [float(x) for x in v1]
    if np.linalg.norm(vec) == 0 or np.linalg.norm(v2) == 0:
        vec, v1, v2 = [1., 2., 2.], np.array([1., 0, 0]), np.array([0, 1., 0])
    results(h, 'rotation_matrix3', w(shgpy.rotation_matrix3, vec,
                                     float(rng.normal())), vec)
    R = results(h, 'rotation', w(shgpy.rotation_matrix_from_two_vectors,
                                 v1, v2), v1, v2)
    par = v1.copy()*(-1 if rng.random() < .5 else 2)
    results(h, 'rotation', w(shgpy.rotation_matrix_from_two_vectors, v1, par),
            v1, par)
    ax = [sp.Integer(1), sp.Symbol('m', real=True), 0]
    ax = ax if rng.random() < .5 else np.array(ax, dtype=object)
    w(shgpy.rotation_matrix3symb, ax, sp.Symbol('t', real=True))
    rank = int(rng.integers(2, 5))
    t = symbolic(rng, rank, reals)
    n = numeric(rng, (3,)*int(rng.integers(1, 4)))
    p = results(h, 'tensor_product', w(shgpy.tensor_product, t, n), t, n)
    pairs = [[0, 1]] if rank < 4 else [[0, 3], [1, 2]]
    pairs = pairs if rng.random() < .7 else [tuple(q) for q in pairs]
    w(shgpy.tensor_contract, t, pairs)
    w(shgpy.tensor_contract, numeric(rng, (3, 3, 3, 3)), [[1, 3], [0, 2]])
    w(shgpy.tensor_contract, p, [])
    op = R if rng.random() < .5 else np.array(
        [[0, 1, 0], [1, 0, 0], [0, 0, -1]], dtype=object)
    results(h, 'transform', w(shgpy.transform, t, op), t, op)
    w(shgpy.union, [1, 2], (2, 3))
    t3 = symbolic(rng, 3, syms)
    name = sorted(td.dipole)[rng.integers(len(td.dipole))]
    tab = td.dipole[name]
    excl = [sp.Symbol('other')]
    sym = w(shgpy.particularize, t3, exclude=excl) if rng.random() < .5 else \
        w(shgpy.particularize, t3)
    w(shgpy.particularize, tab)
    if rng.random() < .4:
        w(shgpy.particularize, tab, exclude=[], permute_all_indices=True)
    pre, suf = ('re_', 'im_'), ('', '1')
    results(h, 'complex', w(shgpy.make_tensor_complex, t3, prefix=pre,
                            suffix=suf), t3)
    results(h, 'complex', w(shgpy.make_tensor_complex, tab), tab)
    results(h, 'real', w(shgpy.make_tensor_real, t3), t3)
    results(h, 'real', w(shgpy.make_tensor_real, tab), tab)
    w(shgpy.map_to_real, syms[0])
    w(shgpy.n2i, -2, 3)
    w(fo.gen_levi_civita)
    a, b = fo.gen_levi_civita(), fo.gen_levi_civita()
    a[0, 1, 2] = 7
    mon.check(b[0, 1, 2] == 1 and fo.gen_levi_civita()[0, 1, 2] == 1,
              'results of two calls are independent')
    check_tables(mon)


def formulas(idx, rng, mon):
    """The formula generators."""
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    reals = gen.symbols(rng, 3, real=True)
    names = sorted(td.dipole)
    few = lambda rank, n: symbolic(rng, rank, reals[:2])
    theta = [0.2, sp.Symbol('theta', real=True), 0, sp.pi/7][rng.integers(4)]
    e, m, q = few(3, 2), few(3, 2), few(4, 2)
    if rng.random() < .4:
        e = shgpy.make_tensor_real(td.dipole['C_3v'])
    for a in (e, m, q):
        h.add('tensor', a)
    kw = [dict(t_eee=e), dict(t_mee=m), dict(t_qee=q),
          dict(t_eee=e, t_qee=q), dict(t_eee=e, t_mee=m)][idx % 5]
    f = h.add('form', w(fo.formgen, theta, **kw))
    Sp, Ss = w(fo.gen_S, theta, **kw)
    h.add('Sp', Sp)
    h.add('Ss', Ss)
    if rng.random() < .6:
        P = w(fo.gen_P_just_dipole, e, theta)
        h.add('old form', w(fo.formgen_just_dipole, e, theta))
        w(fo.make_form_from_P_and_Q, *P)
    if rng.random() < .3:
        th = sp.sympify(.2)
        w(fo.formgen_dipole_quadrupole, e, q, th)
        P = w(fo.gen_P_dipole_quadrupole, e, q, th)
        h.add('P', P[0])
        w(fo.make_form_from_P_and_Q, *P)
    w(fo.formgen, theta, raises=True)
    w(fo.formgen, theta, t_eee=np.array(td.dipole['T_d']), raises=True)
    h.run(8)
    check_tables(mon)


def uncontracted(idx, rng, mon):
    """Generation with the smallest M (its physics is a matter of C13)."""
    w = Watch(rng, mon)
    accel.install()
    try:
        os.chdir(mon.dir)
        pre = os.path.join(mon.dir, 'u')
        with np.errstate(all='ignore'):
            np.set_printoptions(precision=11 + idx, linewidth=60)
            if idx % 2 == 0:
                w(fformgen.generate_uncontracted_fourier_transforms,
                  float(rng.uniform(.05, 1.2)), pre, M=1)
            else:
                w(fformgen.generate_uncontracted_fourier_transforms_symb,
                  pre, M=1)
            files = {p.name: p.read_bytes() for p in Path(mon.dir).iterdir()}
            reals = gen.symbols(rng, 2, real=True)
            e, q = symbolic(rng, 3, reals), symbolic(rng, 4, reals)
            for kw in (dict(), dict(ndigits=3)):
                w(fformgen.generate_contracted_fourier_transforms,
                  os.path.join(mon.dir, 'out.p'), pre, e, q, M=1, **kw)
            w(fformgen.generate_contracted_fourier_transforms,
              os.path.join(mon.dir, 'out.p'), pre, e, q, M=2, raises=True)
            w(fformgen.generate_contracted_fourier_transforms,
              os.path.join(mon.dir, 'out.p'), pre,
              np.array(td.dipole['T_d']), q, M=1, raises=True)
        now = {p.name: p.read_bytes() for p in Path(mon.dir).iterdir()}
        mon.check(all(now.get(k) == v for k, v in files.items()),
                  'stored transforms are left alone')
        mon.check(set(now) == set(files) | {'out.p'}, 'no other files appear',
                  lambda: sorted(now))
        h = Herd(rng, mon)
        a = h.add('loaded', w(shgpy.load_fform,
                              os.path.join(mon.dir, 'out.p')))
        h.add('loaded again', w(shgpy.load_fform,
                                os.path.join(mon.dir, 'out.p')))
        h.run(5)
    finally:
        accel.uninstall()
        np.set_printoptions(precision=8, linewidth=75)
    check_tables(mon)


# --------------------------------------------------------------------- fits
def fit_problem(rng):
    n = int(rng.integers(1, 4))
    syms = [sp.Symbol(s, real=True) for s in ['b', 'a', 'c'][:n]]
    d = {}
    for k in gen.subset_pcs(rng)[:2]:
        d[k] = np.array([syms[0] + sp.I*syms[-1], sum(syms)**2,
                         syms[-1]*2 - sp.I*syms[0]], dtype=object)
    ff = fFormContainer(d, M=1)
    fd = fgen.random_fdat(rng, ff)
    return syms, ff, fd


def fits(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    syms, ff, fd = fit_problem(rng)
    guess = {s: [float(rng.normal()), 1][rng.integers(2)] for s in syms}
    guess[sp.Symbol('unused')] = 3.
    bounds = {s: [(-5., 5.), [-5, 5]][rng.integers(2)] for s in syms}
    bounds[sp.Symbol('unused')] = (0, 1)
    for g in guess:
        if g in bounds and g != sp.Symbol('unused'):
            guess[g] = float(np.clip(guess[g], -4, 4))
    guess, bounds = mapping_kind(rng, guess), mapping_kind(rng, bounds)
    h.add('fform', ff)
    h.add('fdat', fd)
    os.chdir(mon.dir)
    which = idx % 9
    rand = True
    x0 = np.array([guess[s] for s in ff.get_free_symbols()], dtype=float)
    opts = {}
    seeded = rng.random() < .7
    if which in (0, 1):
        opts = dict(max_nfev=20, ftol=1e-6)
        if rng.random() < .5:
            opts['x_scale'] = np.ones(len(syms))
        if rng.random() < .3:
            opts['args'] = ()
    elif which in (2, 3, 4, 5):
        opts = dict(interval=10)
        if seeded:
            opts['seed'] = 5
        if rng.random() < .7:
            opts['minimizer_kwargs'] = dict(options=dict(maxiter=5), tol=1e-3)
        if rng.random() < .3:
            opts['callback'] = lambda x, f, a: None
        rand = 'seed' in opts
    elif which == 6:
        opts = dict(method='L-BFGS-B', options=dict(maxiter=5))
        rand = seeded
    save = {}
    if rng.random() < .3:
        save = dict(save_cost_func_filename=os.path.join(mon.dir, 'c.so'))
    if rng.random() < .3 and which not in (4, 5):
        save['chunk_cost_func'] = True
    if which == 0:
        r = w(fformfit.least_squares_fit, ff, fd, guess,
              least_sq_kwargs=opts, **save)
    elif which == 1:
        r = w(fformfit.least_squares_fit_with_bounds, ff, fd, guess, bounds,
              least_sq_kwargs=opts, **save)
    elif which == 2:
        r = w(fformfit.basinhopping_fit, ff, fd, guess, 2, rand=rand,
              basinhopping_kwargs=opts, **save)
    elif which == 3:
        r = w(fformfit.basinhopping_fit_with_bounds, ff, fd, guess, bounds, 2,
              rand=rand, basinhopping_kwargs=opts, **save)
    elif which == 4:
        r = w(fformfit.basinhopping_fit_jac, ff, fd, guess, 2, rand=rand,
              basinhopping_kwargs=opts, **save)
    elif which == 5:
        r = w(fformfit.basinhopping_fit_jac_with_bounds, ff, fd, guess,
              bounds, 2, rand=rand, basinhopping_kwargs=opts, **save)
    elif which == 6:
        r = w(fformfit.dual_annealing_fit_with_bounds, ff, fd, guess, bounds,
              maxiter=10, local_search_options=opts,
              no_local_search=bool(rng.integers(2)), rand=rand,
              seed=7 if rand else None, **save)
    elif which == 7:
        order = list(ff.get_free_symbols())
        rng.shuffle(order)
        fn = os.path.join(mon.dir, 'c.so')
        f = w(fformfit.gen_cost_func, ff, fd, argument_list=order,
              chunk=bool(rng.integers(2)), save_filename=fn)
        g = w(fformfit.load_func, fn)
        env = {s: float(rng.normal()) for s in order}
        x = np.array([env[s] for s in order])
        want = fgen.cost(ff, fd, env)
        # what is done to the containers later does not reach the function
        for c in (ff, fd, order):
            mutate(c, rng, mon)
            mon.count('mutations')
        for func in (f, g):
            got = w(func, x)
            mon.check(abs(got-want[0]) <= 1e-9*want[1],
                      'a cost function is independent of its containers',
                      lambda: (got, want))
        mon.count('code generations')
        h.objs = []
        check_tables(mon)
        return
    else:
        folder = os.path.join(mon.dir, 'model')
        f = w(fformfit.gen_model_func, ff, folder)
        g = w(fformfit.load_model_func, ff, folder)
        env = {s: float(rng.normal()) for s in ff.get_free_symbols()}
        x = np.array([env[s] for s in ff.get_free_symbols()])
        want = fgen.fform_values(ff, env)
        mutate(ff, rng, mon)
        mon.count('mutations')
        for func in (f, g):
            for k in want:
                for m in (-1, 0, 1):
                    got = w(func, x, k, m)
                    mon.check(abs(got-want[k][m+1]) <= 1e-9*(
                        1 + abs(want[k][m+1])),
                        'a model function is independent of its container',
                        lambda: (got, want))
        mon.count('code generations')
        check_tables(mon)
        return
    mon.count('fits')
    mon.check(np.array_equal(x0, [guess[s] for s in ff.get_free_symbols()]),
              'the guess is left alone')
    h.alive('the fit')
    # the result is the caller's
    h.add('guess', guess)
    h.add('bounds', bounds)
    h.add('options', opts)
    h.add('xdict', r.xdict)
    h.add('x', r.x)
    h.run(6)
    check_tables(mon)


# -------------------------------------------------------------------- plots
def plots(idx, rng, mon):
    w = Watch(rng, mon)
    h = Herd(rng, mon)
    pcs = gen.subset_pcs(rng)
    dats = [make_dat(rng, keys=gen.PCS)[0]
            for _ in range(int(rng.integers(1, 4)))]
    styles = [dict(color='r', linestyle='-', label=f'd{i}')
              for i in range(len(dats))]
    for i, d in enumerate(dats):
        h.add(f'dat{i}', d)
    os.chdir(mon.dir)
    f = [plotter.easy_plot, plotter.easy_polar_plot][idx % 2]
    kw = {}
    if rng.random() < .5:
        kw['filename'] = os.path.join(mon.dir, 'p.png')
    if rng.random() < .5:
        kw['show_legend'] = True
    w(f, dats, styles, pcs, show_plot=False, **kw)
    if idx % 2 == 0:
        w(plotter.easy_plot, dats, styles, ['PP']*5, show_plot=False,
          raises=True)
    # what is done to the figure does not reach the data
    for ax in plt.gcf().axes:
        for line in ax.lines:
            for a in (line.get_xdata(orig=True), line.get_ydata(orig=True)):
                write(a, rng)
                mon.count('mutations')
    h.alive('changes of the figure')
    plt.close('all')


# --------------------------------------------------- repeated calls agree
def defaults(idx, rng, mon):
    """Nothing given to one call is remembered by the next."""
    syms, ff, fd = fit_problem(rng)
    guess = {s: .5 for s in syms}
    bounds = {s: (-5., 5.) for s in syms}
    k = idx % 10
    same = lambda r: (r.x.tobytes(), num(float(r.fun if np.ndim(r.fun) == 0
                                               else r.cost)), r.nfev)
    if k in (0, 1, 2, 3):
        fit, opt = [
            (fformfit.least_squares_fit, dict(least_sq_kwargs=dict(
                max_nfev=1, ftol=1e-1))),
            (fformfit.basinhopping_fit, dict(basinhopping_kwargs=dict(
                seed=1, minimizer_kwargs=dict(tol=1., options=dict(
                    maxiter=1))))),
            (fformfit.basinhopping_fit_jac, dict(basinhopping_kwargs=dict(
                seed=1, minimizer_kwargs=dict(tol=1., options=dict(
                    maxiter=1))))),
            (fformfit.dual_annealing_fit_with_bounds, dict(
                local_search_options=dict(method='Nelder-Mead',
                                          options=dict(maxiter=3)),
                no_local_search=False, maxiter=5, seed=3))][k]
        args = [ff, fd, guess]
        kw = {}
        if k in (1, 2):
            args.append(1)
        if k == 3:
            args.append(bounds)
            kw = dict(maxiter=5, seed=2, no_local_search=False)

        def plain():
            np.random.seed(11)
            return same(fit(*args, **kw))
        a = plain()
        fit(*args, **opt)
        b = plain()
        mon.check(a == b, 'a call is not affected by an earlier one',
                  lambda: (fit.__name__, a, b))
    elif k == 4:
        t = symbolic(rng, 3, gen.symbols(rng, 3, real=False))
        a = fp(shgpy.make_tensor_complex(t))
        shgpy.make_tensor_complex(t, prefix=('u', 'v'), suffix=('1', '2'))
        mon.check(a == fp(shgpy.make_tensor_complex(t)),
                  'a call is not affected by an earlier one')
    elif k == 5:
        t = symbolic(rng, 3, gen.symbols(rng, 3, real=False))
        a = fp(shgpy.particularize(t))
        shgpy.particularize(t, exclude=[sp.Symbol('other')])
        shgpy.particularize(symbolic(rng, 3, gen.symbols(rng, 3, real=False)))
        mon.check(a == fp(shgpy.particularize(t)),
                  'a call is not affected by an earlier one')
    elif k == 6:
        dat = make_dat(rng)[0]
        a = fp(shgpy.dat_to_fdat(dat, M=3))
        shgpy.dat_to_fdat(dat, 'linear', M=2)
        mon.check(a == fp(shgpy.dat_to_fdat(dat, M=3)),
                  'a call is not affected by an earlier one')
    elif k == 7:
        form = make_form(rng, syms=syms)[0]
        r = shgpy.form_to_fform(form, M=4)
        a = fp(r)
        # results of equal calls are separate objects
        mutate(r, rng, mon)
        mutate(r, rng, mon)
        mon.check(a == fp(shgpy.form_to_fform(form, M=4)),
                  'a call is not affected by an earlier one')
    elif k == 8:
        R = shgpy.rotation_matrix3([0, 0, 1], .3)
        a = fp(np.array(R))
        R[0, 0] = 9
        e = shgpy.rotation_matrix_from_two_vectors(
            np.array([1., 0, 0]), np.array([1., 0, 0]))
        e[0, 0] = 5
        mon.check(a == fp(shgpy.rotation_matrix3([0, 0, 1], .3)),
                  'a call is not affected by an earlier one')
        mon.check(shgpy.rotation_matrix_from_two_vectors(
            np.array([1., 0, 0]), np.array([1., 0, 0]))[0, 0] == 1,
            'a call is not affected by an earlier one')
        t = symbolic(rng, 3, syms)
        for f in (shgpy.make_tensor_real, shgpy.make_tensor_complex,
                  lambda t: shgpy.transform(t, np.identity(3))):
            r = f(t)
            a = fp(r)
            write(r, rng)
            mon.check(a == fp(f(t)),
                      'a call is not affected by an earlier one')
    else:
        order = ff.get_free_symbols()
        f = fformfit.gen_cost_func(ff, fd, argument_list=order[::-1])
        g = fformfit.gen_cost_func(ff, fd)
        x = rng.normal(size=len(order))
        want = fgen.cost(ff, fd, dict(zip(order, map(float, x))))
        for got in (g(x), f(x[::-1])):
            mon.check(abs(got-want[0]) <= 1e-9*want[1],
                      'a call is not affected by an earlier one')
        mon.count('code generations')
    mon.count('repeated calls')
    mon.sig('defaults', k)
    check_tables(mon)


WARM = []


def run(kind, idx, rng, mon, tier):
    if not WARM:        # lazily imported modules may register filters
        WARM.append(1)
        dat = make_dat(np.random.default_rng(0), keys=['PP'])[0]
        plotter.easy_plot([dat], [{}], ['PP'], show_plot=False,
                          filename=os.path.join(mon.dir, 'warm.png'))
        plotter.easy_polar_plot([dat], [{}], ['PP'], show_plot=False)
        plt.close('all')
        os.unlink(os.path.join(mon.dir, 'warm.png'))
        repr(dat)
    globals()[kind](idx, rng, mon)
