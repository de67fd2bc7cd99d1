"""C23 - plots draw exactly the requested data."""
import os
from pathlib import Path

import matplotlib
matplotlib.use('Agg')
import matplotlib.colors as mcolors
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from shgpy import DataContainer, plotter
import gen

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('both plotting helpers called with random containers, polarization '
        'lists, style dictionaries and options while other figures are open; '
        'the figures, lines, legends, labels, ticks, calls of show and saved '
        'files are inspected after each call; distinct by helper, number of '
        'polarizations and datasets, and options')
ASSUMPTIONS = [
    'the figure a call creates stays open when it is not shown',
    'as many style dictionaries as datasets, largest value positive',
    'plt.show is replaced by a stand-in which, like an interactive window, '
    'closes the figures']
MIN_EVENTS = {'figures': 150, 'curves': 600, 'saved files': 40, 'shown': 30,
              'legends': 40, 'axis labels': 20, 'rejected': 10,
              'polar figures': 60, 'single polarization': 10}


def plan(tier):
    q = tier == 'quick'
    return [('linear', 110 if q else 2000), ('polar', 100 if q else 1800),
            ('reject', 10 if q else 60), ('series', 10 if q else 120)]


STYLE = [
    ('color', ['r', 'tab:blue', '#336699', (.1, .2, .3), 'C3']),
    ('linestyle', ['-', '--', ':', 'None', '-.']),
    ('marker', ['o', 'x', '^', '']),
    ('linewidth', [.5, 2, 3.5]), ('markersize', [1, 8.5]),
    ('alpha', [.3, 1]), ('zorder', [1, 7]),
    ('label', ['data', 'fit', 'A $x^2$', '_hidden', 'ünï']),
    ('markerfacecolor', ['g', 'none']), ('visible', [True, False]),
    ('drawstyle', ['steps', 'default']),
]


def style(rng):
    return {k: v[rng.integers(len(v))] for k, v in STYLE
            if rng.random() < .35}


def dataset(rng, keys):
    unit = ['radians', 'degrees'][rng.integers(2)]
    d = {}
    for k in keys:
        n = int(rng.integers(1, 30) if rng.random() < .85 else
                rng.integers(100, 2000))
        t = np.sort(rng.uniform(0, 2*np.pi, n)) + np.arange(n)*1e-4
        y = rng.normal(size=n)*10.**rng.integers(-3, 4)
        y[0] = abs(y[0]) + .01
        if rng.random() < .5:
            y = np.abs(y)
        d[k] = np.array([np.degrees(t) if unit == 'degrees' else t, y])
    c = DataContainer(d, unit)
    if rng.random() < .5:
        c.phase_shift_data(float(rng.normal()), 'radians')
    if rng.random() < .3:
        c.scale_data(float(rng.uniform(.1, 5)))
    return c


def pc_list(rng, n, keys):
    if rng.random() < .2:       # repetitions
        return [keys[rng.integers(len(keys))] for _ in range(n)]
    p = list(keys)
    rng.shuffle(p)
    return p[:n]


PROPS = ['linestyle', 'marker', 'linewidth', 'markersize', 'alpha', 'zorder',
         'drawstyle', 'visible']


def same_style(line, ref):
    for p in PROPS:
        a, b = getattr(line, 'get_' + p)(), getattr(ref, 'get_' + p)()
        if a != b:
            return p, a, b
    for p in ('color', 'markerfacecolor', 'markeredgecolor'):
        a = getattr(line, 'get_' + p)()
        b = getattr(ref, 'get_' + p)()
        if mcolors.to_rgba_array(a).tolist() != \
                mcolors.to_rgba_array(b).tolist():
            return p, a, b
    if ref.get_label().startswith('_child') or \
            ref.get_label().startswith('_line'):
        if not line.get_label().startswith('_'):
            return 'label', line.get_label(), ref.get_label()
    elif line.get_label() != ref.get_label():
        return 'label', line.get_label(), ref.get_label()


class Shows:
    """Stand-ins for the functions which would open a window."""

    def __enter__(self):
        self.figs, self.n = [], 0
        self.files = None
        self.old = plt.show, matplotlib.figure.Figure.show
        me = self

        def show(*a, **k):
            me.n += 1
            me.figs += [plt.figure(i) for i in plt.get_fignums()]
            plt.close('all')

        def figshow(fig, *a, **k):
            me.n += 1
            me.figs.append(fig)
        plt.show = show
        matplotlib.figure.Figure.show = figshow
        return self

    def __exit__(self, *a):
        plt.show, matplotlib.figure.Figure.show = self.old


def inspect(mon, fig, polar, dats, styles, pcs, legend, xlabel, ylabel, rng):
    axs = fig.axes
    n = len(pcs)
    mon.check(len(axs) == n, 'one subplot per polarization',
              lambda: (len(axs), pcs))
    mon.check([a.get_title() for a in axs] == [str(p) for p in pcs],
              'subplots are titled in the requested order',
              lambda: ([a.get_title() for a in axs], pcs))
    ref_fig = matplotlib.figure.Figure()
    top = max(max(d.get_pc(k, 'radians')[1].max() for k in d.get_keys())
              for d in dats)
    for ax, pc in zip(axs, pcs):
        ref = ref_fig.add_subplot(projection='polar' if polar else None)
        mon.check((ax.name == 'polar') == polar, 'kind of axes', ax.name)
        mon.check(ax.get_visible(), 'the subplot is visible')
        lines = ax.get_lines()
        mon.check(len(lines) == len(dats), 'one curve per dataset',
                  lambda: (pc, len(lines), len(dats)))
        mon.check(not ax.collections and not ax.patches and not ax.images,
                  'nothing else is drawn')
        labels = []
        for line, dat, st in zip(lines, dats, styles):
            x, y = dat.get_pc(pc, 'radians')
            mon.check(np.array_equal(line.get_xdata(orig=True), x)
                      and np.array_equal(line.get_ydata(orig=True), y),
                      'curves are exactly the data',
                      lambda: (pc, line.get_xdata(), x, line.get_ydata(), y))
            r, = ref.plot(x, y, **st)
            bad = same_style(line, r)
            mon.check(bad is None, 'curves have the given style',
                      lambda: (st, bad))
            mon.count('curves')
            if not r.get_label().startswith('_'):
                labels.append(r.get_label())
        leg = ax.get_legend()
        if not legend:
            mon.check(leg is None, 'no legend unless requested')
        elif labels:
            mon.check(leg is not None and
                      [t.get_text() for t in leg.get_texts()] == labels,
                      'the legend lists the labelled datasets',
                      lambda: (leg and [t.get_text()
                                        for t in leg.get_texts()], labels))
            mon.count('legends')
        if polar:
            mon.check(ax.get_ylim()[0] == 0, 'the radial axis starts at zero',
                      ax.get_ylim())
            t = [float(v) for v in ax.get_yticks()]
            mon.check(len(t) == 1 and abs(t[0]-top) <= 1e-12*abs(top),
                      'the radial tick is at the largest value',
                      lambda: (t, top))
            mon.check(ax.get_ylim()[1] >= top*(1-1e-12)
                      or ax.get_ylim()[1] > 0, 'the radial range is positive')
    if not polar:
        rows = {}
        for ax in axs:
            ss = ax.get_subplotspec()
            rows[ax] = ss.is_last_row(), ss.is_first_col()
        for ax in axs:
            last, first = rows[ax]
            mon.check(ax.get_xlabel() == (xlabel or '' if last else ''),
                      'horizontal labels as requested',
                      lambda: (ax.get_xlabel(), xlabel, last))
            mon.check(ax.get_ylabel() == (ylabel or '' if first else ''),
                      'vertical labels as requested',
                      lambda: (ax.get_ylabel(), ylabel, first))
        if xlabel or ylabel:
            mon.count('axis labels')
        # arranged in reading order, every subplot in its own place
        pos = [(-round(a.get_position().y0, 6), round(a.get_position().x0, 6))
               for a in axs]
        mon.check(pos == sorted(pos) and len(set(pos)) == n,
                  'subplots are laid out in order', lambda: pos)
    else:
        pos = [round(a.get_position().x0, 6) for a in axs]
        mon.check(pos == sorted(pos) and len(set(pos)) == n,
                  'subplots are laid out in order', lambda: pos)


def decoy(rng):
    """An open figure which has nothing to do with the call."""
    fig, ax = plt.subplots(1, 2)
    ax[0].plot([1, 2], [3, 4], label='decoy')
    ax[0].set_title('decoy')
    return fig


def decoy_ok(mon, fig):
    mon.check(len(fig.axes) == 2 and len(fig.axes[0].lines) == 1 and
              fig.axes[0].get_title() == 'decoy' and
              not fig.axes[1].lines and not fig.axes[1].get_title() and
              not fig.axes[1].get_xlabel() and not fig.axes[0].get_xlabel(),
              'other figures are left alone')


def one(rng, mon, polar, close=True):
    os.chdir(mon.dir)
    n = int(rng.integers(1, 7 if polar else 5))
    keys = gen.PCS + (['XX', 'pp_1'] if rng.random() < .3 or n > 4 else [])
    pcs = pc_list(rng, n, keys)
    if rng.random() < .3:
        pcs = tuple(pcs)
    nd = int(rng.integers(1, 4))
    dats, styles = [], []
    for _ in range(nd):
        ks = list(keys)
        rng.shuffle(ks)
        if rng.random() < .4:       # only what is asked for
            ks = [k for k in ks if k in pcs]
        dats.append(dataset(rng, ks))
        styles.append(style(rng))
    if rng.random() < .2:
        styles = [styles[0]]*nd
    if nd > 1 and rng.random() < .2:
        dats[1] = dats[0]
    kw = {}
    fn = None
    if rng.random() < .5:
        fn = os.path.join(mon.dir, f"out.{['png', 'pdf', 'svg'][rng.integers(3)] if rng.random() < .3 else 'png'}")
        kw['filename'] = Path(fn) if rng.random() < .4 else fn
        if rng.random() < .2:       # matplotlib's own choice of format
            fn = fn.rsplit('.', 1)[0] + '.png'
            kw['filename'] = type(kw['filename'])(fn[:-4])
        if rng.random() < .2:
            Path(fn).write_text('old contents')
    legend = bool(rng.integers(2))
    if legend or rng.random() < .5:
        kw['show_legend'] = legend
    show = rng.random() < .35
    if not show or rng.random() < .7:
        kw['show_plot'] = bool(show)
    else:
        show = True
    xl = yl = None
    if not polar:
        if rng.random() < .5:
            xl = kw['xlabel'] = ['phi', 'Angle (rad)', ''][rng.integers(3)]
        if rng.random() < .5:
            yl = kw['ylabel'] = ['I', '$I_{2\\omega}$'][rng.integers(2)]
    fig0 = decoy(rng) if rng.random() < .4 else None
    before = set(plt.get_fignums())
    open_figs = [plt.figure(i) for i in sorted(before)]
    if fig0 is not None:
        plt.figure(fig0.number)
    files = set(os.listdir(mon.dir))
    f = plotter.easy_polar_plot if polar else plotter.easy_plot
    lst = tuple(dats) if rng.random() < .3 else list(dats)
    with Shows() as s:
        f(lst, styles, pcs, **kw)
    mon.check(s.n == (1 if show else 0), 'shown exactly when asked',
              lambda: (s.n, kw))
    if show:
        figs = [g for g in s.figs if all(g is not o for o in open_figs)]
        mon.count('shown')
    else:
        new = [i for i in plt.get_fignums() if i not in before]
        figs = [plt.figure(i) for i in new]
    mon.check(len(figs) == 1, 'one figure is made', lambda: len(figs))
    if fig0 is not None:
        decoy_ok(mon, fig0)
    fig = figs[0]
    mon.sig(polar, n, nd, tuple(sorted(kw)), show, legend)
    mon.note_sample(f'{f.__name__}: {n} polarizations, {nd} datasets, {kw}')
    inspect(mon, fig, polar, dats, styles, pcs, legend, xl, yl, rng)
    mon.count('figures')
    if polar:
        mon.count('polar figures')
    if n == 1:
        mon.count('single polarization')
    now = set(os.listdir(mon.dir))
    want = files | ({os.path.basename(fn)} if fn else set())
    mon.check(now == want, 'files exactly as requested', lambda: (now, want))
    if fn:
        data = Path(fn).read_bytes()
        ext = fn.rsplit('.', 1)[1]
        mon.check(data.startswith({'png': b'\x89PNG', 'pdf': b'%PDF',
                                   'svg': b'<?xml'}[ext]),
                  'the file has the requested type', data[:20])
        if ext == 'png':
            again = os.path.join(mon.dir, 'again.png')
            fig.savefig(again)
            a, b = plt.imread(fn), plt.imread(again)
            os.unlink(again)
            mon.check(a.shape == b.shape and np.allclose(a, b, atol=.02),
                      'the file shows the finished figure',
                      lambda: (a.shape, b.shape,
                               a.shape == b.shape and
                               float(np.abs(a-b).max())))
        os.unlink(fn)
        mon.count('saved files')
    if close:
        plt.close('all')
    return fig


def linear(rng, mon):
    one(rng, mon, False)


def polar(rng, mon):
    one(rng, mon, True)


def series(rng, mon):
    """Several figures stay open and separate."""
    figs = []
    for _ in range(4):
        p = bool(rng.integers(2))
        fig = one(rng, mon, p, close=False)
        state = lambda g: [(a.get_title(), len(a.lines), a.get_xlabel(),
                            a.get_ylim(), a.get_legend() is None)
                           for a in g.axes]
        for g, v in figs:
            mon.check(state(g) == v, 'earlier figures are left alone')
        figs.append((fig, state(fig)))
    mon.check(len({id(g) for g, _ in figs}) == 4, 'every call makes a figure')
    plt.close('all')


def reject(rng, mon):
    d = [dataset(rng, gen.PCS + ['a', 'b', 'c'])]
    for n in (5, 6, 7):
        pcs = (gen.PCS + ['a', 'b', 'c'])[:n]
        with Shows() as s:
            mon.raises(lambda: plotter.easy_plot(
                d, [{}], pcs, show_plot=bool(n % 2)),
                'too many polarizations are rejected')
        mon.check(s.n == 0, 'nothing is shown')
        mon.count('rejected')
    for f in (plotter.easy_plot, plotter.easy_polar_plot):
        with Shows() as s:
            mon.raises(lambda: f(d, [{}], ['PP', 'missing']),
                       'a missing polarization is rejected')
        mon.check(s.n == 0, 'nothing is shown')
        mon.count('rejected')
    mon.sig('reject')
    plt.close('all')


def run(kind, idx, rng, mon, tier):
    try:
        globals()[kind](rng, mon)
    finally:
        plt.close('all')
