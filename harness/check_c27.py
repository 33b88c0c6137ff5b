"""C27: what is drawn is what is returned, where and how it was asked for, and nothing else."""
import numpy as np

import gen
import ref
from common import *
from engine import Check, Skip
from gen import pick, chance, bl
from readout import line_equals, _plt
from studies import *

CHECK = Check('C27', 'distinct (study, kind of plot, canvas, options) combinations whose artists were examined',
              ['matplotlib artists show what was passed to them', 'charts of fewer than two time steps or of irregular values are judged by their values, not by their extent'])
CHECK.required = ['area', 'bars', 'density_map', 'evolution', 'line', 'joint', 'nothing_else', 'other_axes', 'earlier_artists', 'values_returned', 'results_unchanged', 'labels', 'extent', 'visible_range',
                  'colour_area', 'colour_bars', 'colour_map', 'colour_mean', 'legend', 'tick_labels', 'bars_apart', 'unknown_name', 'rendered', 'ambiguous_name', 'gamma', 'in_given_figure']

COLOURS = ['r', 'g', '#00ffcc', 'k', (0.2, 0.4, 0.9), 'orange', '0.25']


def artists(ax):
    """What an axes shows: artists in order of their creation."""
    return dict(collections=list(ax.collections), patches=list(ax.patches), lines=list(ax.lines), images=list(ax.images), texts=list(ax.texts))


def look(ax):
    """Everything about an axes that another plot must not alter."""
    r = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_xlim(), ax.get_ylim()]
    for k, v in sorted(artists(ax).items()):
        for a in v:
            r.append((k, id(a), content(a)))
    return repr(r)


def content(a):
    if hasattr(a, 'get_xydata'):
        return (np.asarray(a.get_xydata()).tolist(), a.get_color(), a.get_linewidth())
    if hasattr(a, 'get_array') and hasattr(a, 'get_extent'):
        return (np.asarray(a.get_array()).tolist(), tuple(a.get_extent()))
    if hasattr(a, 'get_bbox'):
        return (a.get_x(), a.get_y(), a.get_width(), a.get_height(), a.get_facecolor())
    if hasattr(a, 'get_paths'):
        return ([p.vertices.tolist() for p in a.get_paths()], np.asarray(a.get_facecolor()).tolist())
    return a.get_text() if hasattr(a, 'get_text') else ''


class Canvas(object):
    """Figures that exist before the plot under test is made, with a current axes to draw into."""

    def __init__(self, rng):
        plt = _plt()
        plt.close('all')
        self.kind = pick(rng, ['fresh', 'fresh', 'axes', 'subplots', 'used', 'figures'])
        self.others = []
        self.ax = None
        if self.kind == 'axes':
            plt.figure()
            self.ax = plt.axes()
        elif self.kind == 'subplots':
            fig, axs = plt.subplots(2, 2)
            axs = list(axs.ravel())
            k = int(rng.integers(4))
            self.ax = axs[k]
            self.others = axs[:k] + axs[k + 1:]
            for a in self.others[:2]:
                self.scribble(rng, a)
            plt.sca(self.ax)
        elif self.kind == 'used':
            plt.figure()
            self.ax = plt.gca()
            self.scribble(rng, self.ax)
        elif self.kind == 'figures':
            plt.figure()
            self.others = [plt.gca()]
            self.scribble(rng, self.others[0])
            plt.figure()
            self.ax = plt.gca()
        self.before = artists(self.ax) if self.ax is not None else {}
        self.contents = {k: [repr(content(a)) for a in v] for k, v in self.before.items()}
        self.looks = [look(a) for a in self.others]
        self.nums = plt.get_fignums()
        self.naxes = [len(plt.figure(n).axes) for n in self.nums]
        if self.ax is not None:
            plt.figure(self.ax.figure.number)
            plt.sca(self.ax)

    def scribble(self, rng, a):
        r = rng.integers(4)
        if r == 0:
            a.plot([0, 1, 2], [0.1, 0.4, 0.2], c='m', lw=2)
        elif r == 1:
            a.bar([0, 1], [0.2, 0.3], width=0.5, color='y')
        elif r == 2:
            a.fill_between([0., 1.], 0, [0.3, 0.1], color='c')
        else:
            a.plot([0, 3], [1, 1], 'r--')
            a.fill_between([0., 1.], 0, [0.3, 0.1], color='c')
        a.set_title('other')

    def target(self):
        return self.ax if self.ax is not None else _plt().gca()

    def new(self, rec, msg):
        """Artists that were added to the axes; all that was there before is as it was."""
        plt = _plt()
        want = self.nums if self.ax is not None else [1]
        rec.check('nothing_else', plt.get_fignums() == want, lambda: 'figures %s, should be %s: %s' % (plt.get_fignums(), want, msg))
        n = [len(plt.figure(k).axes) for k in want]
        rec.check('nothing_else', n == (self.naxes if self.ax is not None else [1]), lambda: 'number of axes %s: %s' % (n, msg))
        ax = self.target()
        plt.figure(ax.figure.number)
        now = artists(ax)
        rec.count('earlier_artists', sum(len(v) for v in self.before.values()))
        for k, v in self.before.items():
            rec.check('earlier_artists', now[k][:len(v)] == v and [repr(content(a)) for a in v] == self.contents[k], lambda: 'what had been drawn into the axes before has been altered: %s' % msg)
        for a, l in zip(self.others, self.looks):
            rec.check('other_axes', look(a) == l, lambda: 'another axes has been altered: %s' % msg)
        return ax, {k: v[len(self.before.get(k, [])):] for k, v in now.items()}


def only(rec, new, msg, **want):
    for k, v in new.items():
        n = want.get(k, 0)
        rec.check('nothing_else', len(v) == n, lambda: '%d %s added instead of %d: %s' % (len(v), k, n, msg))


def rgb(c):
    from matplotlib import colors
    return np.array(colors.to_rgb(c))


def scaled(rec, mon, got, want, msg, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    rec.check(mon, got.shape == want.shape, lambda: '%s: shape %s, should be %s' % (msg, got.shape, want.shape))
    s = np.max(np.abs(want)) if want.size else 0.
    rec.check(mon, np.all(np.abs(got - want) <= tol * s + 1e-300), lambda: '%s: %s, should be %s' % (msg, got.ravel()[:6], want.ravel()[:6]))


def regular(x):
    x = np.asarray(x, float)
    return x.size < 3 or np.allclose(np.diff(x), np.diff(x)[0], rtol=1e-6, atol=1e-12 * np.max(np.abs(x)))


def clearly_irregular(x):
    x = np.asarray(x, float)
    d = np.diff(x)
    return x.size > 2 and np.max(np.abs(np.diff(d))) > 1e-3 * np.max(np.abs(d))


class Draw(object):
    """One plot: how it is made, what it has to show."""

    def __init__(self, kind, how, fn, x, p, xlabel=None, ylabel=None, **kw):
        self.kind, self.how, self.fn, self.x, self.p, self.xlabel, self.ylabel = kind, how, fn, np.atleast_1d(np.asarray(x, float)), np.asarray(p, float), xlabel, ylabel
        self.mean = self.ts = None
        self.returns = None      # the read-out without a plot
        self.gamma = 1.
        self.apart = True
        self.__dict__.update(kw)


def options(rng, d):
    k = {}
    if chance(rng, 0.5):
        if d.kind == 'map':
            k[pick(rng, ['c', 'color'])] = pick(rng, COLOURS)
        else:
            k['color'] = pick(rng, COLOURS)
    if d.kind in ('area', 'bars') and chance(rng, 0.4):
        k['alpha'] = pick(rng, [0.3, 0.7])
    if d.kind in ('area', 'bars', 'line', 'evolution') and chance(rng, 0.4):
        k['label'] = pick(rng, ['posterior', 'my label'])
    if d.kind in ('line', 'evolution') and chance(rng, 0.4):
        k[pick(rng, ['lw', 'linewidth'])] = pick(rng, [0.5, 3.])
    if d.kind in ('line', 'evolution') and chance(rng, 0.3):
        k['linestyle'] = pick(rng, ['--', ':'])
    if d.kind == 'evolution':
        if chance(rng, 0.3):
            k['c'] = pick(rng, COLOURS)
        if chance(rng, 0.6):
            k['gamma'] = pick(rng, [0.3, 1., 0.8])
    return k


def check_map(rec, a, d, gamma, colour, msg):
    w = d.p.T
    got = np.asarray(a.get_array(), float)
    rec.check('density_map', got.shape == w.shape, lambda: 'density map of shape %s, should be %s: %s' % (got.shape, w.shape, msg))
    judged = w > 1e-18 * w.max()
    rec.check('density_map', np.allclose(got[judged], w[judged] ** gamma, rtol=1e-6, atol=0) and np.all(got[~judged] <= (1.1e-18 * w.max()) ** gamma) and np.all(got >= 0),
              lambda: 'density map shows %s, distributions are %s (gamma %s): %s' % (got.ravel()[:5], (w ** gamma).ravel()[:5], gamma, msg))
    if gamma != 1.:
        rec.count('gamma')
    rec.check('density_map', a.origin == 'lower', lambda: 'density map is upside down: %s' % msg)
    if len(d.ts) > 1 and len(d.x) > 1 and d.x[-1] > d.x[0]:
        scaled(rec, 'extent', a.get_extent()[:2], [d.ts[0], d.ts[-1]], 'time axis of the density map: %s' % msg)
        scaled(rec, 'extent', a.get_extent()[2:], [d.x[0], d.x[-1]], 'value axis of the density map: %s' % msg)
    rec.check('visible_range', a.axes.get_aspect() == 'auto', lambda: 'density map does not fill the axes: %s' % msg)
    lo, hi = np.array(a.get_cmap()(0.)[:3]), np.array(a.get_cmap()(1.)[:3])
    rec.check('colour_map', np.all(lo > 0.95), lambda: 'colour of low probabilities is %s: %s' % (lo, msg))
    rec.check('colour_map', np.max(np.abs(hi - rgb(colour))) < 0.12, lambda: 'colour of high probabilities is %s instead of %s: %s' % (hi, colour, msg))


def check_bars(rec, ax, bars, d, msg):
    x, p = d.x, np.atleast_1d(d.p)
    rec.check('bars', len(bars) == len(p), lambda: '%d bars for %d values: %s' % (len(bars), len(p), msg))
    scaled(rec, 'bars', [b.get_height() for b in bars], p, 'heights of bars: %s' % msg)
    rec.check('bars', all(b.get_y() == 0 for b in bars), lambda: 'bars do not start at zero: %s' % msg)
    pos = np.array([b.get_x() + b.get_width() / 2. for b in bars])
    if d.apart and clearly_irregular(x):
        scaled(rec, 'bars', pos, np.arange(len(x)), 'positions of bars: %s' % msg)
        got = [float(t.get_text().replace('\u2212', '-')) for t in ax.get_xticklabels() if t.get_text()]
        rec.check('tick_labels', len(got) == len(x) and np.allclose(got, x, rtol=1e-4, atol=1e-4 * np.max(np.abs(x))) and np.allclose(ax.get_xticks(), pos),
                  lambda: 'bars are labelled %s instead of %s: %s' % (got, x, msg))
    elif regular(x) or not d.apart:
        scaled(rec, 'bars', pos, x, 'positions of bars: %s' % msg)
    if len(x) > 1:
        o = np.argsort(pos)
        w = np.array([abs(b.get_width()) for b in bars])
        rec.check('bars_apart', np.all(w > 0) and np.all(np.diff(pos[o]) >= (w[o][1:] + w[o][:-1]) / 2. * (1 - 1e-6)),
                  lambda: 'bars at %s of widths %s hide each other: %s' % (pos[o][:5], w[o][:5], msg))


def draw(rng, rec, S, c, d):
    plt = _plt()
    if d.kind == 'joint':
        return draw_joint(rng, rec, S, c, d)
    k = options(rng, d)
    canvas = Canvas(rng)
    msg = '%s %s on %s of %s' % (d.how, k, canvas.kind, c.describe())
    r = d.fn(**dict(k))
    ax, new = canvas.new(rec, msg)
    if d.kind == 'area':
        only(rec, new, msg, collections=1)
        a = new['collections'][0]
        v = np.concatenate([q.vertices for q in a.get_paths()])
        for q, w in zip(d.x, np.atleast_1d(d.p)):
            rec.check('area', np.any((np.abs(v[:, 0] - q) <= 1e-9 * np.max(np.abs(d.x))) & (np.abs(v[:, 1] - w) <= 1e-7 * np.max(d.p))), lambda: 'value (%r, %r) is not part of the area: %s' % (q, w, msg))
        rec.check('area', abs(v[:, 1].max() - np.max(d.p)) <= 1e-7 * np.max(d.p) and v[:, 1].min() == 0, lambda: 'area covers %r to %r: %s' % (v[:, 1].min(), v[:, 1].max(), msg))
        scaled(rec, 'area', [v[:, 0].min(), v[:, 0].max()], [d.x.min(), d.x.max()], 'range of area: %s' % msg)
        if 'color' in k:
            rec.check('colour_area', np.allclose(a.get_facecolor()[0][:3], rgb(k['color']), atol=1e-6), lambda: 'colour %s: %s' % (a.get_facecolor(), msg))
        if 'alpha' in k:
            rec.check('colour_area', a.get_alpha() == k['alpha'], lambda: 'alpha %s: %s' % (a.get_alpha(), msg))
        labelled_artist = a
    elif d.kind == 'bars':
        only(rec, new, msg, patches=len(np.atleast_1d(d.p)))
        check_bars(rec, ax, new['patches'], d, msg)
        if 'color' in k:
            rec.check('colour_bars', all(np.allclose(b.get_facecolor()[:3], rgb(k['color']), atol=1e-6) for b in new['patches']), lambda: 'colour: %s' % msg)
        if 'alpha' in k:
            rec.check('colour_bars', all(b.get_alpha() == k['alpha'] for b in new['patches']), lambda: 'alpha: %s' % msg)
        labelled_artist = ax.containers[-1] if ax.containers else None
    elif d.kind == 'map':
        only(rec, new, msg, images=1)
        check_map(rec, new['images'][0], d, 1., k.get('c', k.get('color', 'b')), msg)
        labelled_artist = None
    elif d.kind == 'line':
        only(rec, new, msg, lines=1)
        a = new['lines'][0]
        scaled(rec, 'line', a.get_xydata()[:, 0], d.x, 'time of line: %s' % msg)
        scaled(rec, 'line', a.get_xydata()[:, 1], d.p, 'values of line: %s' % msg)
        line_style(rec, a, k, k.get('color'), k.get('lw', k.get('linewidth')), msg)
        labelled_artist = a
    else:
        only(rec, new, msg, images=1, lines=1)
        check_map(rec, new['images'][0], d, k.get('gamma', 0.5), k.get('color', 'b'), msg)
        a = new['lines'][0]
        scaled(rec, 'evolution', a.get_xydata()[:, 0], d.ts, 'time of mean values: %s' % msg)
        e = np.max(np.abs(d.x)) * 1e-9
        rec.check('evolution', np.allclose(a.get_xydata()[:, 1], d.mean, rtol=1e-7, atol=e), lambda: 'mean values are drawn at %s instead of %s: %s' % (a.get_xydata()[:, 1][:5], d.mean[:5], msg))
        line_style(rec, a, k, k.get('c', 'k'), k.get('lw', k.get('linewidth', 1.5)), msg)
        if len(d.x) > 1 and d.x[-1] > d.x[0]:
            scaled(rec, 'visible_range', ax.get_ylim(), [d.x[0], d.x[-1]], 'visible range: %s' % msg)
        labelled_artist = a
    rec.count(d.kind if d.kind != 'map' else 'density_map')
    if 'label' in k:
        rec.check('legend', labelled_artist is not None and labelled_artist.get_label() == k['label'], lambda: 'label: %s' % msg)
    for got, want, which in ((ax.get_xlabel(), d.xlabel, 'x'), (ax.get_ylabel(), d.ylabel, 'y')):
        rec.check('labels', want is None or (got == want if not callable(want) else want(got)), lambda: '%s-axis is labelled %r: %s' % (which, got, msg))
    if r is not None and d.returns is not None:
        want = d.returns()
        rec.check('values_returned', len(r) == len(want) and all(np.array_equal(np.asarray(u, float), np.asarray(v, float)) for u, v in zip(r, want)), lambda: 'values returned with a plot differ from those without: %s' % msg)
    if chance(rng, 0.05):
        ax.figure.canvas.draw()
        rec.count('rendered')
    rec.situation(c.describe(), d.how, canvas.kind, sorted(k))


def line_style(rec, a, k, colour, width, msg):
    if colour is not None:
        rec.check('colour_mean', np.allclose(rgb(a.get_color()), rgb(colour), atol=1e-6), lambda: 'colour of line is %s: %s' % (a.get_color(), msg))
    if width is not None:
        rec.check('line_width', a.get_linewidth() == width, lambda: 'width of line is %s: %s' % (a.get_linewidth(), msg))
    rec.check('line_style', a.get_linestyle() == k.get('linestyle', '-'), lambda: 'style of line is %s: %s' % (a.get_linestyle(), msg))


def draw_joint(rng, rec, S, c, d):
    from mpl_toolkits.mplot3d import Axes3D
    plt = _plt()
    plt.close('all')
    where = pick(rng, ['new', 'after', 'given', 'subplot'])
    k = {}
    fig, other = None, None
    if where != 'new':
        fig = plt.figure()
        other = fig.add_subplot(221)
        other.plot([0, 1], [0, 1])
        before = look(other)
    if where in ('given', 'subplot'):
        k['figure'] = fig
        if chance(rng, 0.5):
            plt.figure()                     # not the current figure any more
    if where == 'subplot':
        k['subplot'] = pick(rng, [122, 224, 111])
    elif where == 'given':
        k['subplot'] = 122
    if chance(rng, 0.4):
        k['color'] = pick(rng, COLOURS)
    msg = '%s %s (%s) of %s' % (d.how, k, where, c.describe())
    nums = plt.get_fignums()
    seen, orig = [], Axes3D.bar3d

    def bar3d(self, x, y, z, dx, dy, dz, *p, **kk):
        seen.append((self, [np.array(v, dtype=float) * np.ones(np.size(dz)) for v in (x, y, z, dx, dy, dz)], kk))
        return orig(self, x, y, z, dx, dy, dz, *p, **kk)
    Axes3D.bar3d = bar3d
    try:
        r = d.fn(**dict(k))
    finally:
        Axes3D.bar3d = orig
    now = plt.get_fignums()
    if where in ('given', 'subplot'):
        rec.check('in_given_figure', now == nums and len(fig.axes) == 2, lambda: 'figures %s before, %s after, %d axes in the given figure: %s' % (nums, now, len(fig.axes), msg))
        rec.check('in_given_figure', all(not plt.figure(n).axes for n in now if n != fig.number), lambda: 'another figure has been drawn into: %s' % msg)
        ax = fig.axes[-1]
        g = ax.get_subplotspec()
        want = divmod(k['subplot'] // 10, 10)
        rec.check('in_given_figure', (g.get_gridspec().nrows, g.get_gridspec().ncols, g.num1 + 1) == want + (k['subplot'] % 10,), lambda: 'subplot %s: %s' % (g, msg))
    else:
        rec.check('nothing_else', len(now) == len(nums) + 1, lambda: 'figures %s before, %s after: %s' % (nums, now, msg))
        f = plt.figure([n for n in now if n not in nums][0])
        rec.check('nothing_else', len(f.axes) == 1, lambda: '%d axes in the figure: %s' % (len(f.axes), msg))
        ax = f.axes[0]
    if other is not None:
        rec.check('other_axes', look(other) == before, lambda: 'another axes has been altered: %s' % msg)
    lab = (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel())
    rec.check('labels', sorted(lab[:2]) == sorted(d.names) and lab[2] == 'probability', lambda: 'axes are labelled %s: %s' % (lab, msg))
    if len(seen) == 1:
        a, (x, y, z, dx, dy, dz), kk = seen[0]
        rec.check('joint', a is ax, lambda: 'drawn into another axes: %s' % msg)
        i = d.names.index(lab[0])
        vals = [d.x, d.y] if i == 0 else [d.y, d.x]
        p = d.p if i == 0 else d.p.T
        irr = [clearly_irregular(v) for v in vals]
        if all(irr[q] or regular(vals[q]) for q in (0, 1)):
            pos = [np.arange(len(v)) if irr[q] else v for q, v in enumerate(vals)]
            want = np.array([(u, v, p[m, n]) for m, u in enumerate(pos[0]) for n, v in enumerate(pos[1])], float)
            got = np.array([x + dx / 2., y + dy / 2., z + dz]).T
            rec.check('joint', got.shape == want.shape, lambda: '%d bars for %d combinations: %s' % (len(got), len(want), msg))
            sc = np.max(np.abs(want), axis=0) + 1e-300
            for w in want:
                rec.check('joint', np.any(np.all(np.abs(got - w) <= 1e-6 * sc, axis=1)), lambda: 'no bar for %s: %s' % (w, msg))
            rec.check('joint', np.all(z == 0), lambda: 'bars do not start at zero: %s' % msg)
            for q, (w, ticks, labels) in enumerate(((dx, ax.get_xticks, ax.get_xticklabels), (dy, ax.get_yticks, ax.get_yticklabels))):
                if len(pos[q]) > 1:
                    step = np.min(np.abs(np.diff(pos[q])))
                    rec.check('bars_apart', np.all(w > 0) and np.all(w <= step * (1 + 1e-6)), lambda: 'bars of width %s at distance %s hide each other: %s' % (w[:3], step, msg))
                if irr[q]:
                    t = [float(l.get_text().replace('\u2212', '-')) for l in labels() if l.get_text()]
                    rec.check('tick_labels', len(t) == len(vals[q]) and np.allclose(t, vals[q], rtol=1e-4, atol=1e-4 * np.max(np.abs(vals[q]))), lambda: 'bars are labelled %s instead of %s: %s' % (t, vals[q], msg))
        if 'color' in k:
            rec.check('colour_bars', 'color' in kk and np.allclose(rgb(kk['color']), rgb(k['color'])), lambda: 'colour: %s' % msg)
    want = d.returns()
    rec.check('values_returned', len(r) == len(want) and all(np.array_equal(np.asarray(u, float), np.asarray(v, float)) for u, v in zip(r, want)), lambda: 'values returned with a plot differ from those without: %s' % msg)
    rec.situation(c.describe(), d.how, where, sorted(k))


def time_label(l):
    return 'time' in l


def areas(rng, S, times, names, history=True):
    """Distribution of a parameter at one time step."""
    out = []
    n = pick(rng, names)
    t = pick(rng, times)
    den = pick(rng, [True, False, None])
    kd = {} if den is None else {'density': den}
    x, p = S.getPD(t, n, **kd)
    yl = 'probability' if den is False else 'probability density'
    ret = lambda: S.getPD(t, n, **kd)
    out.append(Draw('area', 'plot(t)', lambda **k: S.plot(n, t=t, **dict(kd, **k)), x, p, n, yl))
    out.append(Draw('area', 'getPD', lambda **k: pick(rng, [S.getPD, S.getParameterDistribution])(t, n, plot=True, **dict(kd, **k)), x, p, n, yl, returns=ret))
    return out


def sequences(rng, S, times, names):
    n = pick(rng, names)
    den = pick(rng, [True, False, None])
    kd = {} if den is None else {'density': den}
    x, p = S.getPDs(n, **kd)
    ret = lambda: S.getPDs(n, **kd)
    q = S.getPDs(n, density=False)[1]
    mean = np.asarray(S.getParameterMeanValues(n), float)
    ev = pick(rng, [('plot', S.plot), ('plotParameterEvolution', S.plotParameterEvolution)])
    return [Draw('map', 'getPDs', lambda **k: pick(rng, [S.getPDs, S.getParameterDistributions])(n, plot=True, **dict(kd, **k)), x, p, ts=times, returns=ret),
            Draw('evolution', ev[0], lambda **k: ev[1](n, **k), x, q, time_label, n, ts=times, mean=mean)]


def duration_drawing(S, names, f):
    x, p = S.getDD(names)
    return Draw('bars', 'getDD', lambda **k: f(names, plot=True, **k), x, p, lambda l: all(n in l for n in names), 'probability', apart=False, returns=lambda: S.getDD(names))


def drawings(rng, S, c):
    """All plots the study offers at the moment."""
    s, out = c.s, []
    ts = list(s.tsf)
    names = list(s.om.names)
    if c.kind != 'online':
        if c.mode != 'evidence':
            out += areas(rng, S, ts + ['avg'], names) + sequences(rng, S, ts, names)
        hn = c.names() if c.kind != 'study' else []
        combos, _, _, _ = ref.hyper_grid(s.spec, s.tsf)
        keep = sum(1 for x in combos if c.kind != 'cp' or c.mask(x))
        if hn and keep > 1:
            n = pick(rng, hn)
            x, p = S.getHPD(n)
            how = pick(rng, [('plot', lambda **k: S.plot(n, **k)), ('getHPD', lambda **k: S.getHPD(n, plot=True, **k)), ('getHyperParameterDistribution', lambda **k: S.getHyperParameterDistribution(n, plot=True, **k))])
            out.append(Draw('bars', how[0], how[1], x, p, n, 'probability', returns=lambda: S.getHPD(n)))
            if len(hn) > 1:
                a, b = [hn[k] for k in rng.permutation(len(hn))[:2]]
                x, y, p = S.getJHPD([a, b])
                f = pick(rng, [S.getJHPD, S.getJointHyperParameterDistribution])
                out.append(Draw('joint', 'getJHPD', lambda **k: f([a, b], plot=True, **k), x, p, y=np.atleast_1d(np.asarray(y, float)), names=[a, b], returns=lambda: S.getJHPD([a, b])))
            pn = c.point_names() if c.kind == 'cp' else []
            if len(pn) > 1:
                out.append(duration_drawing(S, [pn[k] for k in rng.permutation(len(pn))[:2]], pick(rng, [S.getDD, S.getDurationDistribution])))
        return out
    n = pick(rng, names)
    den = pick(rng, [True, False, None])
    kd = {} if den is None else {'density': den}
    x, p = S.getCPD(n, **kd)
    f = pick(rng, [S.getCPD, S.getCurrentParameterDistribution])
    yl = 'probability' if den is False else 'probability density'
    out.append(Draw('area', 'getCPD', lambda **k: f(n, plot=True, **dict(kd, **k)), x, p, n, yl, returns=lambda: S.getCPD(n, **kd)))
    if not c.history:
        out.append(Draw('area', 'plot(current)', lambda **k: S.plot(n, **dict(kd, **k)), x, p, n, yl))
    hp = [(m, v) for j, sp in enumerate(c.specs) if S.getCTMP(c.tm_names[j]) > 0 for m, v, _ in ref.flat(sp)]
    if hp:
        h, v = pick(rng, hp)
        hx, q = S.getCHPD(h)
        g = pick(rng, [S.getCHPD, S.getCurrentHyperParameterDistribution])
        out.append(Draw('bars', 'getCHPD', lambda **k: g(h, plot=True, **k), hx, q, h, 'probability', returns=lambda: S.getCHPD(h)))
        if not c.history:
            out.append(Draw('bars', 'plot(current hyper)', lambda **k: S.plot(h, **k), hx, q, h, 'probability'))
    if c.history:
        out += areas(rng, S, ts + ['avg'], names) + sequences(rng, S, ts, names)
        m = pick(rng, list(c.tm_names))
        loc = pick(rng, [True, False, None])
        kl = {} if loc is None else {'local': loc}
        out.append(Draw('line', 'plot(model)', lambda **k: S.plot(m, **dict(kl, **k)), ts, np.asarray(S.getTMPs(m, **kl), float)))
        if hp:
            h2, v = pick(rng, hp)
            t = pick(rng, ts + ['avg'])
            hx, q = S.getHPD(t, h2)
            how = pick(rng, [('plot(t, hyper)', lambda **k: S.plot(h2, t=t, **k)), ('getHPD(t)', lambda **k: pick(rng, [S.getHPD, S.getHyperParameterDistribution])(t, h2, plot=True, **k))])
            out.append(Draw('bars', how[0], how[1], hx, q, h2, 'probability', returns=lambda: S.getHPD(t, h2)))
            hx, q = S.getHPDs(h2)
            if len(np.atleast_1d(hx)) > 1:
                e = pick(rng, [('plot(hyper)', S.plot), ('plotHyperParameterEvolution', S.plotHyperParameterEvolution)])
                out.append(Draw('evolution', e[0], lambda **k: e[1](h2, **k), hx, q, time_label, h2, ts=ts, mean=np.asarray(S.getHyperParameterMeanValues(h2), float)))
    return out


def examine(rng, rec, c, S, rounds=2):
    if np.isneginf(S.logEvidence) or S.logEvidence != S.logEvidence:
        raise Skip('no results')
    before = observe(S, c)
    for _ in range(rounds):
        ds = drawings(rng, S, c)
        if not ds:
            raise Skip('nothing to draw')
        for k in rng.permutation(len(ds)):
            draw(rng, rec, S, c, ds[k])
    same(rec, 'results_unchanged', before, observe(S, c), 'drawing alters results: %s' % c.describe())
    # names that do not exist
    B = bl()
    canvas = Canvas(rng)
    bad = 'no such name'
    fs = [('plot', lambda: S.plot(bad))]
    if c.kind in ('hyper', 'cp') and c.names():
        fs.append(('getHPD', lambda: S.getHPD(bad, plot=True)))
    if c.kind == 'online':
        fs += [('getCPD', lambda: S.getCPD(bad, plot=True)), ('getCHPD', lambda: S.getCHPD(bad, plot=True))]
        if c.history:
            fs += [('getPDs', lambda: S.getPDs(bad, plot=True)), ('plot(t)', lambda: S.plot(bad, t=c.s.tsf[0])), ('plotHyperParameterEvolution', lambda: S.plotHyperParameterEvolution(bad))]
    else:
        fs += [('getPDs', lambda: S.getPDs(bad, plot=True)), ('getPD', lambda: S.getPD(c.s.tsf[0], bad, plot=True))]
    for n, f in fs:
        rec.raises('unknown_name', B.exceptions.PostProcessingError, f, '%s of a name that does not exist' % n)
    if canvas.ax is not None:
        ax, new = canvas.new(rec, 'names that do not exist')
        only(rec, new, 'names that do not exist')
    _plt().close('all')


@CHECK.gen(60, 1500)
def batch(rng, rec, i):
    c = any_case(rng, ('study',), mode=pick(rng, ['complete', 'forward']), T=int(rng.integers(1, 8)))
    examine(rng, rec, c, c.run(rng, c.build(rng)))


@CHECK.gen(90, 2500)
def hyper(rng, rec, i):
    c = any_case(rng, ('hyper', 'cp'))
    examine(rng, rec, c, c.run(rng, c.build(rng)))


@CHECK.gen(90, 2500)
def online(rng, rec, i):
    c = any_case(rng, ('online',))
    S = c.build(rng)
    if chance(rng, 0.3) and len(c.s.data) > c.s.om.seg + 1:      # plot while the analysis goes on
        k = int(rng.integers(c.s.om.seg, len(c.s.data)))
        c.run(rng, S, k)
        if np.isfinite(S.logEvidence):
            full, c.s.tsf = c.s.tsf, list(c.s.tsf)[:k - c.s.om.seg + 1]
            try:
                examine(rng, rec, c, S, 1)
            finally:
                c.s.tsf = full
        c.run(rng, S, start=k)
    else:
        c.run(rng, S)
    examine(rng, rec, c, S)


@CHECK.gen(40, 600)
def ambiguous(rng, rec, i):
    """A transition model that is called like one of its hyper-parameters can not be plotted by name."""
    B = bl()
    S = B.OnlineStudy(storeHistory=chance(rng, 0.6), silent=True)
    n = pick(rng, ['a', 'sigma'])
    S.set(B.om.Poisson('rate', B.oint(0, 6, int(rng.integers(4, 12)))), silent=True)
    S.add(n, B.tm.GaussianRandomWalk(n, [0.1, 0.2], target='rate'))
    S.add('static', B.tm.Static())
    for x in rng.poisson(2., int(rng.integers(1, 4))):
        S.step(int(x))
    canvas = Canvas(rng)
    rec.raises('ambiguous_name', B.exceptions.PostProcessingError, lambda: S.plot(n), 'plot of a name that denotes a hyper-parameter and a transition model')
    if canvas.ax is not None:
        only(rec, canvas.new(rec, 'ambiguous name')[1], 'ambiguous name')
    rec.situation('ambiguous', n, S.storeHistory)
