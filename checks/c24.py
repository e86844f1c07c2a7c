"""C24: plots."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks import c10

RULE = """Random solved simulations (linear and nonlinear fields, both polarizations, lossy, one-dimensional) plotted with random options; image data,
position of every cell on the screen, color limits, colorbar and outline read back from the axes and compared with the fields.  Objective histories,
transmissions, animations of random fields frame by frame, plots before solving.  Non-trivial: the domain is not square and the plotted quantity
varies."""
ASSUMPTIONS = ["what is drawn is read from the matplotlib image or line on the returned axes (not from pixels)", "colormaps are not judged"]


def screen(ctx, ax, what):
    """values as seen, first index to the right, second upwards; the image"""
    ctx.check(len(ax.images) == 1, '%s: %d images on the axes' % (what, len(ax.images)))
    im = ax.images[0]
    A = np.ma.getdata(im.get_array())
    ny, nx = A.shape
    l, r, b, t = im.get_extent()
    x = l + (np.arange(nx) + 0.5)*(r - l)/nx
    y = b + (np.arange(ny) + 0.5)*(t - b)/ny if im.origin == 'lower' else t + (np.arange(ny) + 0.5)*(b - t)/ny
    for v, lim, n in ((x, ax.get_xlim(), 'x'), (y, ax.get_ylim(), 'y')):
        ctx.check(min(lim) <= v.min() and v.max() <= max(lim), '%s: part of the image lies outside of the axes in %s' % (what, n))
    px = ax.transData.transform([(v, y[0]) for v in x])[:, 0]
    py = ax.transData.transform([(x[0], v) for v in y])[:, 1]
    return A[np.argsort(py)][:, np.argsort(px)].T, im


def outline(ctx, ax, eps, what):
    """every point of the outline lies where the magnitude of the permittivity crosses a level"""
    from matplotlib.contour import ContourSet
    n = 0
    for cs in ax.collections:
        if not isinstance(cs, ContourSet):
            continue
        levels = np.asarray(cs.levels, float)
        for path in cs.get_paths():
            for vx, vy in path.vertices:
                if not (-1e-6 <= vx <= eps.shape[0] - 1 + 1e-6 and -1e-6 <= vy <= eps.shape[1] - 1 + 1e-6):
                    ctx.fail('%s: outline at (%g, %g), outside of the domain' % (what, vx, vy))
                i, j = max(min(int(vx), eps.shape[0] - 2), 0), max(min(int(vy), eps.shape[1] - 2), 0)
                u, v = vx - i, vy - j
                e = eps[i, j]*(1-u)*(1-v) + eps[i+1, j]*u*(1-v) + eps[i, j+1]*(1-u)*v + eps[i+1, j+1]*u*v
                ctx.check(np.abs(levels - e).min() < 1e-6*np.abs(eps).max(), '%s: outline at (%g, %g), where the permittivity is %g' % (what, vx, vy, e))
                n += 1
    return n


def snapshot(sim):
    out = {'eps': sim.eps_r.copy(), 'src': sim.src.copy(), 'A': sim.A.copy()}
    for k in sim.fields:
        out['l' + k] = None if sim.fields[k] is None else sim.fields[k].copy()
        out['n' + k] = None if sim.fields_nl[k] is None else sim.fields_nl[k].copy()
    return out


def unchanged(ctx, sim, snap):
    now = snapshot(sim)
    for k in snap:
        if k == 'A':
            same = abs(now[k] - snap[k]).max() == 0
        elif snap[k] is None or now[k] is None:
            same = snap[k] is None and now[k] is None
        else:
            same = np.array_equal(now[k], snap[k])
        ctx.check(same, 'plotting changed %s of the simulation' % k)


def images(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import LogNorm
    plt.close('all')
    sim = gen.make(case)
    pol = case['pol']
    eps = np.abs(gen.build_eps(case['eps'], case['nx'], case['ny']))
    lin = sim.solve_fields()[2].copy()
    r = np.random.RandomState(case['seed'])
    non = None
    if case['nl'] and not np.abs(lin).max() < 1e-300:
        # a weak nonlinearity (what the fields are does not matter here), any region
        reg = (r.random_sample(lin.shape) < 0.5)*1.0
        sim.add_nl(case['strength']*case['L0']**2/np.abs(lin).max()**2, reg)
        non = sim.solve_fields_nl(solver_nl='born', max_num_iter=4)[2].copy()
    snap = snapshot(sim)
    for p in case['plots']:
        what, o, tile = p['what'], dict(p['o']), p['tile']
        nl = p['nl'] and non is not None
        if what == 'diff' and non is None:
            continue
        F = non if nl else lin
        own = None
        if p['own']:
            own = plt.subplots(1, 2)[1][1]
            o['ax'] = own
        if tile > 1 or p['explicit']:
            o['tiled_y'] = tile
        top = None
        if what == 'abs':
            want = np.abs(F)
            top = [0.0, want.max()]
            if p['log']:
                o['logscale'] = True
                if not (want > 0).any():
                    continue
                top[0] = want[want > 0].min()
                if top[0] == top[1]:
                    continue
            if p['lim'] and want.max() > 0:
                o['vmin'], o['vmax'] = top = [0.3*want.max(), 0.7*want.max()]
                if p['lim'] == 1:
                    del o['vmin']
                    top[0] = want[want > 0].min() if p['log'] else 0.0
                    if not top[0] < top[1]:
                        continue
            ax = sim.plt_abs(nl=nl, **o) if nl or p['explicit'] else sim.plt_abs(**o)
        elif what == 're':
            want = np.real(F)
            top = [-np.abs(want).max(), np.abs(want).max()]
            ax = sim.plt_re(nl=nl, **o) if nl or p['explicit'] else sim.plt_re(**o)
        elif what == 'diff':
            want = np.abs(lin) - np.abs(non)
            if p['norm'] is not None:
                o['normalize'] = p['norm']
            if p['norm'] is not False:
                want = want/np.abs(lin).max()
            top = [-np.abs(want).max(), np.abs(want).max()]
            if p['lim']:
                top = [-0.02, 0.02]
                o['vmax'] = 0.02
            ax = sim.plt_diff(**o)
        else:
            want = eps
            top = [want.min(), want.max()]
            ax = sim.plt_eps(**o)
        name = 'plt_' + what + (' of nonlinear fields' if nl else '')
        want = np.concatenate([want]*tile, axis=1)
        got, im = screen(ctx, ax, name)
        ctx.close(got, want, 1e-12, name + ': values shown', scale=np.abs(want).max() + (1 if what == 'diff' else 0) + 1e-300)
        clim = im.norm.vmin, im.norm.vmax
        if top[1] - top[0] > 1e-9*max(abs(top[0]), abs(top[1])):        # matplotlib widens a range that is empty
            ctx.close(clim, top, 1e-12, name + ': color limits', scale=max(abs(top[0]), abs(top[1])))
        if what == 'abs':
            ctx.check(isinstance(im.norm, LogNorm) == bool(p['log']), name + ': scale is %s' % type(im.norm).__name__)
        else:
            ctx.check(not isinstance(im.norm, LogNorm), name + ': logarithmic')
        ctx.check((im.colorbar is not None) == o.get('cbar', True), name + ': colorbar %s' % (im.colorbar is not None))
        if own is not None:
            ctx.check(ax is own, name + ': not on the given axes')
        if not o.get('outline', True):
            ctx.check(len(ax.collections) == 0, name + ': outline drawn though not asked for')
        elif min(want.shape) > 1:
            ctx.check(len(ax.collections) > 0, name + ': no outline')
            n = outline(ctx, ax, np.concatenate([eps]*tile, axis=1), name)
            ctx.label('outline' if n else 'empty outline')
        ctx.label(name)
        plt.close('all')
    unchanged(ctx, sim, snap)
    ctx.nontrivial(case['nx'] != case['ny'] and np.ptp(np.abs(lin)) > 0)


def unsolved(case, ctx):
    import matplotlib.pyplot as plt
    sim = gen.make(case)
    snap = snapshot(sim)
    for nl in (False, True):
        ctx.raises(ValueError, lambda: sim.plt_abs(nl=nl), 'magnitude before solving')
        ctx.raises(ValueError, lambda: sim.plt_re(nl=nl), 'real part before solving')
    sim.plt_eps()
    unchanged(ctx, sim, snap)
    plt.close('all')
    if case['then'] == 'lin':
        sim.solve_fields()
        sim.plt_abs()
        sim.plt_re()
        ctx.raises(ValueError, lambda: sim.plt_abs(nl=True), 'magnitude of nonlinear fields before solving')
        ctx.raises(ValueError, lambda: sim.plt_re(nl=True), 'real part of nonlinear fields before solving')
    elif case['then'] == 'stale':
        sim.solve_fields()
        sim.eps_r = sim.eps_r + 0.5
        ctx.raises(ValueError, lambda: sim.plt_abs(), 'magnitude after the permittivity was changed')
        ctx.raises(ValueError, lambda: sim.plt_re(), 'real part after the permittivity was changed')
    plt.close('all')
    ctx.label(case['then'])
    ctx.nontrivial()


class Recorder:
    """stands in for a movie writer"""

    def __new__(cls, ctx, box):
        from matplotlib.animation import AbstractMovieWriter

        class Writer(AbstractMovieWriter):
            def setup(self, fig, outfile, dpi=None):
                super().setup(fig, outfile, dpi)

            def grab_frame(self, **kw):
                S, im = screen(ctx, self.fig.axes[0], 'animation')
                box.append((S.copy(), im.get_clim()))

            def finish(self):
                pass
        return Writer()


def animation(case, ctx):
    import matplotlib.pyplot as plt
    from angler.plot import plt_base_ani
    plt.close('all')
    r = np.random.RandomState(case['seed'])
    F = (r.standard_normal((case['nx'], case['ny'])) + 1j*r.standard_normal((case['nx'], case['ny'])))*case['size']
    keep = F.copy()
    N = case['N']
    kw = {} if N == 40 else {'Nframes': N}
    if case['interval']:
        kw['interval'] = case['interval']
    ani = plt_base_ani(F, **kw)
    frames = []
    ani.save('unused', writer=Recorder(ctx, frames))
    ctx.check(len(frames) == N, '%d frames, should be %d' % (len(frames), N))
    top = np.abs(F).max()
    for k, (S, clim) in enumerate(frames):
        want = F.real*np.cos(2*np.pi*k/(N - 1)) - F.imag*np.sin(2*np.pi*k/(N - 1))
        ctx.close(S, want, 1e-12, 'frame %d of %d' % (k, N), scale=top)
        ctx.close(clim, (-top, top), 1e-12, 'limits of frame %d' % k, scale=top)
    ctx.check(np.array_equal(F, keep), 'the field was changed')
    plt.close('all')
    ctx.nontrivial(case['nx'] != case['ny'])


def curves(case, ctx):
    import matplotlib.pyplot as plt
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    plt.close('all')
    r = np.random.RandomState(case['seed'])
    sim = gen.make(case)
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)), obj_arg('e', component=case['pol'])), sim, np.ones(sim.eps_r.shape), eps_m=4)
    n = case['n']
    objs = list(r.standard_normal(n))
    amps = list(np.exp(r.standard_normal(n)))
    o.objfn_list, o.src_amplitudes = list(objs), list(amps)
    snap = snapshot(sim)
    for norm in (None, 'field', 'power', 'default'):
        own = plt.subplots()[1] if case['own'] else None
        kw = {} if norm == 'default' else {'norm': norm}
        if own is not None:
            kw['ax'] = own
        ax = o.plt_objs(**kw)
        if own is not None:
            ctx.check(ax is own, 'not on the given axes')
        want = np.array(objs)
        if norm == 'field':
            want = want/np.array(amps)
        if norm == 'power':
            want = want/np.array(amps)**2
        ctx.check(len(ax.lines) == 1, '%d curves' % len(ax.lines))
        ctx.close(np.asarray(ax.lines[0].get_xdata(), float), np.arange(1, n + 1.0), 1e-12, 'iterations (%s)' % norm)
        ctx.close(np.asarray(ax.lines[0].get_ydata(), float), want, 1e-12, 'objectives (%s)' % norm)
        plt.close('all')
    ctx.check(o.objfn_list == objs and o.src_amplitudes == amps, 'the record was changed')
    # transmissions
    T = [list(r.random_sample(case['m'])) for _ in range(case['ports'])]
    K = [list(t) for t in T]
    names = ['port %d' % i for i in range(len(T))] if case['legend'] else None
    fig = plt.figure()
    o.plot_transmissions(T, legend=names) if names else o.plot_transmissions(T)
    ax = fig.axes[0]
    ctx.check(len(ax.lines) == len(T), '%d transmissions plotted, should be %d' % (len(ax.lines), len(T)))
    for line, t in zip(ax.lines, K):
        ctx.close(np.asarray(line.get_ydata(), float), np.array(t), 1e-12, 'transmission')
    if names:
        ctx.check([t.get_text() for t in ax.get_legend().get_texts()] == names, 'legend')
    ctx.check(T == K, 'transmissions were changed')
    plt.close('all')
    unchanged(ctx, sim, snap)
    ctx.nontrivial(n > 1)


@st.composite
def plots(draw):
    o = {}
    for k in ('cbar', 'outline'):
        v = draw(st.sampled_from([None, True, False]))
        if v is not None:
            o[k] = v
    return {'what': draw(st.sampled_from(['abs', 're', 'diff', 'eps'])), 'o': o, 'nl': draw(st.booleans()), 'tile': draw(st.sampled_from([1, 1, 2, 3, 5])),
            'explicit': draw(st.booleans()), 'own': draw(st.booleans()), 'log': draw(st.booleans()), 'lim': draw(st.sampled_from([0, 0, 1, 2])),
            'norm': draw(st.sampled_from([None, True, False]))}


@st.composite
def cases(draw):
    c = draw(gen.sims(nmax=14, pml_max=3, interior=2, max_pts=2))
    c.update(nl=draw(st.booleans()), strength=draw(st.sampled_from([1e-3, -1e-2, 0.03])), seed=draw(gen.SEEDS),
             plots=[draw(plots()) for _ in range(draw(st.integers(1, 4)))])
    return c


@st.composite
def early(draw):
    c = draw(gen.sims(nmax=9, pml_max=2, interior=2, max_pts=1, nmin=2))
    c['then'] = draw(st.sampled_from(['lin', 'stale', 'no']))
    return c


@st.composite
def anis(draw):
    return {'nx': draw(st.integers(1, 12)), 'ny': draw(st.integers(1, 12)), 'seed': draw(gen.SEEDS), 'size': draw(st.sampled_from([1.0, 1e-6, 1e5])),
            'N': draw(st.sampled_from([2, 3, 5, 8, 13, 40])), 'interval': draw(st.sampled_from([0, 10]))}


@st.composite
def records(draw):
    c = draw(gen.sims(nmax=6, pml_max=1, interior=2, max_pts=1, nmin=2))
    c.update(n=draw(st.integers(1, 12)), seed=draw(gen.SEEDS), own=draw(st.booleans()), m=draw(st.integers(1, 8)), ports=draw(st.integers(1, 4)),
             legend=draw(st.booleans()))
    return c


TESTS = [Prop('images', cases(), images, 220), Prop('unsolved', early(), unsolved, 40), Prop('animation', anis(), animation, 40),
         Prop('curves', records(), curves, 60)]
