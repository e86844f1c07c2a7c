"""C27: live plotting touches only its own folder."""
import os, sys, shutil, tempfile, hashlib
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop, HarnessError
from vlib import gen, opt

RULE = """Random folder contents (images and other files, hidden ones, subdirectories with files, links) inside a scratch directory, random plot choices,
intervals, methods and problems, the folder with and without trailing slash; the directory tree before and after is compared entry by entry, the images are opened, what is on the panels of the figures
that are saved is compared with fields of new simulations of the state at that time, and every call that could
change the file system elsewhere is stopped and recorded by an audit hook.  The same run without plots must take the same steps.  Unknown methods leave
the folder alone.  Non-trivial: the folder held a file and a subdirectory or a link, and an image was written."""
ASSUMPTIONS = ["nonlinear fields are plotted only for nonlinear objectives"]

WATCH = {'active': None, 'bad': []}
SEEN = {'shown': None, 'o': None, 'first': 0}
SAVE = []


def record(fig):
    """what is on the panels of a figure that is being saved, and the state of the simulation at that time"""
    o = SEEN['o']
    sim = o.simulation
    panels = []
    for ax in fig.axes:
        im = [np.ma.filled(np.ma.asarray(h.get_array(), dtype=float), np.nan) for h in ax.get_images()]
        panels.append((im, [np.array(h.get_ydata(), dtype=float) for h in ax.get_lines()],
                       [h.get_clim() for h in ax.get_images()]))
    SEEN['shown'].append((panels, sim.eps_r.copy(), sim.src.copy(), list(o.objfn_list)))


def savefig(fig, *args, **kw):
    if SEEN['shown'] is not None:
        record(fig)
    return SAVE[0](fig, *args, **kw)
HOOKED = []
PATHS = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 1, 'os.rename': 2, 'os.link': 2, 'os.symlink': 2, 'os.truncate': 1, 'os.chmod': 1, 'os.chown': 1,
         'shutil.rmtree': 1, 'shutil.move': 2, 'os.utime': 1}


def hook(event, args):
    root = WATCH['active']
    if root is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
            (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not writing:
            return
        paths = [path]
    elif event in PATHS:
        paths = args[:PATHS[event]]
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn'):
        WATCH['bad'].append('%s %s' % (event, args[0]))
        raise PermissionError('not during this check')
    else:
        return
    for p in paths:
        if not isinstance(p, (str, bytes, os.PathLike)):
            continue
        q = os.fsdecode(p)
        full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(q))), os.path.basename(os.path.abspath(q)))
        if not (full + '/').startswith(root + '/') and q not in ('/dev/null',):
            WATCH['bad'].append('%s %s' % (event, q))
            raise PermissionError('%s outside of the scratch directory: %s' % (event, q))


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = 'link ' + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = 'dir'
            else:
                out[rel] = 'file ' + hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out


def populate(root, case):
    """fills the scratch directory; returns the folder as handed to the code, relative to root"""
    os.makedirs(root)
    for d in ('outside', 'outside/sub', 'other'):
        os.makedirs(os.path.join(root, d))
    for f in ('keep.txt', 'it000000.png', 'outside/a.png', 'outside/sub/b', 'other/it000001.png'):
        open(os.path.join(root, f), 'w').write('precious ' + f)
    folder = case['folder']
    if case['exists']:
        p = os.path.join(root, folder)
        os.makedirs(p, exist_ok=True)
        for kind in case['content']:
            if kind in ('it000000.png', 'it000007.png', '.hidden', 'notes.txt', 'no extension', 'it000001.png'):
                open(os.path.join(p, kind), 'w').write('left over')
            elif kind == 'empty':
                os.makedirs(os.path.join(p, 'empty'))
            elif kind == 'dir':
                os.makedirs(os.path.join(p, 'dir', 'deep'))
                open(os.path.join(p, 'dir', 'it000000.png'), 'w').write('in a subdirectory')
                open(os.path.join(p, 'dir', 'deep', 'x'), 'w').write('deeper')
            elif kind == 'png dir':
                os.makedirs(os.path.join(p, 'old.png'))
                open(os.path.join(p, 'old.png', 'y'), 'w').write('directory named like an image')
            elif kind == 'link to dir':
                os.symlink(os.path.join(root, 'outside'), os.path.join(p, 'linked'))
            elif kind == 'link to file':
                os.symlink(os.path.join(root, 'keep.txt'), os.path.join(p, 'linked.txt'))
            elif kind == 'read only':
                open(os.path.join(p, 'ro.png'), 'w').write('read only')
                os.chmod(os.path.join(p, 'ro.png'), 0o400)
    return folder


def problem(case):
    from angler import Simulation
    import autograd.numpy as npa
    sim = gen.make(case)
    nx, ny = case['nx'], case['ny']
    if case['mode']:
        sim.src = np.zeros((nx, ny), dtype=complex)
        eps = sim.eps_r.copy()
        eps[:, ny//2 - 2:ny//2 + 2] = 6.0
        sim.eps_r = eps
        sim.add_mode(2.2, 'x', [case['npml'][0] + 2, ny//2], max(ny - 2*case['npml'][1] - 2, 4))
        sim.setup_modes()
    des = np.zeros((nx, ny))
    des[nx//2 - 1:nx//2 + 3, ny//2 - 2:ny//2 + 2] = 1
    sim.init_design_region(des, 5.0, 'halfway')
    E = sim.solve_fields()[2]
    top = np.abs(E).max()
    nl = case['enl']
    if nl:
        sim.add_nl(1e-3*case['L0']**2/top**2, des)
    from angler.objective import Objective, obj_arg
    w = np.zeros((nx, ny))
    w[-case['npml'][0] - 3, ny//2 - 2:ny//2 + 2] = 1/top**2
    J = lambda e: npa.sum(w*npa.square(npa.abs(e)))
    return sim, des, Objective(J, obj_arg('e', component=case['pol'], nl=nl)), top


def execute(case, temp):
    from angler import Optimization
    sim, des, objective, top = problem(case)
    o = Optimization(objective, sim, des, eps_m=5.0, R=case['R'], beta=case['beta'])
    kw = {'temp_plt': temp} if temp is not None else {}
    first = 0
    for method in case['before']:
        # an earlier run of the same optimization
        o.run(method=method, Nsteps=2, step_size=case['step'], **(kw if case['live before'] else {}))
        first = len(o.objfn_list)
    SEEN['o'] = o
    if temp is not None:
        SEEN['shown'] = []
    o.run(method=case['method'], Nsteps=case['Nsteps'], step_size=case['step'], **kw)
    return o, sim, top, first


def content(case, ctx, shown, images, plot_what, sim, first, vlims):
    ctx.check(len(shown) == len(images), '%d figures for %d images' % (len(shown), len(images)))
    for (panels, eps, src, objs), name in zip(shown, images):
        it = int(name[2:8])
        ctx.check(len(panels) >= len(plot_what), '%s: %d panels for %s' % (name, len(panels), plot_what))
        ctx.check(len(objs) == first + it + 1, '%s: %d objectives recorded, should be %d' % (name, len(objs), first + it + 1))
        now = None
        for (im, lines, clim), what in zip(panels, plot_what):
            if what == 'of':
                ctx.check(len(lines) == 1 and not im and len(lines[0]) == len(objs) and np.array_equal(lines[0], np.array(objs, float)),
                          '%s: panel %s shows %s, should show %s' % (name, what, [list(v) for v in lines], objs))
                continue
            ctx.check(len(im) == 1, '%s: %d images on panel %s' % (name, len(im), what))
            if what == 'eps':
                want = np.abs(eps)
            else:
                if now is None:
                    now = gen.make(case, eps=eps, src=src)
                    now.nonlinearity = sim.nonlinearity
                for k, what_limit in enumerate(('lower', 'upper')):
                    ctx.check(vlims[k] is None or abs(clim[0][k] - vlims[k]) <= 1e-9*abs(vlims[k]), '%s: %s limit of panel %s is %.6g, should be %s'
                              % (name, what_limit, what, clim[0][k], vlims[k]))
                want = np.abs((now.solve_fields_nl() if what == 'enl' else now.solve_fields())[2])
            ctx.close(im[0].T, want, 1e-7, '%s: panel %s' % (name, what))


def live(case, ctx):
    import matplotlib.pyplot as plt
    from angler.plot import Temp_plt
    from PIL import Image
    base = os.environ['VERIF_SCRATCH']
    root = os.path.join(os.path.realpath(tempfile.mkdtemp(dir=base)), 'd')
    here = os.getcwd()
    # reference run, which also makes matplotlib load what it needs
    o0, s0, top, _ = execute(case, None)
    fig = plt.figure()
    fig.text(0, 0, 'x')
    fig.savefig(os.path.join(os.path.dirname(root), 'warm.png'))
    os.remove(os.path.join(os.path.dirname(root), 'warm.png'))
    plt.close('all')
    if not HOOKED:
        from matplotlib.figure import Figure
        SAVE.append(Figure.savefig)
        Figure.savefig = savefig
        sys.addaudithook(hook)
        HOOKED.append(1)
    try:
        folder = populate(root, case)
        before = tree(root)
        os.chdir(root)
        plot_what = [p for p in case['what'] if p != 'enl' or case['enl']] or ['eps']
        kw = {'plot_what': tuple(plot_what) if case['tuple'] else plot_what, 'dpi': case['dpi'], 'figsize': tuple(case['figsize'])}
        if case['it_plot'] > 1 or case['explicit']:
            kw['it_plot'] = case['it_plot']
        if folder != 'figs/data/temp_im/' or case['explicit']:
            kw['folder'] = (os.path.join(root, folder) if case['absolute'] else folder)
        if case['vlims']:
            kw['vlims'] = (1e-3*top, None) if case['vlims'] == 1 else (None, 5*top)
        temp = Temp_plt(**kw)
        WATCH['bad'] = []
        WATCH['active'] = root
        try:
            if case['bad_method']:
                from angler import Optimization
                sim, des, objective, _ = problem(case)
                o = Optimization(objective, sim, des, eps_m=5.0)
                ctx.raises(ValueError, lambda: o.run(method='nonsense', Nsteps=1, temp_plt=temp), 'unknown method')
            else:
                o, s, _, first = execute(case, temp)
        except Exception:
            ctx.check(not WATCH['bad'], 'outside of its folder: ' + '; '.join(WATCH['bad'][:3]))
            raise
        finally:
            WATCH['active'] = None
            shown, SEEN['shown'] = SEEN['shown'], None
        ctx.check(not WATCH['bad'], 'outside of its folder: ' + '; '.join(WATCH['bad'][:3]))
        after = tree(root)
        if case['bad_method']:
            ctx.check(after == before, 'the rejected run changed %s' % sorted(set(after.items()) ^ set(before.items()))[:3])
            ctx.label('rejected')
            ctx.nontrivial(len(case['content']) > 0)
            return
        rel = os.path.normpath(folder)
        steps = len(o.objfn_list) - first       # of this run
        want = {k: v for k, v in before.items() if os.path.dirname(k) != rel or v == 'dir'
                or (v.startswith('link') and os.path.isdir(os.path.join(root, k)))}
        images = ['it%06d.png' % i for i in range(steps) if i % case['it_plot'] == 0]
        for i, part in enumerate(rel.split('/')):
            want['/'.join(rel.split('/')[:i + 1])] = 'dir'
        got = {k: v for k, v in after.items() if not (os.path.dirname(k) == rel and os.path.basename(k) in images)}
        for k in sorted(set(want) | set(got)):
            ctx.check(want.get(k) == got.get(k), '%s: was %s, should be %s, is %s' % (k, before.get(k), want.get(k), got.get(k)))
        for n in images:
            p = os.path.join(root, rel, n)
            ctx.check(os.path.isfile(p), 'no image %s (%d iterations, every %d)' % (n, steps, case['it_plot']))
            with Image.open(p) as im:
                im.load()
                wantsize = tuple(int(round(v*case['dpi'])) for v in case['figsize'])
                ctx.check(im.format == 'PNG' and all(abs(a - b) <= 1 for a, b in zip(im.size, wantsize)),
                          '%s: %s of %s pixels, should be %s' % (n, im.format, im.size, wantsize))
                ctx.check(len(set(im.convert('L').tobytes())) > 1, n + ' is blank')
        content(case, ctx, shown, images, plot_what, s, first, kw.get('vlims', (None, None)))
        # the same steps
        ctx.check(len(o0.objfn_list) == len(o.objfn_list), '%d iterations with plots, %d without' % (len(o.objfn_list), len(o0.objfn_list)))
        if steps:
            ctx.close(np.array(o.objfn_list), np.array(o0.objfn_list), 1e-8, 'objectives with and without plots')
        ctx.close(s.rho, s0.rho, 1e-8, 'density with and without plots', scale=1)
        ctx.close(s.eps_r, s0.eps_r, 1e-8, 'permittivity with and without plots')
        ctx.close(s.src, s0.src, 1e-8, 'source with and without plots')
        ctx.label(case['method'])
        ctx.label('mode' if case['mode'] else case['pol'])
        ctx.nontrivial(case['exists'] and len(case['content']) > 1 and len(images) > 0)
    finally:
        WATCH['active'] = None
        os.chdir(here)
        plt.close('all')
        shutil.rmtree(os.path.dirname(root))


@st.composite
def cases(draw):
    mode = draw(st.booleans())
    c = draw(gen.sims(pols=('Ez',) if mode else ('Ez', 'Hz'), nmax=24, pml_max=5, interior=10, force_pml=True, lossy=False, noise=False, max_pts=1,
                      src_inside=True, ppw=(10, 20), eps_hi=6.0))
    c['mode'] = mode
    c['enl'] = c['pol'] == 'Ez' and draw(st.integers(0, 3)) == 0
    c['method'] = draw(st.sampled_from(['GD', 'ADAM', 'LBFGS', 'gd', 'lbfgs']))
    c['Nsteps'] = draw(st.integers(1, 5))
    c['step'] = draw(st.sampled_from([0.01, 0.1]))
    c['R'] = draw(st.sampled_from([None, None, 2]))
    c['beta'] = draw(st.sampled_from([1e-9, 2.0]))
    c['it_plot'] = draw(st.sampled_from([1, 1, 2, 3, 7]))
    c['what'] = draw(st.lists(st.sampled_from(['eps', 'of', 'elin', 'enl']), min_size=1, max_size=4, unique=True))
    c['tuple'], c['explicit'], c['absolute'] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    c['dpi'] = draw(st.sampled_from([20, 40, 50]))
    c['figsize'] = draw(st.sampled_from([[4, 4], [5, 3], [6, 4]]))
    c['vlims'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    c['folder'] = draw(st.sampled_from(['figs/data/temp_im/', 'out/', 'a/b/c/', 'with space/im/', 'figs/', 'out', 'a/b', './x y', 'figs/data/temp_im']))
    c['exists'] = draw(st.integers(0, 3)) > 0
    c['content'] = draw(st.lists(st.sampled_from(['it000000.png', 'it000007.png', 'it000001.png', '.hidden', 'notes.txt', 'no extension', 'empty', 'dir', 'png dir',
                                                  'link to dir', 'link to file', 'read only']), max_size=6, unique=True))
    c['before'] = draw(st.sampled_from([[], [], ['GD'], ['ADAM'], ['LBFGS']]))
    c['live before'] = draw(st.booleans())
    c['bad_method'] = draw(st.integers(0, 7)) == 0
    return c


TESTS = [Prop('live', cases(), live, 240)]
