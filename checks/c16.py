"""C16: density filter and projection."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt

RULE = """Random grids, design regions (any shape, several dtypes), absorbing layers, radii (also larger than the domain, and up to 12 on thousands of cells), steepnesses, thresholds
and densities: the filter matrix of an optimization and the filter functions against a brute-force reference, the projection against its
formula and its laws, the permittivity an optimization gives to a density (a run with steps of size zero) against the reference.
Non-trivial: at least one design cell is filtered (filter, applied), a density strictly between 0 and 1 (projection)."""
ASSUMPTIONS = ["a neighbourhood 'fits' along an absorbing direction if the cell is more than R+1 cells away from the layer, as in the code",
               "radii are integers, design regions 0/1 masks"]


def filters(case, ctx):
    from angler.filter import get_W, rho2rhot
    nx, ny, R = case['nx'], case['ny'], case['R'] or 0
    des = opt.mask(case)
    given = des.astype({'float': float, 'int': int, 'bool': bool}[case['dtype']])
    keep = given.copy()
    W = get_W(nx, ny, given, case['npml'], R=R)
    ctx.check(np.array_equal(keep, given), 'the design region was changed')
    ref = opt.filter_matrix(nx, ny, des, case['npml'], R)
    ctx.check(W.shape == ref.shape, 'shape %s' % (W.shape,))
    r = np.random.RandomState(case['rho'])
    rho = r.random_sample((nx, ny))
    want = (ref @ rho.ravel()).reshape(nx, ny)
    got = rho2rhot(rho, W)
    ctx.close(got, want, 1e-12, 'filtered density')
    ctx.close(np.asarray(W.todense(), dtype=complex), ref.astype(complex), 1e-12, 'filter weights')
    ctx.check(got.min() >= rho.min() - 1e-12 and got.max() <= rho.max() + 1e-12, 'filtered density outside the range of the density')
    ctx.close(rho2rhot(np.full((nx, ny), 0.37), W), np.full((nx, ny), 0.37), 1e-12, 'filtered uniform density')
    n = int(np.sum(np.abs(ref - np.eye(nx*ny)).sum(1) > 0))
    ctx.label('filtered' if n else 'nothing filtered')
    if R and (case['npml'][0] == 0 or case['npml'][1] == 0):
        ctx.label('periodic')
    ctx.nontrivial(n > 0)


def wide(case, ctx):
    """grids of thousands of cells and radii up to 12: what the filter does to densities, against shifted sums"""
    from angler.filter import get_W, rho2rhot
    nx, ny, R = case['nx'], case['ny'], case['R']
    des = opt.mask(case)
    W = get_W(nx, ny, opt.typed(case, des), case['npml'], R=R)
    fits = []
    for n, p in zip((nx, ny), case['npml']):
        i = np.arange(n)
        fits.append((i > R + p) & (i < n - R - 1 - p) if p else i >= 0)
    on = (des == 1) & fits[0][:, None] & fits[1][None, :]
    for k in range(2):
        rho = np.random.RandomState(case['rho'] + k).random_sample((nx, ny))
        total = np.zeros((nx, ny))
        weight = 0.0
        for i in range(-R, R + 1):
            for j in range(-R, R + 1):
                v = R - np.hypot(i, j)
                if v > 0:
                    total += v*np.roll(np.roll(rho, -i, 0), -j, 1)
                    weight += v
        want = np.where(on, total/weight, rho)
        ctx.close(rho2rhot(rho, W), want, 1e-11, 'filtered density, radius %d' % R)
    # by way of an optimization
    from angler import Simulation, Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    sim = Simulation(2e14, np.ones((nx, ny)), 0.05, list(case['npml']), 'Ez')
    sim.rho = rho.copy()
    o = Optimization(Objective(lambda e: npa.sum(npa.abs(e)**2), obj_arg('e')), sim, opt.typed(case, des), eps_m=case['eps_m'],
                     R=R, beta=case['beta'], eta=case['eta'])
    o.run(method='gd', Nsteps=1, step_size=0.0)
    ctx.close(sim.eps_r, np.where(des == 1, 1 + (case['eps_m'] - 1)*opt.project(want, case['eta'], case['beta']), 1.0), 1e-9,
              'permittivity of a density, radius %d' % R)
    ctx.label('radius %d' % R)
    ctx.nontrivial(on.any())


def projection(case, ctx):
    from angler import filter as f
    beta, eta, eps_m = case['beta'], case['eta'], case['eps_m']
    rho = np.sort(np.array(case['values'] + [0.0, 1.0]))
    rho = rho.reshape((-1, 1))
    keep = rho.copy()
    b = f.rhot2rhob(rho, eta=eta, beta=beta)
    ctx.check(np.array_equal(keep, rho), 'the density was changed')
    want = opt.project(rho, eta, beta)
    ctx.close(b, want, 1e-9 if beta < 1e-6 else 1e-12, 'projected density', scale=1.0)
    ctx.close(b[[0, -1], 0], np.array([0.0, 1.0]), 1e-12, 'projection of 0 and 1', scale=1.0)
    ctx.check(np.all(np.diff(b[:, 0]) >= -1e-12), 'the projection is not monotonic')
    ctx.check(b.min() >= -1e-12 and b.max() <= 1 + 1e-12, 'projected density outside of [0, 1]')
    if eta == 0.5:
        ctx.close(f.rhot2rhob(1 - rho, eta=eta, beta=beta), 1 - b, 1e-9, 'projection of 1 - rho', scale=1.0)
    # permittivity
    eye = np.eye(rho.size)
    import scipy.sparse as sp
    W = sp.csr_matrix(eye)
    e = f.rho2eps(rho=rho, eps_m=eps_m, W=W, eta=eta, beta=beta)
    ctx.close(e, 1 + (eps_m - 1)*want, 1e-9, 'permittivity of a density')
    ctx.check(e.min() >= 1 - 1e-9*eps_m and e.max() <= eps_m*(1 + 1e-9), 'permittivity outside of [1, eps_m]')
    e0 = f.rho2eps(rho=rho, eps_m=eps_m, W=W, eta=eta, beta=1e-9)
    ctx.close(f.eps2rho(e0, eps_m), rho, 1e-7, 'density of a permittivity', scale=1.0)
    ctx.close(f.eps2rho(1 + (eps_m - 1)*rho, eps_m), rho, 1e-12, 'density of a permittivity', scale=max(1.0, eps_m/(eps_m - 1)))
    # derivative of the projection
    h = 1e-4/max(1, beta)
    num = (opt.project(rho + h, eta, beta) - opt.project(rho - h, eta, beta))/(2*h)
    got = np.asarray(f.drhob_drhot(rho, eta=eta, beta=beta)).reshape(rho.shape)
    ctx.close(got, num, 1e-6, 'derivative of the projection', scale=max(1.0, beta))
    ctx.label('beta %g' % beta)
    ctx.nontrivial(np.any((rho > 0) & (rho < 1)))


def applied(case, ctx):
    """an optimization gives the design region the permittivity of its filtered, projected density"""
    p = opt.Problem(case)
    sim = gen.make(case, eps=p.eps0.copy())
    start = np.where(p.des == 1, 1 + (case['eps_m'] - 1)*p.rho, p.eps0)
    sim.eps_r = start.copy()
    sim.init_design_region(opt.typed(case, p.des), case['eps_m'])
    F = dict(zip(gen.names(case['pol']), gen.make(case, eps=start.copy()).solve_fields()))
    J = opt.make_J(case, [10*v for v in opt.scales(opt.pick(case, F))])
    o = p.optimization(opt.make_objective(case, J), sim)
    o.run(method='gd', Nsteps=1, step_size=0.0)
    ctx.close(sim.eps_r, p.eps(), 1e-9, 'permittivity after a step of size zero')
    ctx.close(sim.rho + 0.0, p.rho, 1e-9, 'density after a step of size zero')
    inside = sim.eps_r[p.des == 1]
    if case['R'] is None:
        ctx.check(np.real(inside).min() >= 1 - 1e-9*case['eps_m'] and np.real(inside).max() <= case['eps_m']*(1 + 1e-9),
                  'permittivity outside of [1, eps_m]')
    ctx.close(sim.eps_r[p.des != 1], p.eps0[p.des != 1], 1e-13, 'permittivity outside of the design region')
    n = np.abs(p.W - np.eye(p.des.size)).sum()
    ctx.label('filtered' if n else 'nothing filtered')
    ctx.nontrivial(n > 0)


@st.composite
def grids(draw):
    inner = draw(st.sampled_from([1, 8, 12]))
    nx, px = draw(gen.axes(nmin=1, nmax=20, pml_max=3, interior=inner))
    ny, py = draw(gen.axes(nmin=1, nmax=20, pml_max=3, interior=inner))
    c = {'nx': nx, 'ny': ny, 'npml': [px, py]}
    c = draw(opt.designs(c))
    c['R'] = draw(st.sampled_from([2, 3, 4, 2, 3, 6, 1, 0]))
    c['dtype'] = draw(st.sampled_from(['float', 'int']))
    return c


@st.composite
def wide_grids(draw):
    R = draw(st.integers(2, 12))
    n, p = [], []
    for _ in range(2):
        p.append(draw(st.sampled_from([0, 0, 2, 10, 15])))
        n.append(draw(st.integers(20, 45)) if p[-1] == 0 else 2*p[-1] + 2*R + 2 + draw(st.integers(1, 25)))
    c = draw(opt.designs({'nx': n[0], 'ny': n[1], 'npml': p}))
    c['R'] = R
    return c


@st.composite
def projections(draw):
    return {'beta': draw(st.sampled_from([1e-9, 0.1, 0.5, 1.0, 3.0, 10.0, 100.0, 500.0])),
            'eta': draw(st.sampled_from([0.5, 0.5, 0.3, 0.1, 0.0, 1.0, 0.8])),
            'eps_m': draw(gen.dec(1.1, 14)), 'values': draw(st.lists(gen.dec(0, 1, 3), min_size=1, max_size=12))}


@st.composite
def problems(draw):
    c = draw(gen.sims(nmax=18, pml_max=3, lossy=False, eps_hi=6.0, interior=draw(st.sampled_from([4, 8, 11]))))
    c = draw(opt.designs(c))
    return draw(opt.objectives(c, opt.LIN[c['pol']], max_args=1))


TESTS = [Prop('filter', grids(), filters, 640),
         Prop('wide', wide_grids(), wide, 48),
         Prop('projection', projections(), projection, 1000),
         Prop('applied', problems(), applied, 480)]
