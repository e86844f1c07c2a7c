"""C05: absorbing layers emulate open space."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import hankel2
from vlib.harness import Prop
from vlib import gen

RULE = """Uniform media in one and two dimensions against the outgoing wave of a sheet or point current, and random structures
against the same structure in a domain with more background on each side.  Layers of 10 to 20 cells, 12 to 40 cells per wavelength.
Non-trivial: the source is between the layers and at least 4 cells are compared; for the enlarged domain at least one side was
enlarged and the structure is not uniform."""
ASSUMPTIONS = ["layers are at least 10 cells thick and the wavelength in the background is 12 to 40 cells: for these the reflection is below the tolerances (measured: 1e-4 in one, 2e-4 in two dimensions; allowed: 5e-4 and 2e-3)",
               "structures do not reach into the layers",
               "the two-dimensional wave of a point source is that of the continuum: compared within 3% plus 1.5 times the numerical dispersion (k dl)^2/24 k r"]


def medium(case):
    """omega, dl with case['ppw'] cells per wavelength in the background"""
    omega = 2*np.pi*gen.C0/(case['lam']*case['L0'])
    return omega, case['lam']/np.sqrt(case['bg'])/case['ppw']


def simulation(case, eps, src, npml):
    from angler import Simulation
    omega, dl = medium(case)
    sim = Simulation(omega, eps, dl, list(npml), case['pol'], L0=case['L0'])
    sim.src = src
    return sim


def sheet(case, ctx):
    p, n = case['p'], case['n'] + 2*case['p']
    axis = case['axis']
    shape = (n, 1) if axis == 0 else (1, n)
    if case['extruded']:
        shape = (n, case['extruded']) if axis == 0 else (case['extruded'], n)
    omega, dl = medium(case)
    J = complex(*case['J'])
    src = np.zeros(shape, complex)
    i0 = p + case['i0']
    src[(i0, slice(None)) if axis == 0 else (slice(None), i0)] = J
    sim = simulation(case, np.ones(shape)*case['bg'], src, [p, 0] if axis == 0 else [0, p])
    F = sim.solve_fields()[2]
    k = omega*np.sqrt(gen.EPS0*gen.MU0*case['bg'])*case['L0']
    theta = 2*np.arcsin(k*dl/2)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0*case['bg'])*case['L0']
    A = -omega*m*dl**2*J/(2*np.sin(theta))
    ref = A*np.exp(-1j*theta*np.abs(np.arange(n) - i0))
    F = np.moveaxis(F, axis, 0)[p:n - p]
    ctx.close(F, np.repeat(ref[p:n - p, None], F.shape[1], 1), 5e-4, 'outgoing wave of a sheet current', scale=abs(A))
    ctx.label('%s axis %d' % (case['pol'], axis))
    ctx.nontrivial(case['n'] >= 4)


def point(case, ctx):
    p = case['p']
    n = (case['nx'] + 2*p, case['ny'] + 2*p)
    omega, dl = medium(case)
    i0, j0 = p + case['i0'], p + case['j0']
    src = np.zeros(n, complex)
    J = complex(*case['J'])
    src[i0, j0] = J
    F = simulation(case, np.ones(n)*case['bg'], src, [p, p]).solve_fields()[2]
    k = omega*np.sqrt(gen.EPS0*gen.MU0*case['bg'])*case['L0']
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0*case['bg'])*case['L0']
    x, y = np.indices(n)
    r = np.hypot(x - i0, y - j0)*dl
    ref = -omega*m/4*hankel2(0, k*np.maximum(r, dl))*dl**2*J
    inside = np.zeros(n, bool)
    inside[p:n[0] - p, p:n[1] - p] = True
    inside &= r > 3.5*dl
    rel = np.abs(F - ref)/np.abs(ref)
    bad = inside & (rel > 0.03 + 1.5*(k*dl)**2/24*k*r)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail('field of a point source at %s (%s cells away): got %s, outgoing wave %s' % (i, r[i]/dl, F[i], ref[i]))
    ctx.label(case['pol'])
    ctx.nontrivial(inside.sum() >= 4)


def enlarged(case, ctx):
    p = case['p']
    nx, ny = case['nx'], case['ny']
    eps, src = gen.build_eps(case['eps'], nx, ny), gen.build_src(case['src'], nx, ny)
    out = []
    m = 3                               # cells of background between the structure and the layers
    for e in ((0, 0, 0, 0), case['extra']):
        w = ((p + m + e[0], p + m + e[1]), (p + m + e[2], p + m + e[3]))
        sim = simulation(case, np.pad(eps, w, constant_values=case['bg']), np.pad(src, w), [p, p])
        F = sim.solve_fields()
        out.append([f[w[0][0] - m:w[0][0] + nx + m, w[1][0] - m:w[1][0] + ny + m] for f in F])
    omega, dl = medium(case)
    mm = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    for k, name in enumerate(gen.names(case['pol'])):
        sc = np.abs(out[0][2]).max()
        if k < 2:
            sc = max(np.abs(out[0][0]).max(), np.abs(out[0][1]).max())
        ctx.close(out[1][k], out[0][k], 2e-3, name + ' in an enlarged domain', scale=sc)
    ctx.label(case['pol'])
    ctx.nontrivial(any(case['extra']) and np.ptp(np.pad(eps, 1, constant_values=case['bg']).real) > 0)


@st.composite
def base(draw, ppw=(12, 40)):
    return {'pol': draw(st.sampled_from(['Ez', 'Hz'])), 'p': draw(st.integers(10, 20)), 'bg': draw(gen.dec(1, 12)),
            'lam': draw(gen.dec(0.5, 3)), 'ppw': draw(gen.dec(ppw[0], ppw[1], 1)),
            'L0': draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-3]))}


@st.composite
def current(draw):
    a, b = draw(gen.dec(-3, 3, 1)), draw(gen.dec(-3, 3, 1))
    return [a, b] if (a or b) else [1.0, 0.0]


@st.composite
def sheets(draw):
    c = draw(base())
    c['n'] = draw(st.integers(3, 60))
    c['i0'] = draw(st.integers(0, c['n'] - 1))
    c['axis'] = draw(st.integers(0, 1))
    c['extruded'] = draw(st.sampled_from([0, 0, 3]))
    c['J'] = draw(current())
    return c


@st.composite
def points(draw):
    c = draw(base(ppw=(16, 40)))
    c['nx'], c['ny'] = draw(st.integers(10, 60)), draw(st.integers(10, 60))
    c['i0'], c['j0'] = draw(st.integers(3, c['nx'] - 4)), draw(st.integers(3, c['ny'] - 4))
    c['J'] = draw(current())
    return c


@st.composite
def structures(draw):
    c = draw(base())
    c['nx'], c['ny'] = draw(st.integers(4, 24)), draw(st.integers(4, 24))
    c['bg'] = draw(gen.dec(1, 6))
    c['eps'] = draw(gen.eps_specs(c['nx'], c['ny'], bg=c['bg'], noise=False))
    c['src'] = draw(gen.src_specs(c['nx'], c['ny'], noise=False))
    c['extra'] = [draw(st.integers(0, 20)) for _ in range(4)]
    return c


TESTS = [Prop('sheet', sheets(), sheet, 500),
         Prop('point', points(), point, 150),
         Prop('enlarged', structures(), enlarged, 300)]
