"""C11: the Kerr model, its derivatives and the index shift."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen
from checks.c10 import kerr_sims, strengthen, add_nls, kerr, rects, coef, PHASES

RULE = """Random 'Ez' and 'Hz' simulations with up to six nonlinearities (plain or scaled with the density, several regions, mask types)
and random complex fields: eps_nl, dnl_de, dnl_deps against the formula and against numerical derivatives; fields of a solve with the
nonlinear permittivity against those of a linear simulation with it; index shift against the nonlinear solution.  Non-trivial: some
cell is inside a region of a nonlinearity and the field is not zero there."""
ASSUMPTIONS = ["regions are 0/1 masks", "field derivatives are Wirtinger derivatives with respect to E (E* fixed), as the solvers use them"]


def field(case):
    r = np.random.RandomState(case['field'])
    e = (r.standard_normal((case['nx'], case['ny'])) + 1j*r.standard_normal((case['nx'], case['ny'])))*case['amp']
    e[r.random_sample(e.shape) < 0.1] = 0
    return e


def masks(case, r):
    m = np.zeros((case['nx'], case['ny']))
    m[r[0]:r[0] + r[2], r[1]:r[1] + r[3]] = 1
    return m.astype({'float': float, 'int': int, 'bool': bool}[case['dtype']])


def build(case, eps):
    sim = gen.make(case, eps=eps.copy())
    for n in case['nls']:
        kw = dict(eps_scale=True, eps_max=n['eps_max']) if n['scale'] else {}
        if not n.get('same'):
            m = masks(case, n['rect'])
        sim.add_nl(case['chi']*coef(n), m, 'kerr', **kw)
    return sim


def model(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps = gen.build_eps(case['eps'], nx, ny)
    e = field(case)
    sim = build(case, eps)
    keep = e.copy()
    sim.compute_nl(e)
    ctx.check(np.array_equal(e, keep), 'the field was changed')
    nl = kerr(case, e, eps)
    top = sum(abs(n['f']) for n in case['nls'])*3*abs(case['chi'])/case['L0']**2*np.abs(e).max()**2*max(1, np.abs(eps).max())
    zeros = np.zeros((nx, ny))
    ctx.close(sim.eps_nl + zeros, nl, 1e-12, 'nonlinear permittivity', scale=top)
    union = np.zeros((nx, ny), bool)
    for n in case['nls']:
        union |= masks(case, n['rect']).astype(bool)
    ctx.check(not np.any((sim.eps_nl + zeros)[~union]), 'nonlinear permittivity outside of the regions')
    # numerical derivatives of the reference expression (a second-degree polynomial: central differences are exact)
    h = np.abs(e).max() or 1.0
    de = np.zeros((nx, ny), complex)
    for d, w in ((h, 0.5), (1j*h, -0.5j)):
        de = de + w*(kerr(case, e + d, eps) - kerr(case, e - d, eps))/(2*h)
    ctx.close(sim.dnl_de + zeros, de, 1e-9, 'derivative with respect to the field', scale=top/h*4)
    deps = (kerr(case, e, eps + 1.0) - kerr(case, e, eps - 1.0))/2
    ctx.close(sim.dnl_deps + zeros, deps, 1e-9, 'derivative with respect to the permittivity', scale=top)
    # a second field replaces the first
    sim.compute_nl(2*e)
    ctx.close(sim.eps_nl + zeros, 4*nl, 1e-12, 'nonlinear permittivity of twice the field', scale=4*top)
    for n in case['nls']:
        ctx.label('scaled' if n['scale'] else 'plain')
    ctx.nontrivial(np.abs(nl).max() > 0)


def applied(case, ctx):
    """solving with the nonlinear permittivity of a given field is solving a linear problem"""
    nx, ny = case['nx'], case['ny']
    eps = gen.build_eps(case['eps'], nx, ny)
    e = field(case)
    top = np.abs(kerr(case, e, eps)).max()
    if not top > 1e-3*kerr(case, e, eps, size=True).max():
        ctx.label('nothing, or cancelled')
        return
    e = e*np.sqrt(case['aim']/top)
    sim = build(case, eps)
    sim.compute_nl(e)
    F = sim.solve_fields(include_nl=True)
    nl = kerr(case, e, eps)
    G = gen.make(case, eps=eps + nl).solve_fields()
    omega, dl = gen.omega_dl(case)
    src = gen.build_src(case['src'], nx, ny)
    amp = np.abs(G[2]).max()/(np.abs(src).max()*omega*gen.MU0*case['L0']*dl**2)
    if amp > 1e6:
        ctx.label('near resonance')
        return
    for k, n in enumerate(gen.names('Ez')):
        ctx.close(F[k], G[k], 1e-8, '%s solved with the nonlinear permittivity' % n,
                  scale=np.abs(G[2]).max()*(1 if k == 2 else 1/(omega*gen.MU0*case['L0']*dl)))
    ctx.label('applied')
    ctx.nontrivial()


def shift(case, ctx):
    made = strengthen(case)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim = made[0]
    eps = sim.eps_r.copy()
    add_nls(sim, case)
    dn = sim.compute_index_shift()
    lin = gen.make(case, eps=eps.copy(), src=sim.src.copy())
    # fixed point by linear solves
    E = made[1]
    for _ in range(40):
        new = gen.make(case, eps=eps + kerr(case, E, eps), src=sim.src.copy()).solve_fields()[2]
        done = np.linalg.norm(new - E) < 1e-11*np.linalg.norm(new)
        E = new
        if done:
            break
    nl = kerr(case, E, eps)
    want = np.abs(np.sqrt(np.real(eps + nl)) - np.sqrt(np.real(eps)))
    ctx.close(np.array(dn), want, 1e-6, 'index shift', scale=want.max() + 1e-10)
    ctx.check(np.array_equal(sim.eps_r, eps), 'the permittivity was changed')
    ctx.label('shift')
    ctx.nontrivial(want.max() > 1e-7)


@st.composite
def fields(draw, pols=('Ez', 'Hz')):
    c = draw(gen.sims(pols=pols, nmax=18, pml_max=4, nmin=1))
    c['chi'] = draw(st.sampled_from([1e-18, 2.8e-18, 4e-12, -1e-19, 1.0]))
    c['nls'] = [{'rect': draw(rects(c['nx'], c['ny'])), 'f': draw(st.sampled_from([1.0, 0.5, -2.0])), 'scale': draw(st.booleans()),
                 'eps_max': draw(gen.dec(1.5, 13, 1)), 'phase': draw(PHASES)} for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6])))]
    for a, b in zip(c['nls'], c['nls'][1:]):
        if draw(st.integers(0, 3)) == 0:
            b['rect'], b['same'] = a['rect'], True
    c['field'] = draw(gen.SEEDS)
    c['amp'] = draw(st.sampled_from([1.0, 1e-6, 1e5]))
    c['dtype'] = draw(st.sampled_from(['float', 'int', 'bool']))
    c['aim'] = draw(st.sampled_from([0.01, 0.1, 1.0]))
    return c


TESTS = [Prop('model', fields(), model, 1200),
         Prop('applied', fields(pols=('Ez',)), applied, 400),
         Prop('shift', kerr_sims(), shift, 300)]
