"""C13: adjoint gradient of nonlinear objectives."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c10 import kerr_sims, add_nls, kerr, response

RULE = """Random 'Ez' simulations with one to three Kerr nonlinearities (plain or scaled with the density), with the source scaled so that
the problem is perturbative (nonlinear change of the field up to about ten percent); design regions of any shape, filters, projections;
objectives of one to three components, at least one of them nonlinear.  The gradient is compared with extrapolated central differences of
an objective evaluated through fresh simulations and an independent fixed-point iteration.  Non-trivial: the nonlinear fields differ from
the linear ones by more than 1e-4 and a numerical derivative larger than its error was compared."""
ASSUMPTIONS = ["'perturbative' as in C10, with a limit of 0.12"]


def fixed_point(case, eps, src, start=None):
    """nonlinear fields by linear solves of simulations with the permittivity of the field"""
    sim = gen.make(case, eps=eps, src=src)
    lin = sim.solve_fields()
    E = lin[2] if start is None else start
    F = lin
    for _ in range(60):
        F = gen.make(case, eps=eps + kerr(case, E, eps), src=src).solve_fields()
        done = np.linalg.norm(F[2] - E) <= 1e-14*np.linalg.norm(E)
        E = F[2]
        if done:
            break
    return dict(zip(gen.names('Ez'), lin)), dict(zip(gen.names('Ez'), F))


def nonlinear(case, ctx):
    p = opt.Problem(case)
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    eps = p.eps()
    sim = gen.make(case, eps=eps.copy(), src=src)
    E = sim.solve_fields()[2]
    top = np.abs(kerr(case, E, eps + 0.1, True)).max()
    s = response(sim, E)
    if not top > 0 or not s < 1e4:
        ctx.label('not excited, or resonant')
        return
    src = src*np.sqrt(case['target']/s/top)
    if not np.all(np.isfinite(src)):
        ctx.label('absurd')
        return
    lin, non = fixed_point(case, eps, src)
    omega, dl = gen.omega_dl(case)
    sz = np.abs(lin['Ez']).max()
    hs = sz/(omega*gen.MU0*case['L0']*dl)
    sc = [max(np.abs(lin[k]).max(), sz if k == 'Ez' else 1e-3*hs) for k, _ in case['args']]
    J = opt.make_J(case, sc)
    sim = gen.make(case, eps=eps.copy(), src=src)
    add_nls(sim, case)
    sim.rho = p.rho.copy()
    unit = case['unit']
    o = p.optimization(opt.make_objective(case, opt.scaled(J, unit, len(case['args']))), sim)
    want = J(*opt.pick(case, lin, non))
    got = o.compute_J(sim)/unit
    noise = 1e-13*(1 + s)*max(1, abs(want))
    n = np.sqrt(eps.size)
    ctx.check(abs(got - want) <= (1e-8 + 10*n*1e-10)*max(1, abs(want)) + noise, 'objective %.10g, should be %.10g' % (got, want))
    g = o.compute_dJ(sim, p.des)/unit

    def value(d):
        e = p.eps(p.rho + d)
        return J(*opt.pick(case, *fixed_point(case, e, src, non['Ez'])))

    top = opt.compare(ctx, g, value, case, p.des, noise, 'gradient of %s' % case['args'], k=3)
    for k, nl in case['args']:
        ctx.label(k + (' nl' if nl else ''))
    ctx.label('%d nonlinearities' % len(case['nls']))
    ctx.nontrivial(top > 0 and np.abs(lin['Ez'] - non['Ez']).max() > 1e-4*sz)


@st.composite
def problems(draw):
    c = draw(kerr_sims(targets=(0.02, 0.12), max_nl=3, nmax=15, pml_max=3, eps_hi=8.0))
    c = draw(opt.designs(c))
    return draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, True, False), need_nl=True, units=opt.UNITS))


TESTS = [Prop('gradient', problems(), nonlinear, 480)]
