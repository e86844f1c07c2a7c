"""C12: adjoint gradient of linear 'Ez' objectives."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c02 import amplification

RULE = """Random 'Ez' simulations (real or lossy, absorbing layers or periodic), design regions of any shape anywhere, densities, filters,
projections, and objectives of one to three linear field components.  The gradient is compared with extrapolated central differences of
an objective evaluated through fresh simulations of a permittivity that an independent filter and projection give, along a random
direction of the whole design region and at single cells.  Non-trivial: a numerical derivative larger than its error was compared."""
ASSUMPTIONS = ["design regions are 0/1 masks", "near-resonant cases, in which the numerical derivative is too rough, are counted by a label"]


def linear(case, ctx):
    p = opt.Problem(case)
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    pol = case['pol']

    def fields(d=0):
        return dict(zip(gen.names(pol), gen.make(case, eps=p.eps(p.rho + d), src=src).solve_fields()))

    F = fields()
    amp = amplification(case, list(F.values()), src)
    if amp > 1e6:
        ctx.label('near resonance, skipped')
        return
    omega, dl = gen.omega_dl(case)
    sz = np.abs(F[pol]).max()
    m = (gen.MU0 if pol == 'Ez' else gen.EPS0)*case['L0']
    sc = [max(np.abs(F[k]).max(), sz if k == pol else 1e-3*sz/(omega*m*dl)) for k, _ in case['args']]
    J = opt.make_J(case, sc)
    sim = gen.make(case, eps=p.eps(), src=src)
    sim.rho = p.rho.copy()
    unit = case['unit']
    o = p.optimization(opt.make_objective(case, opt.scaled(J, unit, len(case['args']))), sim)
    want = J(*opt.pick(case, F))
    noise = 1e-13*(1 + amp*1e-1)*max(1, abs(want))
    got = o.compute_J(sim)/unit
    ctx.check(abs(got - want) <= 1e-8*max(1, abs(want)) + noise, 'objective %.10g, should be %.10g' % (got, want))
    g = o.compute_dJ(sim, p.des)/unit
    top = opt.compare(ctx, g, lambda d: J(*opt.pick(case, fields(d))), case, p.des, noise, 'gradient of %s' % case['args'])
    for k, _ in case['args']:
        ctx.label(k)
    if case['R']:
        ctx.label('filtered')
    ctx.nontrivial(top > 0)


@st.composite
def problems(draw, pols=('Ez',), **kw):
    c = draw(gen.sims(pols=pols, nmax=18, pml_max=4, nmin=1, eps_hi=8.0, **kw))
    c = draw(opt.designs(c))
    return draw(opt.objectives(c, opt.LIN[c['pol']], units=opt.UNITS))


TESTS = [Prop('gradient', problems(), linear, 800)]
