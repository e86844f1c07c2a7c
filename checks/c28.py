"""C28: density helper functions."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt

RULE = """Random arrays (scalars, vectors, grids; real and complex permittivities), eps_m, eta, beta from 1e-3 to 300: both directions between permittivity
and density, the projection against the formula and the optimizer's, derivatives against the analytic ones and central differences.
Non-trivial: more than one cell and a projection that is neither flat nor a step at every cell."""
ASSUMPTIONS = ["eps_m is not 1, beta is not 0", "the derivative by rho of the projection is for arrays (it is vectorized cell by cell)"]


def arr(case):
    r = np.random.RandomState(case['seed'])
    shape = tuple(case['shape'])
    v = r.random_sample(shape)*1.2 - 0.1
    if case['ends']:
        v = np.where(r.random_sample(shape) < 0.3, np.round(v).clip(0, 1), v)
    return v


def convert(case, ctx):
    from angler import utils as u
    from angler import filter as f
    rho = arr(case)
    m = case['eps_m']
    if case['complex']:
        rho = rho - 0.1j*rho[::-1]
    keep = rho.copy()
    eps = 1 + (m - 1)*rho
    k2 = eps.copy()
    sc = max(1.0, m)*2
    ctx.close(u.rho_bar2eps(rho, m), eps, 1e-13, 'rho_bar2eps', scale=sc)
    ctx.close(u.eps2rho_bar(eps, m), rho, 1e-13*sc/abs(m - 1), 'eps2rho_bar', scale=sc)
    ctx.close(u.rho_bar2eps(u.eps2rho_bar(eps, m), m), eps, 1e-12, 'back and forth', scale=sc)
    ctx.close(u.eps2rho_bar(eps, m), f.eps2rho(eps, m), 1e-13*sc/abs(m - 1), "optimizer's density", scale=sc)
    d = np.broadcast_to(u.deps_drho_bar(eps, m), eps.shape)
    ctx.close(d, np.full(eps.shape, m - 1.0), 1e-13, 'deps_drho_bar', scale=sc)
    ctx.close(d, u.rho_bar2eps(rho + 0.5, m) - u.rho_bar2eps(rho - 0.5, m), 1e-12, 'deps_drho_bar against differences', scale=sc)
    ctx.close(u.rho_bar2eps(np.zeros(2), m), np.ones(2), 1e-14, 'empty')
    ctx.close(u.rho_bar2eps(np.ones(2), m), np.full(2, m*1.0), 1e-14, 'full', scale=sc)
    ctx.check(np.array_equal(rho, keep) and np.array_equal(eps, k2), 'an argument was changed')
    ctx.label('complex' if case['complex'] else 'real')
    ctx.nontrivial(rho.size > 1)


def projection(case, ctx):
    from angler import utils as u
    from angler import filter as f
    rho = arr(case)
    eta, beta = case['eta'], case['beta']
    keep = rho.copy()
    kw = {'eta': eta, 'beta': beta}
    if case['defaults'] == 'beta':
        del kw['beta']
        beta = 100
    if case['defaults'] == 'eta':
        del kw['eta']
        eta = 0.5
    if case['defaults'] == 'both':
        kw, eta, beta = {}, 0.5, 100
    got = u.rho_bar(rho, **kw)
    den = np.tanh(beta*eta) + np.tanh(beta*(1 - eta))
    want = np.array([(np.tanh(beta*eta) + np.tanh(beta*(v - eta)))/den for v in rho.ravel().tolist()]).reshape(rho.shape)
    ctx.close(got, want, 1e-10, 'projection', scale=1.0)
    ctx.close(got, f.rhot2rhob(rho, eta=eta, beta=beta), 1e-10, "the optimizer's projection", scale=1.0)
    ctx.close(u.rho_bar(np.array([0.0, 1.0]), **kw), np.array([0.0, 1.0]), 1e-9, 'the two materials', scale=1.0)
    d = u.drho_bar_drho(rho, **kw)
    dw = beta/np.cosh(beta*(rho - eta))**2/den
    # what is lost to rounding in 1 - tanh^2 when autograd differentiates
    ctx.close(d, dw, 1e-9, 'derivative', scale=beta/den)
    ctx.close(np.asarray(d).ravel(), np.asarray(f.drhob_drhot(rho, eta=eta, beta=beta)).ravel(), 1e-9, "the optimizer's derivative", scale=beta/den)
    h = 1e-4/max(1, beta)
    num = (u.rho_bar(rho + h, **kw) - u.rho_bar(rho - h, **kw))/2/h
    ctx.close(d, num, 1e-6, 'derivative against differences', scale=beta/den)
    ctx.check(np.array_equal(rho, keep), 'the argument was changed')
    ctx.label('beta %s' % ('<1' if beta < 1 else '<20' if beta < 20 else '>=20'))
    ctx.nontrivial(rho.size > 1 and (dw > 1e-6*beta).any())


@st.composite
def cases(draw):
    return {'shape': draw(st.sampled_from([[1], [7], [4, 5], [1, 6], [3, 1], [12, 9]])), 'seed': draw(gen.SEEDS), 'ends': draw(st.booleans()),
            'eps_m': draw(st.one_of(gen.dec(1.1, 13, 1), gen.dec(0.1, 0.9, 1))), 'complex': draw(st.booleans()),
            'eta': draw(gen.dec(0.05, 0.95)), 'beta': draw(st.sampled_from([1e-3, 0.1, 0.5, 1.0, 3.0, 10.0, 30.0, 100.0, 300.0])),
            'defaults': draw(st.sampled_from(['none', 'none', 'eta', 'beta', 'both']))}


TESTS = [Prop('convert', cases(), convert, 400), Prop('projection', cases(), projection, 400)]
