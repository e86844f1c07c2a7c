"""C04: independence of the unit of length, and scale invariance."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen
from checks.c02 import amplification
from checks.c10 import kerr_sims, strengthen, add_nls

RULE = """Random simulations, linear (both polarizations) and Kerr (Ez), expressed in a second unit of length, or scaled in size and
wavelength.  Non-trivial: the factor is not 1, the fields are non-zero and (nonlinear test) the index shift is not negligible."""
ASSUMPTIONS = ["near-resonant cases (fields more than 1e7 times the local response) are skipped and counted: rounding errors dominate there"]


def box(case):
    """a probe across the middle of the domain"""
    ix, iy = gen.interior(case)
    cx = (ix.start + ix.stop)//2
    w = iy.stop - iy.start
    return 'x', [cx, iy.start + (w + 1)//2], w


def hscale(case, Fz, name):
    """scale of rounding errors of a component: the transverse ones are differences of Fz"""
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    return np.abs(Fz).max()*(1 if name[1] == 'z' else 1/(omega*m*dl))


def compare(case, ctx, other, src_factor, field_factor, flux_factor, nl=None):
    nx, ny = case['nx'], case['ny']
    eps, src = gen.build_eps(case['eps'], nx, ny), gen.build_src(case['src'], nx, ny)
    a = gen.make(case, eps=eps.copy(), src=src)
    b = gen.make(other, eps=eps.copy(), src=src*src_factor)
    Fa, Fb = a.solve_fields(), b.solve_fields()
    amp = amplification(case, Fa, src)
    if amp > 1e7:
        ctx.label('near resonance, skipped')
        return
    tol = 1e-8 + 1e-13*amp
    for f, g, n in zip(Fa, Fb, gen.names(case['pol'])):
        ctx.close(g/field_factor, f, tol, n + ' in the other unit', scale=hscale(case, Fa[2], n))
    d, c, w = box(case)
    A, B = a.flux_probe(d, c, w), b.flux_probe(d, c, w)
    scale = np.abs(Fa[2]).max()*max(np.abs(Fa[0]).max(), np.abs(Fa[1]).max())*gen.omega_dl(case)[1]*ny
    ctx.close(B/flux_factor, A, 10*tol, 'flux in the other unit', scale=scale)
    ctx.label(case['pol'])
    ctx.nontrivial(abs(field_factor - 1) > 1e-6 and np.abs(Fa[2]).max() > 0)


def units(case, ctx):
    k = case['k']
    other = dict(case, L0=case['L0']*k, lam=case['lam']/k)
    compare(case, ctx, other, k**2, k, k)


def scale(case, ctx):
    k = case['k']
    other = dict(case, lam=case['lam']*k)
    compare(case, ctx, other, 1, k, k**3)


def kerr_units(case, ctx):
    k = case['k']
    other = dict(case, L0=case['L0']*k, lam=case['lam']/k)
    made = strengthen(case)
    if made is None:
        ctx.label('not excited')
        return
    src = made[0].src
    out = []
    for c, f in ((case, 1), (other, k**2)):
        s = gen.make(c, src=src*f)
        add_nls(s, c)
        s.solve_fields()
        F = s.solve_fields_nl(solver_nl=case['solver'])
        out.append((F, s.eps_nl.copy(), [s.flux_probe(*box(case), nl=True)]))
    (Fa, na, pa), (Fb, nb, pb) = out
    for f, g, n in zip(Fa[:3], Fb[:3], gen.names('Ez')):
        ctx.close(g/k, f, 1e-6, 'nonlinear %s in the other unit' % n, scale=hscale(case, Fa[2], n))
    ctx.close(nb, na, 1e-6, 'nonlinear permittivity in the other unit')
    s = np.abs(Fa[2]).max()*max(np.abs(Fa[0]).max(), np.abs(Fa[1]).max())*gen.omega_dl(case)[1]*case['ny']
    ctx.close(np.array(pb)/k, np.array(pa), 1e-6, 'nonlinear flux in the other unit', scale=s)
    ctx.label(case['solver'])
    ctx.nontrivial(abs(k - 1) > 1e-6 and np.abs(na).max() > 1e-5)


FACTORS = st.sampled_from([10.0, 0.1, 1e3, 1e-3, 2.0, 0.7, 1e6, 1e-6])


@st.composite
def cases(draw):
    c = gen.metals(draw, draw(gen.sims(nmin=2)))
    c['k'] = draw(FACTORS)
    return c


@st.composite
def kerr(draw):
    c = draw(kerr_sims())
    c['k'] = draw(FACTORS)
    return c


TESTS = [Prop('units', cases(), units, 800),
         Prop('scale', cases(), scale, 500),
         Prop('kerr_units', kerr(), kerr_units, 160)]
