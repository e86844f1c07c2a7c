"""C02: linearity in the source, reciprocity."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Random simulations as in C01 (a few with thousands of cells) with two sources and complex weights (superposition), or two points outside the
absorbing layers (reciprocity).  Non-trivial: both sources non-zero and different (two different points), and a permittivity that
varies or an absorbing layer."""
ASSUMPTIONS = ["near-resonant cases (fields more than 1e7 times the local response) are skipped and counted: rounding errors dominate there"]


def amplification(case, F, src):
    """field relative to the response of a single cell: a lower bound of the condition number"""
    omega, dl = gen.omega_dl(case)
    m = gen.MU0*case['L0'] if case['pol'] == 'Ez' else gen.EPS0*case['L0']
    s = np.abs(src).max()
    return np.abs(F[2]).max()/(s*omega*m*dl**2) if s else 1.0


def superposition(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps = gen.build_eps(case['eps'], nx, ny)
    s1, s2 = gen.build_src(case['src'], nx, ny), gen.build_src(case['src2'], nx, ny)
    a, b = complex(*case['a']), complex(*case['b'])
    sim = gen.make(case, eps=eps, src=s1)
    F1 = sim.solve_fields()
    sim.src = s2
    F2 = sim.solve_fields()
    sim.src = a*s1 + b*s2
    F = sim.solve_fields()
    amp = max(amplification(case, F1, s1), amplification(case, F2, s2))
    if amp > 1e7:
        ctx.label('near resonance, skipped')
        return
    for f, f1, f2, n in zip(F, F1, F2, gen.names(case['pol'])):
        ctx.close(f, a*f1 + b*f2, 1e-9 + 1e-14*amp, 'superposition of ' + n, scale=abs(a)*np.abs(f1).max() + abs(b)*np.abs(f2).max())
    sim.src = np.zeros((nx, ny), dtype=complex)
    for f, n in zip(sim.solve_fields(), gen.names(case['pol'])):
        ctx.check(np.shape(f) == (nx, ny) and not np.any(f), n + ' of a zero source is not zero')
    ctx.label(case['pol'])
    ctx.nontrivial(s1.any() and s2.any() and not np.array_equal(s1, s2) and (np.ptp(eps.real) > 0 or max(case['npml']) > 0))


def reciprocity(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps = gen.build_eps(case['eps'], nx, ny)
    sim = gen.make(case, eps=eps, src=np.zeros((nx, ny), complex))
    out = []
    A, B = tuple(case['A']), tuple(case['B'])
    amp = 1
    for p, q in ((A, B), (B, A)):
        src = np.zeros((nx, ny), complex)
        src[p] = 1
        sim.src = src
        F = sim.solve_fields()
        amp = max(amp, amplification(case, F, src))
        out.append((F[2][q], np.abs(F[2]).max()))
    if amp > 1e7:
        ctx.label('near resonance, skipped')
        return
    ctx.close(out[0][0], out[1][0], 1e-9 + 1e-14*amp, 'field at B due to A against field at A due to B', scale=max(out[0][1], out[1][1]))
    ctx.label(case['pol'])
    ctx.nontrivial(A != B and (np.ptp(eps.real) > 0 or max(case['npml']) > 0))


@st.composite
def two_sources(draw, sims=gen.sims()):
    c = gen.metals(draw, draw(sims))
    c['src2'] = draw(gen.src_specs(c['nx'], c['ny']))
    c['a'] = [draw(gen.dec(-5, 5)), draw(gen.dec(-5, 5))]
    c['b'] = [draw(gen.dec(-5, 5)), draw(gen.dec(-5, 5))]
    return c


@st.composite
def two_points(draw, sims=gen.sims(nmin=2)):
    c = gen.metals(draw, draw(sims))
    px, py = c['npml']
    for k in 'AB':
        c[k] = [draw(st.integers(px, c['nx'] - px - 1)), draw(st.integers(py, c['ny'] - py - 1))]
    return c


TESTS = [Prop('superposition', two_sources(), superposition, 800),
         Prop('reciprocity', two_points(), reciprocity, 1200),
         Prop('superposition_large', two_sources(gen.large_sims()), superposition, 24),
         Prop('reciprocity_large', two_points(gen.large_sims()), reciprocity, 24)]
