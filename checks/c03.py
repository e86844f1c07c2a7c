"""C03: geometric symmetries."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen
from checks.c02 import amplification

RULE = """Random simulations as in C01 (some with thousands of cells) together with a transformed copy (mirrored in x or y, axes exchanged, rolled along a
periodic side, or extruded from 1D).  Non-trivial: the fields are non-zero and not themselves invariant under the
transformation (for the extrusion: the structure varies)."""
ASSUMPTIONS = ["near-resonant cases (fields more than 1e7 times the local response) are skipped and counted: rounding errors dominate there"]


def solve(case, eps, src, npml):
    c = dict(case, npml=list(npml), nx=eps.shape[0], ny=eps.shape[1] if eps.ndim == 2 else 1)
    sim = gen.make(c, eps=eps, src=src)
    return sim.solve_fields()


def transformed(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps, src = gen.build_eps(case['eps'], nx, ny), gen.build_src(case['src'], nx, ny)
    npml = case['npml']
    Fx, Fy, Fz = solve(case, eps.copy(), src.copy(), npml)
    amp = amplification(case, (Fx, Fy, Fz), src)
    if amp > 1e7:
        ctx.label('near resonance, skipped')
        return
    t = case['t']
    if t == 'mirror x':
        f = lambda a: a[::-1, :].copy()
        G = solve(case, f(eps), f(src), npml)
        expected = (f(Fx), -np.roll(f(Fy), 1, 0), f(Fz))
    elif t == 'mirror y':
        f = lambda a: a[:, ::-1].copy()
        G = solve(case, f(eps), f(src), npml)
        expected = (-np.roll(f(Fx), 1, 1), f(Fy), f(Fz))
    elif t == 'exchange':
        f = lambda a: a.T.copy()
        G = solve(case, f(eps), f(src), npml[::-1])
        expected = (-f(Fy), -f(Fx), f(Fz))
    else:
        ax = 0 if t == 'roll x' else 1
        if npml[ax] != 0:
            ax = 1 - ax
        if npml[ax] != 0:
            ctx.label('no periodic side')
            return
        f = lambda a: np.roll(a, case['shift'], ax)
        G = solve(case, f(eps), f(src), npml)
        expected = (f(Fx), f(Fy), f(Fz))
    tol = 1e-9 + 1e-14*amp
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    for k, n in enumerate(gen.names(case['pol'])):
        scale = np.abs(Fz).max() if k == 2 else np.abs(Fz).max()/(dl*omega*m)
        ctx.close(G[k], expected[k], tol, '%s of the %s problem' % (n, t), scale=scale)
    ctx.label('%s %s' % (case['pol'], t))
    ctx.nontrivial(Fz.any() and (f(Fz).shape != Fz.shape or not np.array_equal(f(Fz), Fz)))


def extruded(case, ctx):
    n, m = case['nx'], case['m']
    eps, src = gen.build_eps(case['eps'], n, 1), gen.build_src(case['src'], n, 1)
    p = case['npml'][0]
    F1 = solve(case, eps[:, 0].copy() if case['flat'] else eps.copy(), src.copy(), [p, 0])
    amp = amplification(case, F1, src)
    if amp > 1e7:
        ctx.label('near resonance, skipped')
        return
    t = lambda a: np.repeat(a, m, axis=1)
    F2 = solve(case, t(eps), t(src), [p, 0])
    Fy = solve(case, eps.T.copy(), src.T.copy(), [0, p])
    tol = 1e-9 + 1e-14*amp
    omega, dl = gen.omega_dl(case)
    mm = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    for k, nm in enumerate(gen.names(case['pol'])):
        scale = np.abs(F1[2]).max()*(1 if k == 2 else 1/(dl*omega*mm))
        ctx.close(F2[k], t(F1[k]), tol, nm + ' of the extruded problem', scale=scale)
    for k, e in ((0, -F1[1].T), (1, -F1[0].T), (2, F1[2].T)):
        scale = np.abs(F1[2]).max()*(1 if k == 2 else 1/(dl*omega*mm))
        ctx.close(Fy[k], e, tol, gen.names(case['pol'])[k] + ' of the 1D problem along y', scale=scale)
    ctx.label(case['pol'] + (' layers' if p else ' periodic'))
    ctx.nontrivial(F1[2].any() and np.ptp(eps.real) > 0)


@st.composite
def cases(draw, sims=gen.sims):
    t = draw(st.sampled_from(['mirror x', 'mirror y', 'exchange', 'roll x', 'roll y']))
    force = {'roll x': (False, None), 'roll y': (None, False)}.get(t, (None, None))
    c = gen.metals(draw, draw(sims(force_pml=force, nmin=2)))
    c['t'] = t
    c['shift'] = draw(st.integers(1, 25))
    return c


@st.composite
def cases_1d(draw):
    c = draw(gen.sims(force_pml=(None, False), nmin=2))
    c['ny'], c['npml'] = 1, [c['npml'][0], 0]
    c['eps'] = draw(gen.eps_specs(c['nx'], 1))
    c['src'] = draw(gen.src_specs(c['nx'], 1))
    c['m'] = draw(st.integers(2, 9))
    c['flat'] = draw(st.booleans())
    return c


TESTS = [Prop('transformed', cases(), transformed, 1600),
         Prop('extruded', cases_1d(), extruded, 400),
         Prop('large', cases(gen.large_sims), transformed, 32)]
