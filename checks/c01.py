"""C01: solved fields satisfy the discretized Maxwell's equations."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, ref

RULE = """Random grids (1..26 cells per axis, some of up to 400 cells and 24 layers, absorbing or periodic sides), permittivities (rectangles, noise, loss),
sources (points, noise), polarizations, units and wavelengths; solves with random options against one without.  Non-trivial: the permittivity varies or an absorbing
layer is present, and the fields are not zero."""
ASSUMPTIONS = ["residuals are judged relative to the largest term of the equation on the grid (1e-9): the solver's rounding error is bounded by that, not by the local value",
               "the physical constants are the two written in the project's constants file"]
TOL = 1e-9


def check_maxwell(case, F, eps, src, ctx, what='', nl=False, tol=TOL):
    """F satisfies Maxwell's equations outside the layers, and stretched ones inside"""
    pol = case['pol']
    omega, dl = gen.omega_dl(case)
    nx, ny = case['nx'], case['ny']
    px, py = case['npml']
    Fx, Fy, Fz = F
    for f, name in zip(F, gen.names(pol)):
        ctx.check(f is not None and np.shape(f) == (nx, ny), "%s%s has shape %s on a grid of %s" % (what, name, np.shape(f), (nx, ny)))
        ctx.check(np.all(np.isfinite(f)), "%s%s is not finite" % (what, name))
    eqs = {n: (a, b) for n, a, b in ref.residuals(pol, F, eps, src, omega, dl, case['L0'])}
    ix, iy = gen.interior(case)
    scale_z = np.abs(Fz).max()/dl
    inx = np.zeros(nx, bool)
    inx[ix] = True
    iny = np.zeros(ny, bool)
    iny[iy] = True

    # gradient equations: one derivative each
    s_b = {}
    for axis, name, inside, p in ((1, 'dy Fz', iny, py), (0, 'dx Fz', inx, px)):
        a, b = eqs[name]
        a, b = np.moveaxis(a, axis, 0), np.moveaxis(b, axis, 0)
        r = a - b
        bad = np.abs(r)[inside].max() if inside.any() else 0
        ctx.check(bad <= tol*scale_z, "%s%s: residual %.3g of the scale %.3g outside the layers" % (what, name, bad, scale_z))
        s_b[axis] = stretch(ctx, a, b, inside, p, scale_z, what + name, tol)

    # curl equation
    a, b = eqs['curl']
    scale_c = max(np.abs(Fx).max(), np.abs(Fy).max())/dl + np.abs(src).max() + np.abs(b - src).max()
    r = np.abs(a - b)[ix, iy]
    if r.size:
        ctx.check(r.max() <= tol*scale_c, "%scurl equation: residual %.3g of the scale %.3g outside the layers" % (what, r.max(), scale_c))
    # in the layers: sx from the rows outside the y layers and vice versa, then both together in the corners
    sgn = 1 if pol == 'Ez' else -1
    dxF, dyF = sgn*ref.fwd(Fy, 0, dl), -sgn*ref.fwd(Fx, 1, dl)
    sx, okx = stretch(ctx, dxF[:, iny], (b - dyF)[:, iny], inx, px, scale_c, what + 'curl in the x layers', tol)
    sy, oky = stretch(ctx, dyF.T[:, inx], (b - dxF).T[:, inx], iny, py, scale_c, what + 'curl in the y layers', tol)
    ok = okx[:, None] & oky[None, :]
    r = np.abs(dxF/sx[:, None] + dyF/sy[None, :] - b)[ok]
    if r.size:
        ctx.check(r.max() <= 1e-6*scale_c, "%scurl equation with stretched derivatives: residual %.3g of the scale %.3g" % (what, r.max(), scale_c))


def stretch(ctx, a, b, inside, p, scale, what, tol):
    """a[k, :] = s[k] b[k, :] with one complex s per row k; returns s (1 outside the layers) and where it is known"""
    n = len(inside)
    s = np.ones(n, complex)
    ok = np.array(inside)
    if p == 0:
        return s, ok
    depth = {}
    for k in range(n):
        if inside[k]:
            continue
        nb = np.abs(b[k]).max() if b[k].size else 0
        if nb == 0:
            continue
        v = np.vdot(b[k], a[k])/np.vdot(b[k], b[k])
        err = np.abs(a[k] - v*b[k]).max()
        ctx.check(err <= max(tol, 1e-9)*scale*max(1, abs(v)), "%s: no common stretch factor at depth index %d (residual %.3g of %.3g)" % (what, k, err, scale))
        if nb > 1e-5*scale:
            prec = 1e-12*scale/nb*max(1, abs(v)) + 1e-9
            ctx.check(abs(v.real - 1) < 100*prec, "%s: stretch factor %s at %d does not have real part 1" % (what, v, k))
            ctx.check(v.imag <= 100*prec, "%s: stretch factor %s at %d amplifies" % (what, v, k))
            s[k] = v
            ok[k] = True
            depth.setdefault('lo' if k < p else 'hi', []).append((k, v, prec))
    for side, order in (('lo', 1), ('hi', -1)):
        rows = sorted(depth.get(side, []), key=lambda t: order*t[0])      # from the outside inwards
        for (k1, v1, p1), (k2, v2, p2) in zip(rows, rows[1:]):
            ctx.check(abs(v2) <= abs(v1) + 100*(p1 + p2), "%s: stretch factor grows away from the boundary (%s at %d, %s at %d)" % (what, v1, k1, v2, k2))
    return s, ok


def solve(case, ctx):
    eps = gen.build_eps(case['eps'], case['nx'], case['ny'])
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    one_d = case.get('one_d') and case['ny'] == 1
    sim = gen.make(case, eps=(eps[:, 0] if one_d else eps), src=src)
    if case.get('reassign'):
        sim.eps_r = eps[:, 0].copy() if one_d else eps.copy()
    F = sim.solve_fields()
    check_maxwell(case, F, eps, src, ctx)
    for name, f in zip(gen.names(case['pol']), F):
        ctx.check(sim.fields[name] is not None and np.array_equal(sim.fields[name], f), "stored %s is not the returned one" % name)
    others = set(['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']) - set(gen.names(case['pol']))
    ctx.check(all(sim.fields[o] is None for o in others), "a component of the other polarization is stored")
    ctx.label('%s %s%s' % (case['pol'], 'P' if case['npml'][0] else '-', 'P' if case['npml'][1] else '-'))
    ctx.label('lossy' if np.iscomplexobj(eps) else 'lossless')
    ctx.label('1D' if min(case['nx'], case['ny']) == 1 else '2D')
    ctx.nontrivial((np.ptp(eps.real) > 0 or max(case['npml']) > 0) and np.abs(F[2]).max() > 0)


FORMATS = ['csr', 'csc', 'coo', 'bsr', 'lil', 'dok', 'dia']


def options(case, ctx):
    """matrix format and timing change nothing; without averaging the transverse fields of 'Hz' come from the permittivity of the cell"""
    eps = gen.build_eps(case['eps'], case['nx'], case['ny'])
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    F = gen.make(case, eps=eps, src=src).solve_fields()
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    sz = np.abs(F[2]).max()
    sim = gen.make(case, eps=eps, src=src)
    for o in case['options']:
        G = sim.solve_fields(**o)
        for k, name in enumerate(gen.names(case['pol'])):
            got, want = G[k], F[k]
            if case['pol'] == 'Hz' and k < 2 and not o.get('averaging', True):
                got, want = got*eps, want*ref.edge(eps, 1 - k)
            small = max(1, np.abs(eps).max())/max(1e-3, np.abs(ref.edge(eps, 0)).min(), 0) if case['pol'] == 'Hz' else 1
            ctx.close(got, want, 1e-9, '%s with %s' % (name, o), scale=np.abs(want).max() + (0 if k == 2 else small*sz/(omega*m*dl)))
            ctx.check(np.array_equal(sim.fields[name], G[k]), 'stored %s is not the one returned with %s' % (name, o))
        ctx.label(str(sorted(o)))
    ctx.nontrivial(sz > 0)


@st.composite
def with_options(draw):
    c = draw(gen.sims())
    c['options'] = []
    for _ in range(draw(st.integers(1, 3))):
        o = {}
        if draw(st.booleans()):
            o['averaging'] = draw(st.booleans())
        if draw(st.booleans()):
            o['timing'] = draw(st.booleans())
        if draw(st.booleans()):
            o['matrix_format'] = draw(st.sampled_from(FORMATS))
        c['options'].append(o)
    return c


@st.composite
def cases(draw, sims=gen.sims, **kw):
    c = draw(sims(**kw))
    c['reassign'] = draw(st.booleans())
    c['one_d'] = draw(st.booleans())
    gen.metals(draw, c)
    return c


@st.composite
def cases_1d(draw):
    c = draw(cases(force_pml=(None, False), nmin=1))
    if draw(st.booleans()):
        c['ny'] = 1
    else:
        c['nx'], c['npml'] = 1, [0, c['npml'][1]]
    c['eps'] = draw(gen.eps_specs(c['nx'], c['ny']))
    c['src'] = draw(gen.src_specs(c['nx'], c['ny']))
    return c


TESTS = [
    Prop('grid', cases(), solve, 1200),
    Prop('one_dimension', cases_1d(), solve, 300),
    Prop('layers', cases(force_pml=True, nmax=30), solve, 400),
    Prop('options', with_options(), options, 300),
    Prop('large', cases(sims=gen.large_sims), solve, 40),
]
