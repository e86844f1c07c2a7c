"""C06: power flux."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen
from checks.c10 import kerr_sims, strengthen, add_nls, kerr

RULE = """Random simulations (both polarizations; Kerr for 'Ez'; some with thousands of cells) and rectangles of cells outside the absorbing layers, against the discrete
Poynting theorem: outflow = -1/2 Re(J* E) - absorption.  Probes are split, moved by a period of the index, scaled, and reach beyond the
domain.  Non-trivial:
the terms of the balance are not all zero; for the single-probe relations the flux is not zero."""
ASSUMPTIONS = ["fluxes are judged relative to the sum of |E||H| along the probes, which bounds the rounding error",
               "absorption is balanced for 'Ez' (where the permittivity belongs to the cell); 'Hz' cases are lossless"]


def probe_arg(lo, w):
    """position of the middle of a probe of cells lo .. lo+w-1"""
    return lo + (w + 1)//2


def probe(sim, case, d, at, lo, w, nl=False, shift=(0, 0)):
    mid = probe_arg(lo, w)
    if (case['ny'] if d == 'x' else case['nx']) == 1:
        mid, w = 0, 2           # the one cell of a one-dimensional domain
    c = [at, mid] if d == 'x' else [mid, at]
    c = [c[0] + shift[0]*case['nx'], c[1] + shift[1]*case['ny']]
    return sim.flux_probe(d, c, w, nl=nl)


def scale(F, dl, n):
    """bound of what a probe may add up to, for the rounding error"""
    return np.abs(F[2]).max()*max(np.abs(F[0]).max(), np.abs(F[1]).max())*dl*n


def outflow(sim, case, box, nl=False):
    x0, x1, y0, y1 = box
    w, h = x1 - x0, y1 - y0
    return (probe(sim, case, 'x', x1, y0, h, nl) - probe(sim, case, 'x', x0, y0, h, nl)
            + probe(sim, case, 'y', y1, x0, w, nl) - probe(sim, case, 'y', y0, x0, w, nl))


def balance_of(ctx, sim, case, F, eps, src, box, nl=False, tol=1e-9, what=''):
    omega, dl = gen.omega_dl(case)
    x0, x1, y0, y1 = box
    cells = (slice(x0, x1), slice(y0, y1))
    given = -0.5*np.sum(np.real(np.conj(src[cells])*F[2][cells]))*dl**2
    lost = 0.0
    if np.iscomplexobj(eps):
        lost = -0.5*omega*gen.EPS0*case['L0']*np.sum(np.imag(eps[cells])*np.abs(F[2][cells])**2)*dl**2
    out = outflow(sim, case, box, nl)
    sc = scale(F, dl, 2*(x1 - x0 + y1 - y0)) + 0.5*np.sum(np.abs(src[cells]*F[2][cells]))*dl**2 + abs(lost)
    ctx.close(np.array(out), np.array(given - lost), tol, what + 'flux out of %s (source and loss inside)' % (box,), scale=sc)
    return src[cells].any(), lost, out


def balance(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps, src = gen.build_eps(case['eps'], nx, ny), gen.build_src(case['src'], nx, ny)
    if case['pol'] == 'Hz':
        eps = np.real(eps)
    sim = gen.make(case, eps=eps, src=src)
    F = sim.solve_fields()
    has_src, lost, out = balance_of(ctx, sim, case, F, eps, src, case['box'])
    ctx.label('%s %s%s' % (case['pol'], 'source' if has_src else 'empty', ' loss' if lost else ''))
    ctx.nontrivial(np.abs(F[2]).max() > 0)


def kerr_balance(case, ctx):
    made = strengthen(case)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim = made[0]
    eps, src = sim.eps_r, sim.src
    add_nls(sim, case)
    sim.solve_fields()
    lin = outflow(sim, case, case['box'])
    F = sim.solve_fields_nl(solver_nl=case['solver'])
    balance_of(ctx, sim, case, F[:3], eps + kerr(case, F[2], eps), src, case['box'], nl=True, tol=1e-7, what='nonlinear: ')
    ctx.check(outflow(sim, case, case['box']) == lin, 'a nonlinear solve changed the linear flux')
    ctx.label('kerr')
    ctx.nontrivial(np.abs(F[2] - sim.fields['Ez']).max() > 1e-6*np.abs(F[2]).max())


def relations(case, ctx):
    nx, ny = case['nx'], case['ny']
    sim = gen.make(case)
    F = sim.solve_fields()
    omega, dl = gen.omega_dl(case)
    d, at, lo, w = case['d'], case['at'], case['lo'], case['w']
    P = probe(sim, case, d, at, lo, w)
    sc = scale(F, dl, w)
    # parts
    parts, pos = 0.0, lo
    for k in case['cuts'] + [lo + w]:
        if k > pos:
            parts += probe(sim, case, d, at, pos, k - pos)
            pos = k
    ctx.close(np.array(parts), np.array(P), 1e-12, 'sum over the parts of a probe', scale=sc)
    # definition: sum of the flux density through each cell, on the plane between cells at-1 and at
    if d == 'x':
        e = (F[2] + np.roll(F[2], 1, 0))/2
        dens = -0.5*np.real(e*np.conj(F[1])) if case['pol'] == 'Ez' else 0.5*np.real(F[1]*np.conj(e))
        want = dens[at % nx, lo:lo + w].sum()*dl
    else:
        e = (F[2] + np.roll(F[2], 1, 1))/2
        dens = 0.5*np.real(e*np.conj(F[0])) if case['pol'] == 'Ez' else -0.5*np.real(F[0]*np.conj(e))
        want = dens[lo:lo + w, at % ny].sum()*dl
    ctx.close(np.array(P), np.array(want), 1e-12, 'flux through a probe', scale=sc)
    # probes that reach beyond the domain end there
    m = ny if d == 'x' else nx
    mid, wide = case['mid'] % m, case['wide']
    part = slice(max(int(mid - wide/2), 0), int(mid + wide/2))
    all_ = dens[at % nx, :] if d == 'x' else dens[:, at % ny]
    got = sim.flux_probe(d, [at, mid] if d == 'x' else [mid, at], wide)
    ctx.close(np.array(got), np.array(all_[part].sum()*dl), 1e-12, 'flux through a probe of %d cells around cell %d of %d' % (wide, mid, m), scale=sc + scale(F, dl, m))
    # positions from the end
    for shift in ((-1, 0), (0, -1), (-1, -1)):
        ctx.close(np.array(probe(sim, case, d, at, lo, w, shift=shift)), np.array(P), 1e-12, 'flux with the position counted from the end', scale=sc)
    # square of the source
    s = case['s']
    sim.src = sim.src*s
    sim.solve_fields()
    ctx.close(np.array(probe(sim, case, d, at, lo, w)), np.array(P*s**2), 1e-9, 'flux of %g times the source' % s, scale=sc*s**2)
    # the probe reads the fields it is asked for
    keep = {k: sim.fields[k] for k in gen.names(case['pol'])}
    sim.src = sim.src*(case['s'] + 1)
    N = sim.solve_fields_nl(solver_nl='born')[:3]
    if case['pol'] == 'Ez':
        ctx.close(np.array(probe(sim, case, d, at, lo, w, nl=True)), np.array(P*s**2*(s + 1)**2), 1e-8, 'nonlinear flux', scale=sc*s**2*(s + 1)**2)
    elif d == 'x':
        dens = 0.5*np.real(N[1]*np.conj(N[2] + np.roll(N[2], 1, 0))/2)
        ctx.close(np.array(probe(sim, case, d, at, lo, w, nl=True)), np.array(dens[at % nx, lo:lo + w].sum()*dl), 1e-11, 'nonlinear flux', scale=scale(N, dl, w))
    else:
        dens = -0.5*np.real(N[0]*np.conj(N[2] + np.roll(N[2], 1, 1))/2)
        ctx.close(np.array(probe(sim, case, d, at, lo, w, nl=True)), np.array(dens[lo:lo + w, at % ny].sum()*dl), 1e-11, 'nonlinear flux', scale=scale(N, dl, w))
    if all(np.array_equal(keep[k], sim.fields[k]) for k in keep):
        ctx.close(np.array(probe(sim, case, d, at, lo, w)), np.array(P*s**2), 1e-9, 'linear flux after a nonlinear solve', scale=sc*s**2)
    ctx.label(case['pol'] + ' ' + d)
    ctx.nontrivial(P != 0)


def direction(case, ctx):
    """power leaves along +x on the right of all sources and along -x on their left (likewise y)"""
    p, n, ax, m = case['p'], case['n'], case['ax'], case['m']
    N = n + 2*p
    eps, src = np.ones(N)*case['bg'], np.zeros(N, complex)
    for at, w, e in case['layers']:
        eps[p + at:min(p + at + w, p + n)] = e
    for at, re, im in case['pts']:
        src[p + at] += re + 1j*im
    if not src.any():
        return
    shape = (lambda v: np.repeat(v[:, None], m, 1)) if ax == 0 else (lambda v: np.repeat(v[None, :], m, 0))
    c = dict(case, nx=N if ax == 0 else m, ny=m if ax == 0 else N, npml=[p, 0] if ax == 0 else [0, p])
    sim = gen.make(c, eps=shape(eps), src=shape(src))
    sim.solve_fields()
    at = np.flatnonzero(src)
    lo, hi = at[0], at[-1] + 1
    d = 'xy'[ax]
    R = probe(sim, c, d, int(case['r'] % (N - p - hi + 1) + hi), 0, m)
    L = probe(sim, c, d, int(lo - case['l'] % (lo - p + 1)), 0, m)
    most = max(abs(R), abs(L))      # the layers (and the domain is periodic beyond them) let a little through
    ctx.check(R >= -1e-3*most, 'flux %g beyond the sources in +%s is negative (%g on the other side)' % (R, d, L))
    ctx.check(L <= 1e-3*most, 'flux %g beyond the sources in -%s is positive (%g on the other side)' % (L, d, R))
    ctx.label(case['pol'] + ' ' + d)
    ctx.nontrivial(R > 0 and L < 0)


@st.composite
def boxes(draw, sims):
    c = draw(sims)
    px, py = c['npml']
    nx, ny = c['nx'], c['ny']
    x0 = draw(st.integers(px, nx - px - 1))
    x1 = draw(st.integers(x0 + 1, nx - px))
    y0 = draw(st.integers(py, ny - py - 1))
    y1 = draw(st.integers(y0 + 1, ny - py))
    # a probe of one cell cannot be centered on the last cell
    if probe_arg(x0, x1 - x0) >= nx:
        x0 = max(x0 - 1, 0)
    if probe_arg(y0, y1 - y0) >= ny:
        y0 = max(y0 - 1, 0)
    c['box'] = [x0, x1, y0, y1]
    return c


@st.composite
def single(draw):
    c = gen.metals(draw, draw(gen.sims(nmin=2)))
    c['d'] = draw(st.sampled_from(['x', 'y']))
    n, m = (c['nx'], c['ny']) if c['d'] == 'x' else (c['ny'], c['nx'])
    c['at'] = draw(st.integers(0, n - 1))
    c['lo'] = draw(st.integers(0, m - 2))
    c['w'] = draw(st.integers(1, m - c['lo']))
    c['cuts'] = sorted(draw(st.lists(st.integers(c['lo'], min(c['lo'] + c['w'], m - 2)), max_size=3)))
    c['s'] = draw(gen.dec(0.1, 9, 1))
    c['mid'], c['wide'] = draw(st.integers(0, m - 1)), draw(st.integers(1, 2*m + 3))
    if probe_arg(c['lo'], c['w']) >= m:
        c['w'], c['cuts'] = 1, []
        c['lo'] = 0
    c['cuts'] = [k for k in c['cuts'] if c['lo'] < k < c['lo'] + c['w']]
    return c


@st.composite
def directed(draw):
    """layered media, with layers that absorb the one wave there is (at least 10 cells)"""
    ax = draw(st.integers(0, 1))
    p = draw(st.integers(10, 14))
    n = draw(st.integers(2, 40))
    m = draw(st.sampled_from([1, 1, 2, 5]))
    c = {'pol': draw(st.sampled_from(['Ez', 'Hz'])), 'lam': draw(gen.dec(0.5, 3)), 'ppw': draw(gen.dec(12, 30, 1)), 'L0': 1e-6,
         'bg': draw(gen.dec(1, 3)), 'ax': ax, 'p': p, 'n': n, 'm': m,
         'layers': [[draw(st.integers(0, n - 1)), draw(st.integers(1, n)), draw(gen.dec(1, 9))] for _ in range(draw(st.integers(0, 3)))],
         'pts': [[draw(st.integers(0, n - 1)), draw(gen.dec(-3, 3, 1)), draw(gen.dec(-3, 3, 1))] for _ in range(draw(st.integers(1, 3)))],
         'r': draw(st.integers(0, 40)), 'l': draw(st.integers(0, 40))}
    return c


TESTS = [Prop('balance', boxes(gen.sims()), balance, 1000),
         Prop('kerr_balance', boxes(kerr_sims()), kerr_balance, 160),
         Prop('relations', single(), relations, 500),
         Prop('direction', directed(), direction, 500),
         Prop('large', boxes(gen.large_sims()), balance, 32)]
