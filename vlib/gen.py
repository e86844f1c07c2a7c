"""Strategies for cases (plain JSON values) and the functions that build arrays and simulations from them."""
import numpy as np
from hypothesis import strategies as st

# the values the project documents (constants.py); written out again here so that they are checked too
EPS0 = 8.85418782e-12
MU0 = 1.25663706e-6
C0 = (EPS0*MU0)**-0.5
SEEDS = st.integers(0, 2**31 - 1)


def dec(lo, hi, digits=2):
    """decimal numbers in [lo, hi]; shrink towards the one nearest 0"""
    f = 10**digits
    return st.integers(int(round(lo*f)), int(round(hi*f))).map(lambda i: i/f)


@st.composite
def axes(draw, nmin=1, nmax=26, pml_max=8, interior=4, force_pml=None, two_d=None):
    """(N, NPML) of one axis"""
    kind = draw(st.sampled_from(['pml', 'periodic'])) if force_pml is None else ('pml' if force_pml else 'periodic')
    if kind == 'pml':
        p = draw(st.integers(1, pml_max))
        n = 2*p + draw(st.integers(interior, max(interior, nmax - 2*p)))
        return n, p
    lo = max(nmin, 1)
    n = draw(st.integers(lo, nmax))
    return n, 0


@st.composite
def eps_specs(draw, nx, ny, lo=1.0, hi=12.0, max_rects=4, lossy=True, bg=None, noise=True):
    rects = []
    for _ in range(draw(st.integers(0, max_rects))):
        rects.append([draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1)),
                      draw(st.integers(1, nx)), draw(st.integers(1, ny)), draw(dec(lo, hi))])
    spec = {'bg': draw(dec(lo, min(hi, 4.0))) if bg is None else bg, 'rects': rects, 'noise': 0, 'loss': []}
    if noise and draw(st.booleans()):
        spec['noise'] = draw(SEEDS)
        spec['noise_amp'] = draw(dec(0.1, 5, 1))
    if lossy and draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            spec['loss'].append([draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1)),
                                 draw(st.integers(1, nx)), draw(st.integers(1, ny)), draw(dec(0.01, 2))])
    return spec


def build_eps(spec, nx, ny):
    eps = np.ones((nx, ny))*spec['bg']
    for x, y, w, h, v in spec['rects']:
        eps[x:x + w, y:y + h] = v
    if spec.get('noise'):
        eps = eps + spec['noise_amp']*np.random.RandomState(spec['noise']).random_sample((nx, ny))
    if spec.get('loss'):
        eps = eps.astype(complex)
        for x, y, w, h, v in spec['loss']:
            eps[x:x + w, y:y + h] -= 1j*v       # exp(+iwt): loss is a negative imaginary part
    return eps


@st.composite
def src_specs(draw, nx, ny, max_pts=3, noise=True, where=None):
    """where: (x0, x1, y0, y1) allowed range of the points"""
    x0, x1, y0, y1 = where or (0, nx - 1, 0, ny - 1)
    pts = []
    for _ in range(draw(st.integers(1, max_pts))):
        a, b = draw(dec(-3, 3, 1)), draw(dec(-3, 3, 1))
        if a == 0 and b == 0:
            a = 1.0
        pts.append([draw(st.integers(x0, x1)), draw(st.integers(y0, y1)), a, b])
    spec = {'pts': pts, 'noise': 0, 'mag': draw(st.sampled_from([0, 0, 0, 0, 0, -18, 9]))}
    if noise and draw(st.integers(0, 2)) == 0:
        spec['noise'] = draw(SEEDS)
    if draw(st.integers(0, 4)) == 0:
        spec['real'] = True
    return spec


def build_src(spec, nx, ny):
    src = np.zeros((nx, ny), dtype=complex)
    for x, y, re, im in spec['pts']:
        src[x, y] += re + 1j*im
    if spec.get('noise'):
        r = np.random.RandomState(spec['noise'])
        src = src + r.standard_normal((nx, ny)) + 1j*r.standard_normal((nx, ny))
    if spec.get('real'):
        src = np.real(src) + np.imag(src)
    if np.abs(src).max() < 0.05:
        # the points cancel: a check that wants no source asks for none
        src[spec['pts'][0][0], spec['pts'][0][1]] = 1.0
    return src*10.0**spec['mag'] if spec.get('mag') else src


@st.composite
def sims(draw, pols=('Ez', 'Hz'), nmax=26, pml_max=8, interior=4, force_pml=None, nmin=1, lossy=True,
         eps_hi=12.0, src_inside=False, noise=True, max_pts=3, L0s=True, bg=None, eps_lo=1.0, ppw=(8, 30)):
    pol = draw(st.sampled_from(list(pols)))
    fx, fy = (force_pml, force_pml) if not isinstance(force_pml, tuple) else force_pml
    nx, px = draw(axes(nmin=nmin, nmax=nmax, pml_max=pml_max, interior=interior, force_pml=fx))
    ny, py = draw(axes(nmin=nmin, nmax=nmax, pml_max=pml_max, interior=interior, force_pml=fy))
    case = {'pol': pol, 'nx': nx, 'ny': ny, 'npml': [px, py],
            'lam': draw(dec(0.5, 3.0)), 'ppw': draw(dec(ppw[0], ppw[1], 1)), 'L0': 1e-6}
    if L0s:
        case['L0'] = draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-3, 1.0, 2.5e-7]))
    case['eps'] = draw(eps_specs(nx, ny, lo=eps_lo, hi=eps_hi, lossy=lossy, noise=noise, bg=bg))
    c_layout = draw(st.sampled_from(LAYOUTS))
    if c_layout != 'C':
        case['layout'] = c_layout
    where = (px, nx - px - 1, py, ny - py - 1) if src_inside else None
    case['src'] = draw(src_specs(nx, ny, where=where, noise=noise and not src_inside, max_pts=max_pts))
    return case


def metals(draw, c, often=5):
    """now and then metals, and permittivities below 1"""
    if draw(st.integers(1, often)) == often:
        lossless = c['pol'] == 'Ez' and draw(st.booleans())
        for _ in range(draw(st.integers(1, 2))):
            r = [draw(st.integers(0, c['nx'] - 1)), draw(st.integers(0, c['ny'] - 1)), draw(st.integers(1, c['nx'])), draw(st.integers(1, c['ny']))]
            c['eps']['rects'].append(r + [draw(dec(-30, 0.9))])
            if not lossless:
                c['eps']['loss'].append(r + [draw(dec(0.1, 3))])
    return c


@st.composite
def large_sims(draw, cells=16000, pols=('Ez', 'Hz'), pml_max=24, **kw):
    """grids of up to some thousand cells, one side up to 400"""
    c = draw(sims(pols=pols, **kw))
    for axis in draw(st.sampled_from([(0, 1), (1, 0)])):
        p = 0 if c['npml'][axis] == 0 else draw(st.integers(1, pml_max))
        other = c['ny'] if axis == 0 else c['nx']
        hi = max(2*p + 20, min(400, cells//max(other, 40)))
        c['n' + 'xy'[axis]], c['npml'][axis] = draw(st.integers(2*p + 20, hi)), p
    nx, ny, (px, py) = c['nx'], c['ny'], c['npml']
    c['eps'] = draw(eps_specs(nx, ny, hi=8.0))
    c['src'] = draw(src_specs(nx, ny, noise=False))
    return c


def omega_dl(case):
    """lam is the wavelength in units of L0"""
    omega = 2*np.pi*C0/(case['lam']*case['L0'])
    return omega, case['lam']/case['ppw']


LAYOUTS = ('C', 'C', 'F', 'view', 'flip')


def layout(a, kind):
    """an equal array with another memory layout"""
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'view':
        big = np.zeros(tuple(2*n for n in a.shape), dtype=a.dtype)
        v = big[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'flip':
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return a[r].copy()[r]
    return a


def make(case, eps=None, src=None, npml=None, pol=None):
    from angler import Simulation
    omega, dl = omega_dl(case)
    if eps is None:
        eps = build_eps(case['eps'], case['nx'], case['ny'])
    kind = case.get('layout', 'C')
    eps = layout(eps, kind)
    sim = Simulation(omega, eps, dl, list(case['npml'] if npml is None else npml), pol or case['pol'], L0=case['L0'])
    if src is None:
        src = build_src(case['src'], case['nx'], case['ny'])
    sim.src = layout(src, kind)
    return sim


def names(pol):
    """components in the order solve_fields returns them"""
    return ('Hx', 'Hy', 'Ez') if pol == 'Ez' else ('Ex', 'Ey', 'Hz')


def interior(case):
    """slices of the cells outside the absorbing layers"""
    px, py = case['npml']
    return slice(px, case['nx'] - px), slice(py, case['ny'] - py)
