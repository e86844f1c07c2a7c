"""C10: nonlinear solves satisfy the nonlinear field equation."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, ref

RULE = """Random 'Ez' simulations with one or two Kerr nonlinearities, the source scaled so that the index shift is a chosen fraction
of the one at which the problem stops being perturbative (estimated from the response of the linear problem), or up to well
above it.  Solved with each solver, threshold and starting field.  Non-trivial: the nonlinear field differs from the linear
one by more than 1e-6 of it (perturbative tests), or the solver reported convergence (strong test)."""
ASSUMPTIONS = ["'perturbative': 3 times the index shift times the norm of the linear response (power iteration) is at most 0.15",
               "convergence of the solvers is only demanded in the perturbative regime"]


# ------------------------------------------------------------------ cases, shared with other checks

@st.composite
def rects(draw, nx, ny):
    x, y = draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))
    return [x, y, draw(st.integers(1, nx)), draw(st.integers(1, ny))]


def region(case, r):
    m = np.zeros((case['nx'], case['ny']))
    m[r[0]:r[0] + r[2], r[1]:r[1] + r[3]] = 1
    return m


def coef(n):
    """factor of a nonlinearity; complex with two-photon absorption"""
    return n['f']*np.exp(1j*n['phase']) if n.get('phase') else n['f']


PHASES = st.sampled_from([0, 0, 0, 0.4, 1.5707963267948966, 2.2])


@st.composite
def kerr_sims(draw, targets=(0.0005, 0.05), max_nl=2, **kw):
    kw.setdefault('nmax', 22)
    kw.setdefault('pml_max', 5)
    kw.setdefault('nmin', 2)
    kw.setdefault('lossy', True)
    c = draw(gen.sims(pols=('Ez',), **kw))
    c['chi'] = draw(st.sampled_from([1e-18, 2.8e-18, 1e-20, 4e-12]))
    nls = []
    for _ in range(draw(st.integers(1, max_nl))):
        full = draw(st.booleans())
        nls.append({'rect': [0, 0, c['nx'], c['ny']] if full else draw(rects(c['nx'], c['ny'])),
                    'f': draw(st.sampled_from([1.0, 0.5, 2.0, -0.7])), 'scale': draw(st.booleans()),
                    'eps_max': draw(gen.dec(2, 13, 1)), 'phase': draw(PHASES)})
    for a, b in zip(nls, nls[1:]):
        if draw(st.integers(0, 3)) == 0:
            b['rect'], b['same'] = a['rect'], True      # the caller passes one array twice
    c['nls'] = nls
    c['target'] = draw(st.floats(*[np.log(t) for t in targets]).map(lambda t: float('%.4g' % np.exp(t))))
    c['solver'] = draw(st.sampled_from(['hybrid', 'born', 'newton']))
    return c


def add_nls(sim, case):
    for n in case['nls']:
        if not n.get('same'):
            m = region(case, n['rect'])
        if n['scale']:
            sim.add_nl(case['chi']*coef(n), m, eps_scale=True, eps_max=n['eps_max'])
        else:
            sim.add_nl(case['chi']*coef(n), m)


def kerr(case, e, eps, size=False):
    """3 chi |E|^2, E in V/L0; with size the sum of the magnitudes of the terms"""
    out = np.zeros(e.shape)
    for n in case['nls']:
        g = (eps - 1)/(n['eps_max'] - 1) if n['scale'] else 1
        t = 3*case['chi']*coef(n)/case['L0']**2*region(case, n['rect'])*np.abs(e)**2*g
        out = out + (np.abs(t) if size else t)
    return out


def inverse(sim, v):
    """A^-1 v for the linear problem"""
    keep = sim.src
    sim.src = v/(1j*sim.omega)
    x = sim.solve_fields()[2]
    sim.src = keep
    return x


def response(sim, v, steps=6):
    """estimate of the norm of w^2 eps0 A^-1"""
    k = sim.omega**2*gen.EPS0*sim.L0
    best = 0
    for _ in range(steps):
        v = v/np.linalg.norm(v)
        v = k*inverse(sim, v)
        best = max(best, np.linalg.norm(v))
    return best


def strengthen(case, target=None):
    """simulation with the source scaled so that max|eps_nl| * response = target; None if the region is not excited"""
    eps = gen.build_eps(case['eps'], case['nx'], case['ny'])
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    sim = gen.make(case, eps=eps, src=src)
    E = sim.solve_fields()[2]
    top = np.abs(kerr(case, E, eps)).max()
    if not top > 1e-3*kerr(case, E, eps, size=True).max() or np.abs(E).max() == 0:
        return None         # not excited, or several nonlinearities cancel (up to rounding errors)
    s = response(sim, E)
    if not s < 1e4:
        return None         # next to a resonance rounding errors are as large as the thresholds
    aim = (target or case['target'])/s
    ratio = np.sqrt(aim/top)
    if not np.isfinite(ratio):
        return None
    new = gen.make(case, eps=eps.copy(), src=src*ratio)
    return new, E*ratio, aim


def unpack(out):
    F, conv = out[:3], np.asarray(out[3], float).ravel()
    used = np.flatnonzero(conv)
    last = conv[used[-1]] if used.size else 0.0
    if used.size < conv.size and last < 1e-9:
        last = 0.0          # it may have ended with a change of exactly zero
    return F, conv, last


def agree(ctx, F, G, tol, what):
    for k, n in enumerate(('Hx', 'Hy', 'Ez')):
        ctx.close(F[k], G[k], tol, what + ' ' + n)


def self_consistent(case, F, eps, src, ctx, what, tol):
    """Maxwell's equations with the permittivity eps, outside the layers (tol relative to the largest term), and the fields of a
    linear simulation of that permittivity (tol relative to the largest field)"""
    omega, dl = gen.omega_dl(case)
    ix, iy = gen.interior(case)
    sz = np.abs(F[2]).max()
    scale = {'dx Fz': sz/dl, 'dy Fz': sz/dl,
             'curl': max(np.abs(F[0]).max(), np.abs(F[1]).max())/dl + np.abs(src).max() + omega*gen.EPS0*case['L0']*np.abs(eps).max()*sz}
    for name, a, b in ref.residuals('Ez', F[:3], eps, src, omega, dl, case['L0']):
        r = np.abs(a - b)[ix if name != 'dy Fz' else slice(None), iy if name != 'dx Fz' else slice(None)]
        ctx.check(r.max() <= tol*scale[name], '%s: %s: residual %.3g of the scale %.3g' % (what, name, r.max(), scale[name]))


# ------------------------------------------------------------------ tests

def perturbative(case, ctx):
    made = strengthen(case)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim, E0, aim = made
    eps, src = sim.eps_r.copy(), sim.src.copy()
    add_nls(sim, case)
    thr = case['thr']
    kw = dict(case['opts'])
    if thr is not None:
        kw['conv_threshold'] = thr
    thr = thr or 1e-10
    start = None
    if case['start'] == 'solved':
        sim.solve_fields()
    elif case['start'] == 'given':
        r = np.random.RandomState(5)
        start = E0*(1 + 0.02*r.standard_normal(E0.shape) + 0.02j*r.standard_normal(E0.shape))
        kw['Estart'] = start.copy()
    out = sim.solve_fields_nl(solver_nl=case['solver'], **kw)
    F, conv, last = unpack(out)
    ctx.check(last <= thr, '%s: perturbative problem did not converge (%.3g after %d iterations, threshold %g)'
              % (case['solver'], last, np.count_nonzero(conv), thr))
    below = np.nonzero((conv > 0) & (conv < thr))[0]
    if len(below):
        ctx.check(not np.any(conv[below[0] + 1:]), '%s went on after a change of %.3g (threshold %g)' % (case['solver'], conv[below[0]], thr))
    n = np.sqrt(E0.size)
    tol = 1e-8 + 3*n*thr
    self_consistent(case, F, eps + kerr(case, F[2], eps), src, ctx, case['solver'], tol)
    frozen = gen.make(case, eps=eps + kerr(case, F[2], eps), src=src.copy()).solve_fields()
    # another solver, from the default start
    other = gen.make(case, eps=eps.copy(), src=src.copy())
    add_nls(other, case)
    G = other.solve_fields_nl(solver_nl=case['other'])
    Fl = gen.make(case, eps=eps.copy(), src=src.copy()).solve_fields()
    # derivatives are differences of the field: compare H on the scale of the field over a cell
    omega, dl = gen.omega_dl(case)
    hs = np.abs(F[2]).max()/(omega*gen.MU0*case['L0']*dl)
    for k, nm in enumerate(('Hx', 'Hy', 'Ez')):
        sc = np.abs(F[2]).max() if k == 2 else hs
        ctx.close(F[k], frozen[k], tol, '%s: %s against a linear solve with the permittivity of the solution' % (case['solver'], nm), scale=sc)
        ctx.close(F[k], G[k], tol, '%s against %s: %s' % (case['solver'], case['other'], nm), scale=sc)
        ctx.check(np.array_equal(sim.fields_nl[nm], F[k]), 'stored nonlinear %s is not the returned one' % nm)
        lin = sim.fields[nm]
        if case['start'] != 'given' or lin is not None:
            ctx.check(lin is not None, 'no linear %s is stored after a nonlinear solve' % nm)
            ctx.close(lin, Fl[k], 1e-8, 'linear %s stored after a nonlinear solve' % nm, scale=np.abs(Fl[2]).max() if k == 2 else hs)
    ctx.check(np.array_equal(sim.eps_r, eps) and np.array_equal(sim.src, src), 'a nonlinear solve changed permittivity or source')
    ctx.label(case['solver'] + '/' + case['start'])
    ctx.nontrivial(np.abs(F[2] - Fl[2]).max() > 1e-6*np.abs(F[2]).max())


def history(case, ctx):
    """the convergence history is that of the iteration, worked out with linear solves only"""
    made = strengthen(case)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim, E0, aim = made
    eps = sim.eps_r.copy()
    add_nls(sim, case)
    kw = {'max_num_iter': case['its'], 'conv_threshold': 1e-11}
    E = E0
    if case['start'] == 'given':
        r = np.random.RandomState(6)
        E = E0*(1 + 0.05*r.standard_normal(E0.shape))
        kw['Estart'] = E.copy()
    out = sim.solve_fields_nl(solver_nl=case['solver'], **kw)
    conv = np.asarray(out[3]).ravel()
    ctx.check(len(conv) == case['its'], 'history of %d entries for %d iterations' % (len(conv), case['its']))
    lin = gen.make(case, eps=eps.copy(), src=sim.src.copy())
    k = sim.omega**2*gen.EPS0*sim.L0
    b = 1j*sim.omega*sim.src
    for i in range(min(case['its'], 3)):
        if case['solver'] == 'born':
            new = gen.make(case, eps=eps + kerr(case, E, eps), src=sim.src.copy()).solve_fields()[2]
        else:
            nl = kerr(case, E, eps)
            res = inverse(lin, b - k*nl*E) - E
            g = np.where(np.abs(E) > 0, nl/np.where(np.abs(E) > 0, np.abs(E), 1)**2, 0)
            d = res
            for _ in range(30):
                step = res - inverse(lin, k*(2*nl*d + g*E**2*np.conj(d)))
                done = np.linalg.norm(step - d) <= 1e-14*np.linalg.norm(E)
                d = step
                if done:
                    break
            new = E + d
        want = np.linalg.norm(new - E)/np.linalg.norm(new)
        ctx.check(abs(conv[i] - want) <= 1e-5*want + 1e-10, '%s iteration %d: relative change %.6g in the history, should be %.6g'
                  % (case['solver'], i + 1, conv[i], want))
        if want < 1e-10:
            break
        E = new
    ctx.label(case['solver'])
    ctx.nontrivial(conv[0] > 1e-6)


def strong(case, ctx):
    made = strengthen(case)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim, E0, aim = made
    if not aim*10 < 1e3:
        ctx.label('absurd')
        return
    eps, src = sim.eps_r.copy(), sim.src.copy()
    add_nls(sim, case)
    out = sim.solve_fields_nl(solver_nl=case['solver'], conv_threshold=1e-9)
    F, conv, last = unpack(out)
    ctx.label('%s %s' % (case['solver'], 'converged' if last <= 1e-9 else 'not converged'))
    if case['solver'] == 'hybrid':
        # Newton's method takes over where Born's does not converge
        ref_sim = gen.make(case, eps=eps.copy(), src=src.copy())
        add_nls(ref_sim, case)
        B, bconv, blast = unpack(ref_sim.solve_fields_nl(solver_nl='born', conv_threshold=1e-9, max_num_iter=20))
        if blast > 1e-6 and np.all(np.isfinite(B[2])):
            N, nconv, nlast = unpack(ref_sim.solve_fields_nl(solver_nl='newton', Estart=B[2].copy(), conv_threshold=1e-9, max_num_iter=20))
            if nlast <= 1e-9 and np.count_nonzero(nconv) <= 12 and np.all(np.isfinite(N[2])):
                ctx.check(last <= 1e-9, "the hybrid solver ended with a change of %.3g, although Newton's method converges where Born's has not" % last)
                ctx.label('hybrid, by Newton')
    if not last <= 1e-9 or not all(np.all(np.isfinite(f)) for f in F):
        return
    nl = kerr(case, F[2], eps)
    # near a point where the linear problem with the nonlinear permittivity is singular, the last iteration is amplified
    last_nl = max((response(gen.make(case, eps=eps + e, src=src.copy()), F[2])*np.abs(e).max() for e in (nl, sim.eps_nl)))
    tol = 1e-8 + 1e-9*np.sqrt(E0.size)*10*(1 + last_nl)
    if tol > 1e-3:
        ctx.label('ill-conditioned, skipped')
        return
    self_consistent(case, F, eps + nl, src, ctx, case['solver'] + ' (strong)', tol)
    ctx.nontrivial(np.abs(F[2] - E0).max() > 1e-3*np.abs(E0).max())


def without(case, ctx):
    """no nonlinearity, or one that vanishes: the linear field"""
    sim = gen.make(case)
    eps = gen.build_eps(case['eps'], case['nx'], case['ny'])
    ones = np.ones((case['nx'], case['ny']))
    if case['kind'] == 'chi':
        sim.add_nl(0.0, ones)
    elif case['kind'] == 'region':
        sim.add_nl(1e-12, 0*ones)
    out = sim.solve_fields_nl(solver_nl=case['solver'], **case['opts'])
    F, conv, last = unpack(out)
    lin = gen.make(case).solve_fields()
    ctx.check(last <= 1e-10, '%s without nonlinearity did not converge' % case['solver'])
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    for k, n in enumerate(gen.names(case['pol'])):
        sc = np.abs(lin[2]).max()*(1 if k == 2 else 1/(omega*m*dl))
        got, want = F[k], lin[k]
        if case['pol'] == 'Hz' and k < 2 and not case['opts'].get('averaging') and np.abs(got*eps - want*ref.edge(eps, 1 - k)).max() < np.abs(got - want).max():
            # without averaging=True they may be those for the permittivity of the cell
            got, want = got*eps, want*ref.edge(eps, 1 - k)
            sc *= np.abs(eps).max()
        if case['pol'] == 'Hz':
            sc /= min(1, np.abs(ref.edge(eps, 0)).min(), np.abs(ref.edge(eps, 1)).min())
        ctx.close(got, want, 1e-8, 'nonlinear %s without nonlinearity' % n, scale=sc)
    ctx.label(case['pol'] + ' ' + case['kind'])
    ctx.nontrivial(np.abs(lin[2]).max() > 0)


@st.composite
def options(draw):
    """arguments that should not matter (averaging does for 'Hz')"""
    o = {}
    if draw(st.integers(0, 2)) == 0:
        o['averaging'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o['timing'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o['matrix_format'] = draw(st.sampled_from(['csr', 'csc', 'coo', 'lil', 'dia']))
    return o


@st.composite
def pert(draw):
    c = draw(kerr_sims())
    c['thr'] = draw(st.sampled_from([None, None, 1e-6, 1e-8, 1e-11]))
    c['start'] = draw(st.sampled_from(['fresh', 'solved', 'given']))
    c['opts'] = draw(options())
    c['other'] = draw(st.sampled_from([s for s in ('born', 'newton', 'hybrid') if s != c['solver']]))
    return c


@st.composite
def hist(draw):
    c = draw(kerr_sims(nmax=16, pml_max=4))
    c['solver'] = draw(st.sampled_from(['born', 'newton']))
    c['its'] = draw(st.integers(1, 12))
    c['start'] = draw(st.sampled_from(['fresh', 'given']))
    return c


@st.composite
def none(draw):
    c = draw(gen.sims())
    c['kind'] = draw(st.sampled_from(['none', 'chi', 'region']))
    c['opts'] = draw(options())
    c['solver'] = draw(st.sampled_from(['born', 'hybrid'] + (['newton'] if c['pol'] == 'Ez' else [])))
    return c


TESTS = [Prop('perturbative', pert(), perturbative, 400),
         Prop('history', hist(), history, 200),
         Prop('strong', kerr_sims(targets=(0.1, 40.0)), strong, 240),
         Prop('without', none(), without, 200)]
