"""C07: mode sources."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Random layered cross-sections (slabs, graded layers), both polarizations and directions, segments, orders, index guesses and
scales, positions counted from either end.  The written source is compared with the eigenvectors of a dense reference operator
of the cross-section (with loss, its magnitude, and itself with that of a second setup), W_in with the flux of that source in a straight waveguide.  Non-trivial: the cross-section is not uniform."""
ASSUMPTIONS = ["eigenvalues as close as 1e-6 of the operator norm are not told apart (their modes are not unique)",
               "W_in is compared in magnitude: it is measured opposite to the source, where power may flow along -x"]


def operator(eps, pol, omega, dl, L0):
    """transverse eigenproblem of the cross-section (dense); the eigenvalues are beta^2"""
    n = len(eps)
    e0, m0 = gen.EPS0*L0, gen.MU0*L0
    I = np.eye(n)
    Db = (I - np.roll(I, -1, axis=1))/dl        # (Db f)[i] = (f[i] - f[i-1])/dl, around the end
    Df = (np.roll(I, 1, axis=1) - I)/dl
    if n == 1:
        Db = Df = np.zeros((1, 1))
    A = omega**2*m0*np.diag(e0*eps)
    if pol == 'Ez':
        return A + Df @ Db
    edge = e0*(eps + np.roll(eps, 1))/2
    return A + np.diag(e0*eps) @ Df @ np.diag(1/edge) @ Db


def cross_section(case):
    n = case['n']
    eps = np.ones(n)*case['bg']
    for at, w, v in case['slabs']:
        eps[at:at + w] = v
    if case['graded']:
        eps = eps + case['graded']*np.random.RandomState(1).random_sample(n)
    if case.get('loss'):        # of the slabs
        eps = eps - 1j*case['loss']*(eps - case['bg'])
    return eps


def structure(case, cross):
    """the cross-section along the whole domain, apart from a block behind the source"""
    eps = np.repeat(cross[None, :], case['m'], 0)
    if case['block']:
        at = case['at'] % case['m']
        i = (at + 2) % case['m']
        if i > at:
            eps[i:, ::2] = case['block']
    return eps


def mode_near(A, sigma, order, gap_min=1e-6):
    """distances of the eigenvalues from the estimate, sorted, and whether the order-th mode is unique"""
    vals = np.linalg.eigvals(A)
    norm = np.linalg.norm(A, 2)
    idx = np.argsort(np.abs(vals - sigma))
    dist = np.abs(vals - sigma)[idx]
    k = order - 1
    gap = np.sort(np.abs(vals - vals[idx[k]]))
    unique = not (len(gap) > 1 and gap[1] < gap_min*norm)
    tie = any(abs(dist[k] - dist[j]) < gap_min/10*norm for j in (k - 1, k + 1) if 0 <= j < len(dist))
    return dist, unique and not tie, norm


def place(case, at, mid):
    return [at, mid] if case['d'] == 'x' else [mid, at]


def simulation(case, eps, pml=None):
    """eps has the direction of the mode along its first axis"""
    p = [case['p'], case['pt']]
    c = dict(case, npml=p if case['d'] == 'x' else p[::-1])
    arr = eps if case['d'] == 'x' else eps.T.copy()
    return gen.make(c, eps=arr, src=np.zeros(arr.shape, complex))


def along(case, a):
    return a if case['d'] == 'x' else a.T


def segment(case):
    mid, w, n = case['mid'] % case['n'], case['w'], case['n']
    return max(int(mid - w/2), 0), min(int(mid + w/2), n)


def written(case, ctx):
    cross = cross_section(case)
    eps = structure(case, cross)
    m, n = eps.shape
    omega, dl = gen.omega_dl(case)
    lo, hi = segment(case)
    sub = cross[lo:hi]
    A = operator(sub, case['pol'], omega, dl, case['L0'])
    neff = case['guess']*np.sqrt(sub.real.max())
    sigma = (omega*np.sqrt(gen.EPS0*gen.MU0)*case['L0']*neff)**2
    dist, unique, norm = mode_near(A, sigma, case['order'])
    if not unique:
        ctx.label('not unique')

    out = []
    for k in range(2):
        np.random.seed(k)
        sim = simulation(case, eps)
        before = np.zeros((m, n), complex)
        if case['other']:
            before += np.random.RandomState(4).standard_normal((m, n))
            sim.src = (before if case['d'] == 'x' else before.T).copy()
        sim.add_mode(neff, case['d'], place(case, case['at'], case['mid']), case['w'], scale=case['scale'], order=case['order'])
        sim.setup_modes()
        src = along(case, sim.src)
        rest = np.ones((m, n), bool)
        at = case['at'] % m
        rest[at, lo:hi] = False
        ctx.check(np.array_equal(src[rest], before[rest]), 'source changed outside of its line segment')
        out.append(src[at, lo:hi].copy())
        ctx.check(np.array_equal(along(case, sim.eps_r), eps), 'setting up a mode changed the permittivity')
    v = out[0]
    ctx.close(np.array(np.linalg.norm(v)), np.array(abs(case['scale'])), 1e-9, 'norm of the mode')
    if case.get('loss'):
        # the mode has a phase front, of which the sign is written
        if unique:
            vals, vecs = np.linalg.eig(A)
            w = np.abs(vecs[:, np.argsort(np.abs(vals - sigma))[case['order'] - 1]])
            ctx.close(np.abs(v), abs(case['scale'])*w/np.linalg.norm(w), 1e-6, 'magnitude of the mode of a lossy cross-section')
            ctx.close(out[1], out[0], 1e-6, 'mode of a lossy cross-section set up a second time')
        ctx.label('lossy')
        ctx.nontrivial(unique)
        return
    u = v/np.linalg.norm(v)
    lam = np.vdot(u, A @ u)
    r = np.linalg.norm(A @ u - lam*u)
    k = case['order'] - 1
    if unique:
        ctx.check(r <= 1e-8*norm, 'the source is not an eigenmode of the cross-section (residual %.3g of %.3g)' % (r, norm))
        ctx.check(abs(abs(lam - sigma) - dist[k]) <= 1e-7*norm, 'the source is not the mode number %d from the estimate: distance %.8g, distances %s'
                  % (case['order'], abs(lam - sigma), dist[:case['order'] + 2]))
        ctx.close(out[1], out[0], 1e-7, 'mode set up a second time')
        # another amplitude
        np.random.seed(7)
        sim = simulation(case, eps)
        sim.add_mode(neff, case['d'], place(case, case['at'], case['mid']), case['w'], scale=-case['s']*case['scale'], order=case['order'])
        sim.setup_modes()
        ctx.close(along(case, sim.src)[case['at'] % m, lo:hi], -case['s']*v, 1e-7, 'mode with minus %g times the scale' % case['s'])
        # the same, rotated
        turned = dict(case, d='y' if case['d'] == 'x' else 'x')
        np.random.seed(5)
        sim = simulation(turned, eps)
        sim.add_mode(neff, turned['d'], place(turned, case['at'], case['mid']), case['w'], scale=case['scale'], order=case['order'])
        sim.setup_modes()
        ctx.close(along(turned, sim.src)[case['at'] % m, lo:hi], v, 1e-7, 'mode of the structure with x and y exchanged')
    ctx.label('%s %s order %d' % (case['pol'], case['d'], case['order']))
    ctx.nontrivial(np.ptp(sub) > 0 and unique)


def power(case, ctx):
    cross = cross_section(case)
    eps = structure(case, cross)
    m, n = eps.shape
    omega, dl = gen.omega_dl(case)
    lo, hi = segment(case)
    neff = case['guess']*np.sqrt(cross.real.max())
    A = operator(cross[lo:hi], case['pol'], omega, dl, case['L0'])
    sigma = (omega*np.sqrt(gen.EPS0*gen.MU0)*case['L0']*neff)**2
    if not mode_near(A, sigma, case['order'])[1]:
        ctx.label('not unique')
        return
    def make(at, scale, other=False):
        sim = simulation(case, eps)
        if other:
            sim.src = sim.src + 1.0
            sim.add_mode(1.0, case['d'], place(case, 3, n//2), n - n % 2, scale=3.0)
            sim.setup_modes()
            if not case.get('keep'):
                sim.modes = []
        sim.add_mode(neff, case['d'], place(case, at, case['mid']), case['w'], scale=scale, order=case['order'])
        sim.setup_modes()
        return sim
    at = case['at'] % m
    sim = make(at, case['scale'])
    straight = simulation(case, np.repeat(cross[None, :], m, 0))
    straight.src = along(case, sim.src).copy() if case['d'] == 'x' else sim.src.copy()
    F = straight.solve_fields()
    opposite = (m - at) % m
    P = straight.flux_probe(case['d'], place(case, opposite, case['mid']), case['w'])
    sc = np.abs(F[2]).max()*max(np.abs(F[0]).max(), np.abs(F[1]).max())*dl*(hi - lo)
    ctx.close(np.array(abs(sim.W_in)), np.array(abs(P)), 1e-6, 'input power against the flux in the straight waveguide', scale=sc)
    for what, other in (('position counted from the end', make(at - m, case['scale'])),
                        ('other sources present', make(at, case['scale'], other=True))):
        ctx.close(np.array(other.W_in), np.array(sim.W_in), 1e-6, 'input power with ' + what, scale=sc)
    s = case['s']
    other = make(at, case['scale']*s)
    ctx.close(np.array(other.W_in), np.array(sim.W_in*s**2), 1e-6, 'input power at %g times the scale' % s, scale=sc*s**2)
    ctx.check(np.array_equal(along(case, sim.eps_r), eps), 'setting up a mode changed the permittivity')
    ctx.check(all(f is None for f in sim.fields.values()), 'setting up a mode stored fields in the simulation')
    ctx.label(case['pol'] + ' ' + case['d'])
    ctx.nontrivial(np.ptp(cross) > 0 and abs(P) > 1e-9*sc)


def launched(case, ctx):
    """the mode of the whole cross-section of an 'Ez' waveguide keeps its profile"""
    cross = cross_section(case)
    eps = np.repeat(cross[None, :], case['m'], 0)
    sim = simulation(case, eps)
    neff = case['guess']*np.sqrt(cross.real.max())
    n = case['n']
    omega, dl = gen.omega_dl(case)
    sigma = (omega*np.sqrt(gen.EPS0*gen.MU0)*case['L0']*neff)**2
    if not mode_near(operator(cross, 'Ez', omega, dl, case['L0']), sigma, case['order'])[1]:
        ctx.label('not unique')
        return
    sim.add_mode(neff, case['d'], place(case, case['at'], n//2), n, order=case['order'])
    sim.setup_modes()
    v = np.array(along(case, sim.src)[case['at'] % case['m']])
    F = along(case, sim.solve_fields()[2])
    a = F @ v/np.vdot(v, v)
    ctx.close(F, a[:, None]*v[None, :], 1e-6, 'field of a mode source against the profile of the mode')
    ctx.label(case['d'])
    ctx.nontrivial(np.ptp(cross) > 0)


@st.composite
def base(draw, pols=('Ez', 'Hz'), full=False):
    m, n = draw(st.integers(9, 26)), draw(st.integers(12, 40))
    if full:
        n += n % 2
    c = {'pol': draw(st.sampled_from(list(pols))), 'd': draw(st.sampled_from(['x', 'y'])), 'm': m, 'n': n,
         'lam': draw(gen.dec(0.5, 3)), 'ppw': draw(gen.dec(10, 40, 1)), 'L0': draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-3, 1.0])),
         'p': draw(st.integers(1 if full else 0, 3)), 'pt': 0 if full else draw(st.integers(0, 4)),
         'bg': draw(st.one_of(st.just(1.0), gen.dec(1, 3))), 'graded': 0, 'block': 0, 'other': draw(st.booleans())}
    e, one = draw(gen.dec(1.5, 12)), draw(st.booleans())
    c['slabs'] = [[draw(st.integers(0, n - 3)), draw(st.integers(2, n//2)), e if one else draw(gen.dec(1.5, 12))]
                  for _ in range(draw(st.integers(1, 2)))]
    if not one:
        c['graded'] = draw(st.sampled_from([0, 0, 0.5, 2.0]))
    if draw(st.booleans()):
        c['block'] = draw(gen.dec(1, 12))
    if draw(st.integers(0, 9)) == 0:    # a uniform cross-section, and the exact index of its plane wave
        c['slabs'] = [[0, n, e]]
        c['graded'] = 0
    c['at'] = draw(st.integers(1, m - 2))
    if draw(st.booleans()):
        c['at'] -= m
    w = draw(st.integers(10, n))
    mid = draw(st.integers(w//2, n - 1))
    if min(int(mid + w/2), n) - max(int(mid - w/2), 0) < 9:
        mid = n//2
    c['w'], c['mid'] = w, mid - (n if draw(st.booleans()) else 0)
    if full:
        c['w'], c['mid'] = n, n//2
    c['order'] = draw(st.integers(1, 4))
    c['guess'] = draw(gen.dec(0.3, 1.05))
    if c['slabs'][0][1] == n and not full:
        c['guess'], c['order'] = 1.0, 1
    c['scale'] = draw(st.sampled_from([1, 1, 2.5, 0.01, 30, -1, -2.5]))
    c['s'] = draw(gen.dec(0.2, 5, 1))
    c['keep'] = draw(st.booleans())
    c['loss'] = 0 if full else draw(st.sampled_from([0, 0, 0, 0.02, 0.3]))
    return c


TESTS = [Prop('written', base(), written, 500),
         Prop('power', base(), power, 240),
         Prop('launched', base(pols=('Ez',), full=True), launched, 200)]
