"""C20: frequency and power scans."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks import c07
from checks.c02 import amplification
from checks.c10 import kerr_sims, kerr, add_nls, response
from checks.c13 import fixed_point

RULE = """Frequency scans of random problems (linear of both polarizations, or Kerr), numbers of points and relative spans; every value against a
simulation built at that frequency, the width against a count in the recomputed curve.  Power scans of random waveguides with a mode source
and a Kerr nonlinearity, amplitude ranges, solvers and probes, against directly built simulations.  Non-trivial: the values of the scan
differ from each other (frequency), the transmissions differ by more than the tolerance or there is more than one amplitude (power)."""
ASSUMPTIONS = ["the width is only defined, and compared, if the point at the center is above half of the maximum; points within 1e-7 of half of "
               "the maximum are not judged", "in power scans beyond the perturbative regime only converged amplitudes are judged, with the solver asked for (for 'hybrid': Newton's where Born's does not converge)"]


def peaked(raw, n, v0, spread, drop=0):
    import autograd.numpy as npa
    f = lambda *a: npa.exp(-npa.square((raw(*a) - v0)/spread)) - drop
    return (lambda a: f(a)) if n == 1 else (lambda a, b: f(a, b))


def frequency(case, ctx):
    p = opt.Problem(case)
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    eps = p.eps()
    F = gen.make(case, eps=eps.copy(), src=src).solve_fields()
    pol = case['pol']
    nonlinear = 'nls' in case
    omega, dl = gen.omega_dl(case)
    if nonlinear:
        one = gen.make(case, eps=eps.copy(), src=src)
        top = np.abs(kerr(case, F[2], eps + 0.1, True)).max()
        s = response(one, F[2])
        if not top > 0 or not s < 1e2:
            ctx.label('not excited, or resonant')
            return
        r = np.sqrt(case['target']/s/top)
        if not np.isfinite(r):
            return
        src, F = src*r, [f*r for f in F]
    lin = dict(zip(gen.names(pol), F))
    m = (gen.MU0 if pol == 'Ez' else gen.EPS0)*case['L0']
    sz = np.abs(F[2]).max()
    J = opt.make_J(case, [max(np.abs(lin[k]).max(), sz*(1 if k == pol else 0.1/(omega*m*dl))) for k, _ in case['args']])
    n, df = case['n'], case['df']
    at = np.array([omega*(1 - df/2 + df*k/(n - 1)) for k in range(n)])
    want, rough = [], 0.0
    for w in at:
        c = dict(case, lam=2*np.pi*gen.C0/(w*case['L0']))
        c['ppw'] = c['lam']/dl
        one = gen.make(c, eps=eps.copy(), src=src.copy())
        f = one.solve_fields()
        a = amplification(c, f, src)
        if a > 1e5:
            ctx.label('near resonance, skipped')
            return
        rough = max(rough, a)
        non = None
        if nonlinear:
            if not np.abs(kerr(case, f[2], eps)).max()*response(one, f[2]) < 0.12:
                ctx.label('not perturbative, skipped')
                return
            f, non = fixed_point(c, eps, src.copy())
            f = [f[k] for k in gen.names(pol)]
        want.append(float(J(*opt.pick(case, dict(zip(gen.names(pol), f)), non))))
    want = np.array(want)
    if case['peak'] and np.ptp(want) > 1e-3 and np.ptp(want) < 1e3:
        # an objective with its maximum near the center
        raw, v0, spread = J, want[min(n - 1, max(0, n//2 + case['shift']))], np.ptp(want)*case['peak']
        J = peaked(raw, len(case['args']), v0, spread, case['drop'])
        want = np.exp(-((want - v0)/spread)**2) - case['drop']

    sim = gen.make(case, eps=eps.copy(), src=src.copy())
    if nonlinear:
        add_nls(sim, case)
    if case['mode'] and case['ny'] >= 6:       # the scan is with the current source, not one set up anew
        sim.add_mode(1.5, 'x', [case['nx']//2, case['ny']//2], case['ny'] - case['ny'] % 2)
    sim.rho = p.rho.copy()
    o = p.optimization(opt.make_objective(case, J), sim)
    if case['before']:
        o.compute_J(sim)
    stored = {k: v for k, v in sim.fields.items()}
    kw = {} if case['pbar'] else {'pbar': False}
    freqs, objs, width = o.scan_frequency(Nf=n, df=df, **kw)
    ctx.close(np.array(freqs), at/(2*np.pi), 1e-12, 'frequencies')
    ctx.close(np.real(np.array(objs, dtype=complex)), want, 1e-6 + 1e-10*rough, 'objectives', scale=max(1, np.abs(want).max()))
    ctx.check(sim.omega == omega and np.array_equal(sim.eps_r, eps) and np.array_equal(sim.src, src), 'the scan changed the simulation')
    ctx.check(all(sim.fields[k] is v or np.array_equal(sim.fields[k], v) for k, v in stored.items()), 'the scan changed the stored fields')
    half = want.max()/2
    mid = n//2
    if np.abs(want - half).min() > (1e-5 + 1e-9*rough)*max(1, np.abs(want).max()):
        if want[mid] > half:
            lo = hi = mid
            while lo > 0 and want[lo - 1] > half:
                lo -= 1
            while hi < n - 1 and want[hi + 1] > half:
                hi += 1
            ctx.close(np.array(float(width)), np.array((hi - lo + 1)*omega*df/(n - 1)/(2*np.pi)), 1e-9, 'full width at half maximum')
            ctx.label('width' if hi - lo + 1 < n else 'width of the whole scan')
        else:
            ctx.label('center below half')
    ctx.nontrivial(np.ptp(want) > 1e-6)


def power(case, ctx):
    cross = c07.cross_section(case)
    eps = c07.structure(case, cross)
    m, n = eps.shape
    omega, dl = gen.omega_dl(case)
    lo, hi = c07.segment(case)
    neff = case['guess']*np.sqrt(cross.max())
    A = c07.operator(cross[lo:hi], 'Ez', omega, dl, case['L0'])
    sigma = (omega*np.sqrt(gen.EPS0*gen.MU0)*case['L0']*neff)**2
    if not c07.mode_near(A, sigma, case['order'])[1]:
        ctx.label('not unique')
        return
    ss = np.array([case['s_min']*(case['s_max']/case['s_min'])**(k/max(case['Ns'] - 1, 1)) for k in range(case['Ns'])])

    def make(scale, setup=True, chi=0.0):
        sim = c07.simulation(case, eps)
        if case['other']:
            sim.src = sim.src + 0.01
        if chi:
            sim.add_nl(chi, (sim.eps_r > 1)*1.0)
        sim.add_mode(neff, case['d'], c07.place(case, case['at'], case['mid']), case['w'], scale=scale, order=case['order'])
        if setup:
            sim.setup_modes()
        if case['second']:
            sim.add_mode(neff, case['d'], c07.place(case, case['at'], case['mid']), case['w'], scale=0.3*scale, order=case['order'])
        return sim

    big = make(ss.max())
    F = big.solve_fields()
    E = F[2]
    c = dict(case, nx=E.shape[0], ny=E.shape[1])
    if amplification(c, F, big.src) > 1e4 or not np.abs(E).max() > 0:
        ctx.label('resonant')
        return
    s = response(big, E)
    chi = case['target']/s/(3*np.abs(E).max()**2)*case['L0']**2

    half = case['m']//2
    spot = c07.place(case, (case['at'] + half) % m, case['mid'])
    probes = [lambda sim: sim.flux_probe(case['d'], spot, case['w'], nl=True),
              lambda sim: float(np.sum(np.abs(sim.fields_nl['Ez'])**2)),
              lambda sim: sim.flux_probe('y' if case['d'] == 'x' else 'x', spot, 3)][:case['probes']]
    W, T = [], [[] for _ in probes]
    judged = np.ones(len(ss), bool)
    for i, a in enumerate(ss):
        sim = make(a, chi=chi)
        if case['target'] <= 0.1:
            sim.solve_fields_nl(solver_nl='newton', conv_threshold=1e-12)
        else:
            # beyond the perturbative regime the two solvers need not agree: where the first one fails, the second one is used
            how = [case['solver']]
            if case['solver'] == 'hybrid':
                how = ['born', 'newton']
            for h in how:
                c10out = sim.solve_fields_nl(solver_nl=h, conv_threshold=1e-10, max_num_iter=100)
                conv = np.asarray(c10out[3]).ravel()
                done = bool(conv[-1] <= 1e-10)
                if done:
                    break
            resp = response(gen.make(dict(c, npml=sim.NPML), eps=sim.eps_r + sim.eps_nl, src=sim.src.copy()), c10out[2]) if done else np.inf
            judged[i] = done and resp*np.abs(sim.eps_nl).max() < 30
            ctx.label('strong, %s: %s%s' % (case['solver'], h, '' if judged[i] else ', not converged'))
        W.append(sim.W_in)
        for t, pr in zip(T, probes):
            t.append(pr(sim)/sim.W_in)
    sc = np.abs(F[2]).max()*max(np.abs(F[0]).max(), np.abs(F[1]).max())*dl*(hi - lo)
    if abs(W[-1]) < 1e-4*sc:
        ctx.label('no input power')
        return
    sim = make(case['scale'], setup=case['setup'], chi=chi)
    eps0, src0 = sim.eps_r.copy(), sim.src.copy()
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    o = Optimization(Objective(lambda e: 0.0, obj_arg('e')), sim, np.ones(eps0.shape), eps_m=5)
    powers, trans = o.scan_power(probes=probes, Ns=case['Ns'], s_min=case['s_min'], s_max=case['s_max'], solver=case['solver'])
    ctx.close(np.array(powers, dtype=float)/np.array(W), np.ones(len(W)), 1e-5, 'input powers relative to the direct ones')
    ctx.check(len(trans) == len(probes), '%d lists for %d probes' % (len(trans), len(probes)))
    for k in range(len(probes)):
        got, direct = np.array(trans[k], dtype=float), np.array(T[k], dtype=float)
        ctx.check(got.shape == direct.shape, '%d ratios for %d amplitudes' % (got.size, direct.size))
        if judged.any():
            ctx.close(got[judged], direct[judged], 2e-5, 'ratios of probe %d' % k,
                      scale=np.abs(direct[judged]).max() + (abs(sc/W[-1]) if k != 1 else 0)*0.1)
    ctx.check(np.array_equal(sim.eps_r, eps0) and np.array_equal(sim.src, src0) and sim.modes[0].scale == case['scale'],
              'the scan changed the simulation')
    ctx.label(case['solver'])
    ctx.nontrivial(case['Ns'] > 1)


def missing(case, ctx):
    """scan_power needs probes"""
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    sim = gen.make(case)
    o = Optimization(Objective(lambda e: 0.0, obj_arg('e')), sim, np.ones((case['nx'], case['ny'])), eps_m=5)
    ctx.raises(ValueError, lambda: o.scan_power(), 'power scan without probes')
    ctx.nontrivial()


@st.composite
def freq(draw):
    if draw(st.integers(0, 3)):
        c = draw(gen.sims(nmax=16, pml_max=4, eps_hi=8.0))
        c = draw(opt.designs(c, filters=False))
        c = draw(opt.objectives(c, opt.LIN[c['pol']], max_args=2))
    else:
        c = draw(kerr_sims(targets=(0.005, 0.05), nmax=11, pml_max=3, eps_hi=6.0))
        c = draw(opt.designs(c, filters=False))
        c = draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, False), need_nl=True, max_args=2))
    if draw(st.booleans()):         # objectives with a peak
        for t in c['terms']:
            t['kind'], t['coef'] = draw(st.sampled_from(['int', 'overlap'])), 1.0
        c['mix'] = 'sum'
    c['peak'] = draw(st.sampled_from([0, 0.3, 0.1, 0.05]))
    c['drop'] = draw(st.sampled_from([0, 0, 0.2, 0.4]))
    c['mode'] = draw(st.booleans())
    c['shift'] = draw(st.integers(-1, 1))
    c['n'] = draw(st.integers(2, 15))
    c['df'] = draw(st.sampled_from([0.05, 0.01, 0.2, 0.6, 1.0]))
    c['before'], c['pbar'] = draw(st.booleans()), draw(st.booleans())
    return c


@st.composite
def powers(draw):
    c = draw(c07.base(pols=('Ez',)))
    c['Ns'] = draw(st.integers(1, 4))
    c['s_min'] = draw(st.sampled_from([1e-2, 1.0, 5.0]))
    c['s_max'] = c['s_min']*draw(st.sampled_from([10.0, 3.0, 100.0]))
    if c['Ns'] == 1:
        c['s_max'] = c['s_min']
    c['target'] = draw(st.sampled_from([0.01, 0.05, 0.1, 4.0, 20.0]))
    c['solver'] = draw(st.sampled_from(['newton', 'born', 'hybrid']))
    c['second'] = draw(st.booleans())
    c['setup'] = draw(st.booleans())
    c['probes'] = draw(st.integers(1, 3))
    c['guess'] = draw(gen.dec(0.7, 1.0))
    c['order'] = draw(st.integers(1, 2))
    return c


TESTS = [Prop('frequency', freq(), frequency, 480),
         Prop('power', powers(), power, 200),
         Prop('missing', gen.sims(nmax=6, pml_max=1), missing, 16)]
