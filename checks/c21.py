"""C21: the index shift limit controls the source amplitude."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c02 import amplification
from checks.c10 import kerr_sims, kerr, add_nls, response
from checks.c13 import fixed_point

RULE = """Random Kerr problems with a source whose power is up to 1e8 times too weak or 1e4 times too strong for the limit (but perturbative before and after), run for one to
three steps with each method; after every step the source must be the previous one times one positive factor, with an index shift (worked
out by an independent fixed-point iteration) just below the limit.  Also without limit and without nonlinearity.  Non-trivial: the factor
differs from 1 by more than one percent."""
ASSUMPTIONS = ["'perturbative': nonlinear permittivity times linear response at most 3e-3, before and after; the shift is then proportional to the "
               "power within one percent"]


def shift(case, eps, src):
    lin, non = fixed_point(case, eps, src)
    return np.abs(np.sqrt(np.real(eps + kerr(case, non['Ez'], eps))) - np.sqrt(np.real(eps))).max()


def limited(case, ctx):
    p = opt.Problem(case)
    eps = p.eps()
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    one = gen.make(case, eps=eps.copy(), src=src)
    F = one.solve_fields()
    top = np.abs(kerr(case, F[2], eps + 0.1, True)).max()
    s = max(1.0, response(one, F[2]))
    if not top > 0 or not s < 1e3:
        ctx.label('not excited, or resonant')
        return
    r = np.sqrt(3e-3/s/top)*case['start']
    if not np.isfinite(r):
        return
    src = src*r
    F = [f*r for f in F]
    # a shift that belongs to a perturbative source
    now = shift(case, eps, src)
    if not now > 1e-14:
        ctx.label('not excited, or resonant')
        return
    limit = now*(case['want']/case['start'])**2
    sc = [max(np.abs(f).max(), 1e-3*np.abs(F[2]).max()/377) for f in (dict(zip(gen.names('Ez'), F))[k] for k, _ in case['args'])]
    J = opt.make_J(case, sc)
    sim = gen.make(case, eps=eps.copy(), src=src.copy())
    given = sim.src
    if case['mode'] != 'no nonlinearity':
        add_nls(sim, case)
    sim.rho = p.rho.copy()
    o = p.optimization(opt.make_objective(case, J), sim, max_ind_shift=None if case['mode'] == 'no limit' else float(limit))
    amps = []
    changed = False
    for k in range(case['n']):
        before = np.array(sim.src)
        amps.append(np.abs(before).max())
        got = len(o.src_amplitudes)
        n = 1
        o.run(method=case['method'], Nsteps=n, step_size=case['step'])
        after = np.array(sim.src)
        if case['method'] == 'lbfgs' and len(o.src_amplitudes) == got:
            ctx.label('L-BFGS took no step')
            amps.pop()
            ctx.check(np.array_equal(after, before), 'the source was changed without a step')
            break
        ctx.check(len(o.src_amplitudes) == got + 1, '%d amplitudes recorded in one step' % (len(o.src_amplitudes) - got))
        if case['mode'] != 'limit':
            ctx.check(np.array_equal(after, before), 'the source was changed (%s)' % case['mode'])
            continue
        i = np.unravel_index(np.argmax(np.abs(before)), before.shape)
        f = after[i]/before[i]
        ctx.check(f.real > 0 and abs(f.imag) <= 1e-12*abs(f), 'the source was multiplied by %s' % f)
        ctx.close(after, before*f.real, 1e-12, 'source against a multiple of the previous one')
        # for gradient steps the source is set before the density is updated
        now = eps if case['method'] == 'lbfgs' else eps
        if case['method'] == 'lbfgs':
            now = np.array(sim.eps_r)
        one = gen.make(case, eps=np.array(now), src=after)
        E = one.solve_fields()[2]
        if not max(1.0, abs(f)**-2)*np.abs(kerr(case, E, now)).max()*response(one, E) < 6e-3:
            ctx.label('not perturbative')
            return
        if not np.any(kerr(case, E, now)):
            ctx.label('no index shift')
            ctx.check(f == 1, 'the source was multiplied by %s without index shift' % f)
            return
        dn = shift(case, now, after)
        ctx.check(0.97*limit <= dn <= 1.0*limit, 'index shift %.6g with a limit of %.6g (was %.6g)' % (dn, limit, shift(case, now, before)))
        changed = changed or abs(f.real - 1) > 0.01
        eps = np.array(sim.eps_r)
    ctx.check(np.array_equal(given, src), 'the array of the caller was written into')
    ctx.close(np.array(o.src_amplitudes, dtype=float), np.array(amps), 1e-12, 'recorded source amplitudes')
    ctx.label(case['method'] + ', ' + case['mode'])
    ctx.nontrivial(changed or case['mode'] != 'limit')


@st.composite
def problems(draw):
    c = draw(kerr_sims(nmax=13, pml_max=3, eps_hi=6.0))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, False), max_args=2))
    c['mode'] = draw(st.sampled_from(['limit', 'limit', 'limit', 'no limit', 'no nonlinearity']))
    # amplitudes relative to the largest perturbative one
    c['start'] = draw(st.sampled_from([1.0, 0.1, 0.5, 0.01, 0.9, 1e-3, 1e-4]))
    c['want'] = draw(st.sampled_from([1.0, 0.1, 0.5, 0.01, 0.9]))
    c['n'] = draw(st.integers(1, 3))
    c['method'] = draw(st.sampled_from(['gd', 'adam', 'lbfgs']))
    c['step'] = draw(st.sampled_from([0.0, 0.01, 0.05]))
    return c


TESTS = [Prop('limited', problems(), limited, 400)]
