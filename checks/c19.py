"""C19: the derivative check reports true pairs."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c02 import amplification
from checks.c10 import kerr_sims, kerr, add_nls, response
from checks.c13 import fixed_point

RULE = """Random problems (linear of both polarizations, or with Kerr nonlinearities) with small design regions, numbers of points, step sizes and
random states, after nothing, after solves, or after other evaluations.  All forward differences of the design region are computed with
fresh simulations; every returned pair has to be the gradient and the difference of one and the same cell.  With an objective whose
derivative is made wrong by a factor, gradient and difference have to differ by it.  Repeated checks draw every cell.  Non-trivial: two
cells with different pairs; at least three cells."""
ASSUMPTIONS = ["resonant problems are skipped (counted)"]


def wrong(f, factor):
    """f with a derivative that is wrong by a factor"""
    from autograd.extend import primitive, defvjp
    g = primitive(lambda x: x*1.0)
    defvjp(g, lambda ans, x: lambda v: v*factor)
    n = f.__code__.co_argcount
    if n == 1:
        return lambda a: g(f(a))
    return lambda a, b: g(f(a, b))


class Skip(Exception):
    """not perturbative"""


def pairs(case, ctx):
    try:
        _pairs(case, ctx)
    except Skip:
        ctx.label('not perturbative, skipped')


def _pairs(case, ctx):
    p = opt.Problem(case)
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    eps = p.eps()
    sim = gen.make(case, eps=eps.copy(), src=src)
    F = sim.solve_fields()
    amp = amplification(case, F, src)
    if amp > 1e4:
        ctx.label('resonant, skipped')
        return
    nonlinear = 'nls' in case
    if nonlinear:
        top = np.abs(kerr(case, F[2], eps + 0.1, True)).max()
        s = response(sim, F[2])
        if not top > 0 or not s < 1e3:
            ctx.label('not excited, or resonant')
            return
        r = np.sqrt(case['target']/s/top)
        if not np.isfinite(r):
            return
        src, F = src*r, [f*r for f in F]
    pol = case['pol']

    def value(rho):
        e = p.eps(rho)
        if nonlinear:
            lin, non = fixed_point(case, e, src)
            one = gen.make(case, eps=e, src=src)
            if not max(np.abs(kerr(case, f['Ez'], e)).max() for f in (lin, non))*response(one, lin['Ez'], 4) < 0.15:
                raise Skip()
        else:
            lin, non = dict(zip(gen.names(pol), gen.make(case, eps=e, src=src).solve_fields())), None
        return float(J(*opt.pick(case, lin, non)))

    lin = dict(zip(gen.names(pol), F))
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if pol == 'Ez' else gen.EPS0)*case['L0']
    sz = np.abs(F[2]).max()
    J = opt.make_J(case, [max(np.abs(lin[k]).max(), sz*(1 if k == pol else 0.1/(omega*m*dl))) for k, _ in case['args']])
    factor = case['factor']
    Jo = J if factor == 1 else wrong(J, factor)

    # start from the unfiltered permittivity, as init_design_region leaves it
    start = np.where(p.des == 1, 1 + (case['eps_m'] - 1)*p.rho, p.eps0)
    sim = gen.make(case, eps=start, src=src)
    if nonlinear:
        add_nls(sim, case)
    sim.init_design_region(opt.typed(case, p.des), case['eps_m'])
    o = p.optimization(opt.make_objective(case, Jo), sim)
    if case['before'] == 'J':
        o.compute_J(sim)
    elif case['before'] == 'solve':
        sim.solve_fields()
    elif case['before'] == 'check':
        o.check_deriv(Npts=1)
    elif case['before'] == 'other':
        other = gen.make(case, eps=p.eps0.copy()*1.3, src=src*2)
        other.rho = p.rho.copy()
        if nonlinear:
            add_nls(other, case)
        o.compute_J(other)
    np.random.seed(case['rand'])
    h = case['h']
    got = o.check_deriv(Npts=case['n'], d_rho=h)
    ctx.check(len(got) == 2 and len(got[0]) == case['n'] and len(got[1]) == case['n'], 'returned %s numbers' % [len(x) for x in got])
    ctx.close(np.array(sim.rho), p.rho, 1e-9, 'density after the check')
    ctx.close(sim.eps_r, p.eps(), 1e-9, 'permittivity after the check')

    fresh = gen.make(case, eps=p.eps(), src=src)
    if nonlinear:
        add_nls(fresh, case)
    fresh.rho = p.rho.copy()
    g = p.optimization(opt.make_objective(case, J), fresh).compute_dJ(fresh, p.des)
    J0 = value(p.rho)
    table = []
    for c in np.argwhere(p.des == 1):
        d = np.zeros(p.des.shape)
        d[tuple(c)] = h
        table.append((factor*g[tuple(c)], (value(p.rho + d) - J0)/h))
    table = np.array(table)
    big = np.abs(table).max() + 1e-12
    noise = 1e-5*big + 1e-12*(1 + amp)*max(1, abs(J0))/abs(h) + (1e-9/abs(h) if nonlinear else 0)
    if noise > 1e-2*big:
        ctx.label('too rough, skipped')
        return
    for a, b in zip(*got):
        miss = np.maximum(np.abs(table[:, 0] - a), np.abs(table[:, 1] - b))
        ctx.check(miss.min() <= noise, 'pair (%.8g, %.8g) belongs to no cell; closest (%.8g, %.8g)' % (a, b, *table[np.argmin(miss)]))
        if factor != 1 and abs(table[np.argmin(miss), 0]) > 50*noise and abs(h) <= 1e-3:
            ctx.check(abs(a - b) > 10*noise, 'a wrong derivative goes unnoticed')
    ctx.label(case['before'])
    ctx.label('right derivative' if factor == 1 else 'wrong derivative')
    ctx.nontrivial(len(table) > 1 and np.abs(table - table[0]).max() > 10*noise)


def cover(case, ctx):
    """every cell of the design region is drawn eventually: 150 draws among at most 6 cells miss one with a probability below 1e-11"""
    p = opt.Problem(case)
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    sim = gen.make(case, eps=p.eps(), src=src)
    F = sim.solve_fields()
    if amplification(case, F, src) > 1e4 or not np.abs(F[2]).max() > 0:
        ctx.label('not excited, or resonant')
        return
    sim.rho = p.rho.copy()
    J = opt.make_J(case, [np.abs(F[2]).max()])
    o = p.optimization(opt.make_objective(case, J), sim)
    g = np.real(o.compute_dJ(sim, p.des))[p.des == 1]
    if len(g) > 6 or len(g) > 1 and np.diff(np.sort(g)).min() < 1e-6*np.abs(g).max():
        ctx.label('cells with the same derivative')
        return
    np.random.seed(case['rand'])
    got = []
    while len(got) < 150:
        got += list(o.check_deriv(Npts=case['n'], d_rho=1e-3)[0])
    got = np.array(got)
    seen = [int(np.sum(np.abs(got - v) <= 1e-7*np.abs(g).max())) for v in g]
    ctx.check(sum(seen) == len(got), 'a derivative of no cell')
    ctx.check(min(seen) > 0, 'of %d cells %d were never drawn (%d draws)' % (len(g), sum(v == 0 for v in seen), len(got)))
    ctx.nontrivial(len(g) > 2)


@st.composite
def small(draw):
    c = draw(gen.sims(nmin=4, nmax=7, pml_max=1, eps_hi=6.0))
    c = draw(opt.designs(c, filters=False))
    c['des'] = {'kind': 'rects', 'rects': [[draw(st.integers(0, c['nx'] - 2)), draw(st.integers(0, c['ny'] - 3)), draw(st.integers(1, 2)), draw(st.integers(1, 3))]]}
    c['rand'] = draw(gen.SEEDS)
    c['n'] = draw(st.sampled_from([1, 2, 5, 10]))
    return draw(opt.objectives(c, (c['pol'],), max_args=1))


@st.composite
def common(draw, c):
    x, y = draw(st.integers(0, c['nx'] - 1)), draw(st.integers(0, c['ny'] - 1))
    c = draw(opt.designs(c))
    c['des'] = {'kind': 'rects', 'rects': [[x, y, draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                                           [draw(st.integers(0, c['nx'] - 1)), draw(st.integers(0, c['ny'] - 1)), 2, 1]]}
    c['n'] = draw(st.integers(0, 8))
    c['h'] = draw(st.sampled_from([1e-3, 1e-2, 0.1, 1e-4, -1e-3, -1e-2]))
    c['rand'] = draw(gen.SEEDS)
    c['factor'] = draw(st.sampled_from([1, 1, 1, 2, -1]))
    c['before'] = draw(st.sampled_from(['nothing', 'J', 'solve', 'check', 'other']))
    return c


@st.composite
def linear(draw):
    c = draw(gen.sims(nmax=14, pml_max=3, eps_hi=6.0))
    c = draw(common(c))
    return draw(opt.objectives(c, opt.LIN[c['pol']], max_args=2))


@st.composite
def nonlin(draw):
    c = draw(kerr_sims(targets=(0.01, 0.08), nmax=11, pml_max=2, eps_hi=6.0))
    c = draw(common(c))
    c['h'] = min(c['h'], 0.01)
    return draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, False), need_nl=True, max_args=2))


TESTS = [Prop('linear', linear(), pairs, 480),
         Prop('nonlinear', nonlin(), pairs, 160),
         Prop('cover', small(), cover, 64)]
