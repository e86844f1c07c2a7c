"""C15: objectives pass the named fields and their partials."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c10 import kerr_sims, strengthen, add_nls
from checks.c13 import fixed_point

RULE = """Random lists of one to five field arguments (components, linear or nonlinear, repetitions, any order) of random simulations with a
recording objective function, compared with the fields of fresh simulations; random objective functions with partials compared with
numerical ones at random complex arguments, also after the function was replaced; wrong argument counts, components and
polarizations.  Non-trivial: at least two different arguments (fields), a partial that is not zero (partials), any case (rejection)."""
ASSUMPTIONS = ["partials follow autograd's convention: d/d(re) - i d/d(im)"]


def lambda_of(n, f):
    """a function with exactly n named parameters"""
    ps = ', '.join('x%d' % i for i in range(n))
    return eval('lambda %s: f(%s)' % (ps, ps), {'f': f})


def fields(case, ctx):
    from angler.objective import Objective, obj_arg
    from angler import Optimization
    made = strengthen(case, 0.05) if 'nls' in case else (gen.make(case), None, None)
    if made is None:
        ctx.label('not excited, or resonant')
        return
    sim = made[0]
    eps = sim.eps_r.copy()
    lin = dict(zip(gen.names(case['pol']), gen.make(case, eps=eps.copy(), src=sim.src.copy()).solve_fields()))
    non = None
    if any(nl for _, nl in case['args']):
        add_nls(sim, case)
        lin, non = fixed_point(case, eps, sim.src.copy())
    if case['before'] == 'solved':
        sim.solve_fields()
    seen = []

    def J(*a):
        seen.append([np.array(x) for x in a])
        return 7.25

    n = len(case['args'])
    flag = {'bool': bool, 'int': int, 'numpy': np.bool_}[case['flag']]
    args = [obj_arg(case['names'][i % len(case['names'])], component=k, nl=flag(nl)) for i, (k, nl) in enumerate(case['args'])]
    # 'component' and 'nl' have defaults
    args = [obj_arg('d') if (a.component, a.nl) == ('Ez', False) and case['defaults'] else a for a in args]
    ob = Objective(lambda_of(n, J), args if n > 1 or not case['defaults'] else args[0])
    ctx.check(ob.is_linear() == (not any(nl for _, nl in case['args'])), 'is_linear() of %s is %s' % (case['args'], ob.is_linear()))
    des = np.zeros(eps.shape)
    des[0, 0] = 1
    o = Optimization(ob, sim, des, eps_m=5)
    seen.clear()
    v = o.compute_J(sim)
    ctx.check(len(seen) >= 1 and v == 7.25, 'compute_J returned %s' % v)
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    sz = np.abs(lin[case['pol']]).max()
    from checks.c02 import amplification
    if amplification(case, [0, 0, lin[case['pol']]], sim.src) > 1e6:
        ctx.label('near resonance, skipped')
        return
    ctx.check(len(seen[-1]) == n, 'J called with %d arguments' % len(seen[-1]))
    for i, (k, nl) in enumerate(case['args']):
        want = (non if nl else lin)[k]
        ctx.close(seen[-1][i], want, 1e-6 if nl else 1e-8, 'argument %d (%s%s)' % (i, k, ' nonlinear' if nl else ''),
                  scale=sz*(1 if k == case['pol'] else 1/(omega*m*dl)))
    ctx.label('%d arguments' % n)
    ctx.nontrivial(len({tuple(a) for a in case['args']}) > 1)


def partials(case, ctx):
    import autograd.numpy as npa
    r = np.random.RandomState(case['field'])
    shape = (case['nx'], case['ny'])
    n = len(case['args'])
    fs = [r.standard_normal(shape) + 1j*r.standard_normal(shape) for _ in range(n)]
    J = opt.make_J(case, [1.0]*n)
    ob = opt.make_objective(case, J)
    if case['replace']:
        J0 = J
        J = lambda_of(n, lambda *a: 2*J0(*a) + npa.real(npa.sum(a[-1]*a[-1]))/case['nx']/case['ny'])
        ob.J = J
    ctx.check(len(ob.dJ_list) == n, '%d partials for %d arguments' % (len(ob.dJ_list), n))
    base = ob.J(*fs)
    ctx.check(base == J(*fs), 'objective.J is not the objective function')
    some = 0.0
    for k in range(n):
        keep = [f.copy() for f in fs]
        d = np.asarray(ob.dJ_list[k](*fs))
        ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, fs)), 'a partial changed its argument')
        ctx.check(d.shape == shape, 'partial %d of shape %s' % (k, d.shape))
        for s in range(2):
            v = r.standard_normal(shape) + 1j*r.standard_normal(shape)
            if s == 0:
                at = np.unravel_index(r.randint(d.size), shape)
                v = np.where(np.arange(d.size).reshape(shape) == np.ravel_multi_index(at, shape), v, 0)

            def value(t, k=k, v=v):
                g = list(fs)
                g[k] = g[k] + t*v
                return float(J(*g))

            want, err = opt.slope(lambda t: value(t), 1.0, 1e-3)
            got = np.sum(np.real(d)*v.real - np.imag(d)*v.imag)
            ctx.check(abs(got - want) <= 1e-6*(abs(want) + np.sum(np.abs(d)*np.abs(v))) + err + 1e-11*max(1, abs(base)),
                      'partial %d: %.10g, numerical %.10g' % (k, got, want))
            some = max(some, abs(want))
    ctx.label('replaced' if case['replace'] else 'as constructed')
    ctx.nontrivial(some > 1e-6)


def rejected(case, ctx):
    from angler.objective import Objective, obj_arg
    from angler import Optimization
    comps = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')
    kind, n = case['kind'], case['n']
    if kind == 'count':
        args = [obj_arg('a', component='Ez') for _ in range(n)]
        for k in range(0, 6):
            f = lambda_of(k, lambda *a: 0.0)
            if k != n:
                ctx.raises(ValueError, lambda: Objective(f, args), '%d fields for a function of %d arguments' % (n, k))
            elif k:
                Objective(f, args)
    elif kind == 'component':
        bad = case['bad']
        if bad in comps:
            obj_arg('a', component=bad)
        else:
            ctx.raises(ValueError, lambda: obj_arg('a', component=bad), 'component %r' % (bad,))
    else:
        sim = gen.make(case)
        other = [c for c in comps if c not in gen.names(case['pol'])]
        own = gen.names(case['pol'])
        args = [obj_arg('a', component=own[i % 3]) for i in range(n)]
        w = case['which'] % n
        args[w] = obj_arg('a', component=other[case['which'] % 3], nl=case['nl'] and case['pol'] == 'Ez')
        o = Optimization(Objective(lambda_of(n, lambda *a: 1.0), args), sim, np.ones((case['nx'], case['ny'])), eps_m=4)
        ctx.raises(ValueError, lambda: o.compute_J(sim), 'component %s for %s polarization' % (args[w].component, case['pol']))
        ctx.raises(ValueError, lambda: o.compute_dJ(sim, o.design_region), 'gradient of component %s for %s polarization' % (args[w].component, case['pol']))
    ctx.label(kind)
    ctx.nontrivial()


@st.composite
def for_fields(draw):
    if draw(st.booleans()):
        c = draw(kerr_sims(nmax=14, pml_max=3))
        nl = [False, True]
    else:
        c = draw(gen.sims(nmax=14, pml_max=3))
        nl = [False]
    comps = gen.names(c['pol'])
    c['args'] = [[draw(st.sampled_from(comps)), draw(st.sampled_from(nl))] for _ in range(draw(st.integers(1, 5)))]
    c['flag'] = draw(st.sampled_from(['bool', 'bool', 'int', 'numpy']))
    c['names'] = draw(st.lists(st.sampled_from(['Ez', 'Hx_nl', 'x', '', 'Ey']), min_size=1, max_size=3))
    c['before'] = draw(st.sampled_from(['nothing', 'solved']))
    c['defaults'] = draw(st.booleans())
    return c


@st.composite
def for_partials(draw):
    c = {'nx': draw(st.integers(1, 7)), 'ny': draw(st.integers(1, 7)), 'field': draw(gen.SEEDS), 'replace': draw(st.booleans())}
    return draw(opt.objectives(c, ('Ez', 'Hx', 'Hy', 'Hz', 'Ex', 'Ey')))


@st.composite
def for_rejected(draw):
    c = draw(gen.sims(nmax=6, pml_max=1))
    c['kind'] = draw(st.sampled_from(['count', 'component', 'pol', 'pol']))
    c['n'] = draw(st.integers(1, 4))
    c['bad'] = draw(st.one_of(st.sampled_from(['ez', 'E', 'EZ', 'Bz', '', 'Ez_nl', 'Dx', 'Hz', 'xE']), st.text(max_size=3)))
    c['which'] = draw(st.integers(0, 11))
    c['nl'] = draw(st.booleans())
    return c


TESTS = [Prop('fields', for_fields(), fields, 500),
         Prop('partials', for_partials(), partials, 600),
         Prop('rejected', for_rejected(), rejected, 400)]
