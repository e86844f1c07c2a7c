"""C23: binarized objectives."""
import inspect
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt

RULE = """Random permittivities (inside and beyond the two materials, binary, uniform, random), 0/1 design regions, eps_m, exponents, fields and
objectives of three or more arguments (the third is the permittivity); value of each of the three wrapped objectives against the formula
worked out cell by cell, with arguments by position and by name, derivatives by autograd against the product rule with hand-derived derivatives of the penalty, binary designs, and
use in an Objective.  Non-trivial: the design is not binary and the objective is not zero."""
ASSUMPTIONS = ["the third argument is the permittivity, as in the class documentation", "gray levels within the two materials for "
               "smoothness and the exponential (the absolute value has a kink where the level is 0)"]

NAMES = ['density', 'density_exp', 'smoothness']


def build(case):
    nx, ny = case['nx'], case['ny']
    r = np.random.RandomState(case['seed'])
    des = opt.mask(case)
    m = case['eps_m']
    k = case['fill']
    if k == 'binary':
        rho = r.randint(0, 2, (nx, ny)).astype(float)
    elif k == 'uniform':
        rho = np.full((nx, ny), case['level'])
    elif k == 'beyond':
        rho = 2*r.random_sample((nx, ny)) - 0.5
    else:
        rho = 0.02 + 0.96*r.random_sample((nx, ny))
    out = r.random_sample((nx, ny))*3 - 1            # the outside does not matter
    eps = np.where(des == 1, 1 + (m - 1)*rho, 1 + (m - 1)*out)
    e = r.standard_normal((nx, ny)) + 1j*r.standard_normal((nx, ny))
    f = r.standard_normal((nx, ny)) + 1j*r.standard_normal((nx, ny))
    return des, rho, eps, e, f


def penalty(kind, rho, des, const):
    g = [4*p*(1 - p) for p, d in zip(rho.ravel().tolist(), des.ravel().tolist()) if d == 1]
    mean = sum(g)/len(g)
    if kind == 'density':
        return 1 - mean
    if kind == 'density_exp':
        return np.exp(-const*abs(mean))
    return 1 - (sum(abs(v) for v in g) + sum(abs(v) for v in g))/2/len(g)


def slope(kind, rho, des, const, eps_m):
    """derivative of the penalty by the permittivity of each cell"""
    g = 4*rho*(1 - rho)*(des == 1)
    dg = 4*(1 - 2*rho)*(des == 1)/(eps_m - 1)
    n = (des == 1).sum()
    if kind == 'density':
        return -dg/n
    if kind == 'density_exp':
        mean = g.sum()/n
        return -const*np.sign(mean)*dg/n*np.exp(-const*abs(mean))
    return -np.sign(g)*dg/n


def objective(case):
    import autograd.numpy as npa
    k = case['obj']
    if k == 'fields':
        return lambda e, e_nl, eps: npa.sum(npa.abs(e)) + 2*npa.sum(npa.square(npa.abs(e_nl)))
    if k == 'eps':
        return lambda e, e_nl, eps: npa.sum(npa.square(npa.abs(e))*eps) - npa.real(npa.sum(e_nl))
    if k == 'more':
        return lambda e, e_nl, eps, extra: npa.sum(npa.square(npa.abs(e)))*extra + npa.sum(npa.cos(eps))
    if k == 'zero':
        return lambda e, e_nl, eps: 0.0*npa.sum(npa.abs(e))

    def J(e, e_nl, eps):
        """negative objective"""
        return -npa.sum(npa.square(npa.abs(e_nl))) - 0.1*npa.sum(npa.abs(eps))
    return J


def binarize(case, ctx):
    from angler.utils import Binarizer
    from angler.objective import Objective, obj_arg
    from autograd import grad
    des, rho, eps, e, f = build(case)
    args = [e, f, eps] + ([1.7] if case['obj'] == 'more' else [])
    keep = [np.array(a, copy=True) for a in args] + [des.copy()]
    J = objective(case)
    const = case['const']
    b = Binarizer(des, case['eps_m']) if case['plain'] else Binarizer(des, case['eps_m'], exp_const=const)
    if case['plain']:
        const = 1
    J0 = J(*args)
    for kind in case['order']:
        K = getattr(b, kind)(J)
        want = penalty(kind, rho, des, const)
        size = abs(J0)*(1 + abs(want))
        ctx.close(K(*args), J0*want, 1e-11, kind, scale=size + 1e-300)
        if case['fill'] == 'binary':
            ctx.close(K(*args), J0, 1e-11, kind + ' of a binary design', scale=size + 1e-300)
        ctx.check(len(inspect.signature(K).parameters) == len(args), kind + ': takes %d arguments' % len(inspect.signature(K).parameters))
        # arguments by name
        names = list(inspect.signature(J).parameters)
        k = case['named'] % (len(args) + 1)
        ctx.close(K(*args[:k], **dict(zip(names[k:], args[k:]))), J0*want, 1e-11, '%s, arguments from %d on by name' % (kind, k), scale=size + 1e-300)
        # product rule
        for i in range(len(args)):
            if i == 2 and case['fill'] in ('binary',) and kind == 'smoothness':
                continue           # at the kink
            if i == 2 and case['fill'] == 'uniform' and case['level'] in (0.0, 1.0):
                continue
            g = np.abs(4*rho*(1 - rho))[des == 1]
            if i == 2 and case['fill'] == 'beyond' and (g.min() < 1e-6 or kind == 'density_exp' and abs((4*rho*(1 - rho))[des == 1].mean()) < 1e-6):
                continue           # at the kink
            g0 = grad(J, i)(*args)
            w = g0*want
            if i == 2:
                w = w + J0*slope(kind, rho, des, const, case['eps_m'])
                if case['fill'] == 'binary' and kind == 'density_exp':
                    continue
            sc = np.abs(w).max() + np.abs(g0).max() + 1e-300
            if i == 2:          # where the terms cancel
                sc += abs(J0)*(1 + const)*4/(case['eps_m'] - 1)/(des == 1).sum()
            ctx.close(grad(K, i)(*args), w, 1e-9, '%s: derivative by argument %d' % (kind, i), scale=sc)
        # can be used where the objective can
        Objective(K, [obj_arg('a%d' % i, component='Ez', nl=bool(i % 2)) for i in range(len(args))])
        ctx.close(J(*args), J0, 0, 'the objective itself')
        ctx.label(kind)
    # twice
    if case['twice']:
        k1, k2 = case['order'][:2]
        K = getattr(b, k1)(getattr(b, k2)(J))
        w = penalty(k1, rho, des, const)*penalty(k2, rho, des, const)
        ctx.close(K(*args), J0*w, 1e-11, '%s of %s' % (k1, k2), scale=abs(J0)*(1 + abs(w)) + 1e-300)
    for a, k in zip(args + [des], keep):
        ctx.check(np.array_equal(a, k), 'an argument was changed')
    ctx.label(case['fill'])
    ctx.nontrivial(case['fill'] != 'binary' and J0 != 0)


@st.composite
def cases(draw):
    c = {'nx': draw(st.integers(1, 12)), 'ny': draw(st.integers(1, 12)), 'seed': draw(gen.SEEDS)}
    draw(opt.designs(c, filters=False))
    c['eps_m'] = draw(gen.dec(1.5, 13, 1))
    c['const'] = draw(st.sampled_from([1, 2, 0.3, 10, 0]))
    c['plain'] = draw(st.booleans())
    c['fill'] = draw(st.sampled_from(['random', 'random', 'binary', 'uniform', 'beyond']))
    c['level'] = draw(st.sampled_from([0.5, 0.25, 0.0, 1.0, 0.9]))
    c['obj'] = draw(st.sampled_from(['fields', 'eps', 'more', 'zero', 'neg']))
    c['order'] = draw(st.permutations(NAMES))
    c['twice'] = draw(st.booleans())
    c['named'] = draw(st.integers(0, 4))
    return c


TESTS = [Prop('binarize', cases(), binarize, 600)]
