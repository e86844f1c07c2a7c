"""C09: design regions are initialized as requested."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Random structures, design regions (rectangles, scattered cells, empty, everything; integer or float masks), integer and other maximum
permittivities and styles, also initialized twice and after solving.  Non-trivial: the design region has cells and is not everything."""
ASSUMPTIONS = ["design regions are 0/1 masks"]


def mask(case):
    d = np.zeros((case['nx'], case['ny']), dtype=case['dtype'])
    for x, y, w, h in case['rects']:
        d[x:x + w, y:y + h] = 1
    if case['scatter']:
        d[np.random.RandomState(5000 + case['scatter']).random_sample(d.shape) < 0.3] = 1
    return d


def run(case, ctx):
    nx, ny = case['nx'], case['ny']
    eps = gen.build_eps(case['eps'], nx, ny)
    if case['whole'] and np.isrealobj(eps):
        eps = np.round(eps).astype(int)
        ctx.label('integers')
    d = mask(case)
    sim = gen.make(case, eps=eps.copy(), src=gen.build_src(case['src'], nx, ny))
    inside = d == 1
    solved = False
    state = eps.copy()
    for style, eps_m, rs in case['styles']:
        if case['solve']:
            sim.solve_fields()
        held = sim.eps_r
        held_values = np.array(held)
        keep = d.copy()
        np.random.seed(rs)
        sim.init_design_region(d, eps_m, style=style)
        ctx.check(np.array_equal(d, keep), 'the design region was changed')
        ctx.check(np.array_equal(held, held_values), 'the permittivity array used before was changed in place')
        got = np.array(sim.eps_r)
        ctx.check(got.shape == (nx, ny), 'shape of the permittivity')
        ctx.close(got[~inside], state[~inside], 1e-13, "style '%s': cells outside of the design region" % style)
        v = got[inside]
        want = {'full': eps_m, 'halfway': (1 + eps_m)/2, 'empty': 1.0}.get(style)
        if want is not None:
            ctx.close(v, np.full(v.shape, want), 1e-12, "style '%s'" % style, scale=max(1, eps_m))
        elif style in ('random', 'random_sym'):
            ctx.check(np.all(np.imag(v) == 0), "style '%s': complex cells" % style)
            v = np.real(v)
            ctx.check(np.all((v >= 1 - 1e-12) & (v <= eps_m + 1e-12)), "style '%s' outside of [1, eps_m]" % style)
            if style == 'random_sym':
                both = inside & inside[:, ::-1]
                ctx.close(got[both], got[:, ::-1][both], 1e-12, "style 'random_sym' is not symmetric in y", scale=eps_m)
                if both.sum() > 40:
                    ctx.check(np.std(got[both]) > 0.02*(eps_m - 1), 'random cells hardly vary')
            elif len(v) > 40:
                ctx.check(np.std(v) > 0.05*(eps_m - 1), 'random cells hardly vary')
                ctx.check(v.min() < 1 + 0.4*(eps_m - 1) and v.max() > 1 + 0.6*(eps_m - 1), 'random cells do not span the range')
        else:
            ctx.close(v, state[inside], 1e-13, 'design region without a style')
        if style in ('random', 'random_sym') and len(v) > 8:
            other = gen.make(case, eps=state.copy())
            np.random.seed(rs + 1)
            other.init_design_region(d, eps_m, style=style)
            ctx.check(not np.array_equal(np.array(other.eps_r)[inside], got[inside]), "style '%s' gave the same cells again" % style)
        ctx.close(np.array(sim.rho), (got - 1)/(eps_m - 1), 1e-12, 'density', scale=max(1, np.abs(got).max()/(eps_m - 1)))
        if want is not None and v.size:
            rho = {'full': 1, 'halfway': 0.5, 'empty': 0}[style]
            ctx.close(np.array(sim.rho)[inside], np.full(v.shape, rho, dtype=float), 1e-10, 'density of the design region', scale=1)
        state = got
        ref = gen.make(case, eps=got.copy(), src=gen.build_src(case['src'], nx, ny))
        if style or not case['solve']:
            F, G = sim.solve_fields(), ref.solve_fields()
            ctx.close(F[2], G[2], 1e-6, "field after style '%s'" % style)
        ctx.label(style or 'none')
    ctx.nontrivial(inside.any() and not inside.all())


@st.composite
def cases(draw):
    c = draw(gen.sims(nmax=20, pml_max=4, nmin=1, noise=True))
    nx, ny = c['nx'], c['ny']
    rect = st.tuples(st.integers(0, nx - 1), st.integers(0, ny - 1), st.integers(1, nx), st.integers(1, ny)).map(list)
    c['rects'] = draw(st.lists(rect, max_size=2))
    c['scatter'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c['whole'] = draw(st.integers(0, 3)) == 0
    c['dtype'] = draw(st.sampled_from(['float', 'int', 'bool', 'uint8']))
    c['styles'] = [[draw(st.sampled_from(['full', 'halfway', 'empty', 'random', 'random_sym', ''])), draw(st.one_of(gen.dec(1.5, 14), st.integers(2, 13))), draw(st.integers(0, 99))]
                   for _ in range(draw(st.integers(1, 3)))]
    c['solve'] = draw(st.booleans())
    return c


TESTS = [Prop('init', cases(), run, 1200)]
