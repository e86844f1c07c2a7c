"""C08: a simulation always solves its current state."""
import numpy as np
from copy import deepcopy
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Histories of up to 14 operations (assign permittivity, also one of another size, or source, also in place, add or clear nonlinearities, solve linearly or with a
nonlinear solver, initialize design regions, compute the index shift, probe, copy and continue with either copy) on simulations
of both polarizations, starting two- or one-dimensional; after each operation the invariants, at the end and at each solve the
fields of a freshly built simulation.  Non-trivial: at least one solve and at least one change after it."""
ASSUMPTIONS = ["nonlinear solves are compared when both converge; the sources are weak (an index shift of about 1e-3)",
               "with a permittivity of another size, source and nonlinearities are set anew too"]
POLS = ('Ez', 'Hz')


def new_eps(shape, op):
    eps = gen.build_eps(op['eps'], *shape)
    return eps[:, 0].copy() if op.get('flat') and shape[1] == 1 else eps


class Model:
    """what the simulation should be"""

    def __init__(self, case):
        self.eps = gen.build_eps(case['eps'], case['nx'], case['ny'])
        self.src = gen.build_src(case['src'], case['nx'], case['ny'])
        self.nls = []
        self.rho = None

    def copy(self):
        m = Model.__new__(Model)
        m.eps, m.src, m.nls, m.rho = self.eps.copy(), self.src.copy(), list(self.nls), self.rho
        return m


def fresh(case, m):
    sim = gen.make(case, eps=m.eps.copy(), src=m.src.copy())
    for chi, r, scale, emax in m.nls:
        if scale:
            sim.add_nl(chi, r.copy(), eps_scale=True, eps_max=emax)
        else:
            sim.add_nl(chi, r.copy())
    return sim


def compare(case, ctx, F, m, nl, what):
    ref = fresh(case, m)
    G = ref.solve_fields_nl() if nl else ref.solve_fields()
    if nl and (not np.all(np.isfinite(G[2])) or converged(G) > 1e-9 or converged(F) > 1e-9):
        ctx.label('not converged')
        return
    omega, dl = gen.omega_dl(case)
    mm = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    top = np.abs(G[2]).max()
    s = np.abs(m.src).max()
    amp = top/(s*omega*(gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']*dl**2) if s else 1
    if amp > 1e6:
        ctx.label('near resonance')
        return
    tol = 1e-6 if nl else 1e-8
    for k, n in enumerate(gen.names(case['pol'])):
        ctx.close(F[k], G[k], tol, '%s: %s' % (what, n), scale=top*(1 if k == 2 else 1/(omega*mm*dl)))


def converged(out):
    c = np.asarray(out[3]).ravel()
    used = np.flatnonzero(c)
    return c[used[-1]] if used.size else 0.0


def check_state(case, ctx, sim, m, what):
    ctx.check(np.array_equal(sim.eps_r, m.eps), 'permittivity after ' + what)
    ctx.check(np.array_equal(sim.src, m.src), 'source after ' + what)
    ctx.check(len(sim.nonlinearity) == len(m.nls), 'number of nonlinearities after ' + what)
    ctx.check((sim.Nx, sim.Ny) == m.eps.shape, 'Nx, Ny after ' + what)


def amplitude(case):
    """source scale for weak nonlinearity with chi = 1/L0-units: aims at 3 chi |E|^2 about 1e-3"""
    E = gen.make(case).solve_fields()[2]
    top = np.abs(E).max()
    return np.sqrt(1e-3/3)/top if top > 0 else 1.0


def history(case, ctx):
    a = amplitude(case)
    case = dict(case)
    m = Model(case)
    m.src = m.src*a
    eps0 = m.eps[:, 0].copy() if case['flat'] and case['ny'] == 1 else m.eps.copy()
    sim = gen.make(case, eps=eps0, src=m.src.copy())
    others = []         # copies left behind: (simulation, model, stored fields)
    solved = changed = False
    for op in case['ops']:
        k = op['op']
        nx, ny = m.eps.shape
        if k in ('eps', 'grid'):
            if k == 'grid':     # another size of the domain: everything else has to be set anew
                nx, ny = max(case['nx'] + op['more'][0], 2*case['npml'][0] + 3), max(case['ny'] + op['more'][1], 2*case['npml'][1] + 3)
                m.src, m.nls = gen.build_src(case['src'], nx, ny)*a, []
                sim.nonlinearity, sim.src = [], m.src.copy()
            m.eps = gen.build_eps(op['eps'], nx, ny)
            sim.eps_r = new_eps((nx, ny), op)
            for stored in (sim.fields, sim.fields_nl):
                ctx.check(all(v is None for v in stored.values()) and set(stored) == {'Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'},
                          'fields are still stored after assigning a permittivity')
            changed = changed or solved
        elif k == 'tweak':      # not much changes
            x, y, w, h = op['rect']
            e = m.eps.copy()
            if op['how'] == 'loss':
                e = e.astype(complex)
                e[x:x + w, y:y + h] -= 1j*op['v']
            elif op['how'] == 'cell':
                e[x % nx, y % ny] += 1e-3*op['v']
            elif op['how'] == 'roll':
                e = np.roll(e, (x, y), (0, 1))
            m.eps = e
            if op['own']:           # the simulation's own array, changed and assigned again
                new = sim.eps_r if sim.eps_r.dtype == e.dtype else sim.eps_r.astype(e.dtype)
                new[...] = e
                sim.eps_r = new
            else:
                sim.eps_r = e.copy()
            changed = changed or solved
        elif k == 'src':
            m.src = gen.build_src(op['src'], nx, ny)*a
            sim.src = m.src.copy()
            changed = changed or solved
        elif k == 'inplace':        # a single cell, as the examples place their sources
            m.src = m.src.copy()
            i = (op['at'][0] % nx, op['at'][1] % ny)
            m.src[i] = sim.src[i] = op['value']*a
            changed = changed or solved
        elif k == 'add_nl':
            if op['same'] and m.nls:        # the caller passes an array again
                r = m.nls[-1][1]
            else:
                r = np.zeros((nx, ny))
                x, y, w, h = op['rect']
                r[x:x + w, y:y + h] = 1
            m.nls.append((op['chi']*case['L0']**2, r, op['scale'], op['eps_max']))
            if op['scale']:
                sim.add_nl(op['chi']*case['L0']**2, r, eps_scale=True, eps_max=op['eps_max'])
            else:
                sim.add_nl(op['chi']*case['L0']**2, r)
            changed = changed or solved
        elif k == 'clear_nl':
            m.nls = []
            sim.nonlinearity = []
            changed = changed or solved
        elif k == 'init':
            d = np.zeros((nx, ny))
            x, y, w, h = op['rect']
            d[x:x + w, y:y + h] = 1
            before = m.eps.copy()
            if np.iscomplexobj(before) and op['style'] in ('random', 'random_sym'):
                continue
            sim.init_design_region(d, op['eps_max'], style=op['style'])
            m.eps = np.array(sim.eps_r)
            ctx.close(m.eps[d == 0], before[d == 0], 1e-13, 'cells outside of an initialized design region')
            m.rho = np.array(sim.rho)
            changed = changed or solved
        elif k == 'solve':
            F = sim.solve_fields()
            compare(case, ctx, F, m, False, 'linear solve')
            solved = True
        elif k == 'nl' and case['pol'] == 'Ez':
            F = sim.solve_fields_nl(solver_nl=op['solver'])
            compare(case, ctx, F, m, True, 'nonlinear solve')
            for n, f in zip(gen.names('Ez'), F):
                ctx.check(np.array_equal(sim.fields_nl[n], f), 'the stored nonlinear %s is not the one returned' % n)
            solved = True
        elif k == 'shift' and case['pol'] == 'Ez':
            sim.compute_index_shift()
            solved = True
        elif k == 'probe' and sim.fields[case['pol']] is not None:
            sim.flux_probe('x', [nx//2, ny//2], max(ny - ny % 2, 2))
        elif k == 'copy':
            other = deepcopy(sim)
            keep, go = (other, sim) if op['stay'] else (sim, other)
            others.append((keep, m.copy(), [None if v is None else v.copy() for v in keep.fields.values()]))
            sim = go
        elif k == 'swap' and others:
            o = others.pop()
            others.insert(0, (sim, m, [None if v is None else v.copy() for v in sim.fields.values()]))
            sim, m = o[0], o[1]
        check_state(case, ctx, sim, m, k)
        for o, om, of in others:
            check_state(case, ctx, o, om, k + ' on a copy')
            for f, g in zip(o.fields.values(), of):
                ctx.check((f is None) == (g is None) and (f is None or np.array_equal(f, g)), 'fields of a copy changed by ' + k)
    for s, sm in [(sim, m)] + [(o[0], o[1]) for o in others[:2]]:
        compare(case, ctx, s.solve_fields(), sm, False, 'linear solve at the end')
        if case['pol'] == 'Ez':
            compare(case, ctx, s.solve_fields_nl(), sm, True, 'nonlinear solve at the end')
        check_state(case, ctx, s, sm, 'the last solve')
    ctx.label(case['pol'])
    for op in case['ops']:
        ctx.label(op['op'])
    ctx.nontrivial(solved and changed)


@st.composite
def histories(draw):
    one_d = draw(st.integers(0, 3)) == 0
    c = draw(gen.sims(nmin=3, nmax=16, pml_max=4, force_pml=(None, False) if one_d else None))
    if one_d:
        c['ny'], c['npml'] = 1, [c['npml'][0], 0]
        c['eps'] = draw(gen.eps_specs(c['nx'], 1))
        c['src'] = draw(gen.src_specs(c['nx'], 1))
    c['flat'] = draw(st.booleans())
    nx, ny = c['nx'], c['ny']
    rect = st.tuples(st.integers(0, nx - 1), st.integers(0, ny - 1), st.integers(1, nx), st.integers(1, ny)).map(list)
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('eps'), 'eps': gen.eps_specs(nx, ny), 'flat': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('grid'), 'eps': gen.eps_specs(nx, ny), 'flat': st.booleans(),
                               'more': st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)}),
        st.fixed_dictionaries({'op': st.just('inplace'), 'at': st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list), 'value': gen.dec(0.2, 3)}),
        st.fixed_dictionaries({'op': st.just('tweak'), 'rect': rect, 'how': st.sampled_from(['loss', 'loss', 'cell', 'roll', 'none']),
                               'v': gen.dec(0.1, 3), 'own': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('src'), 'src': gen.src_specs(nx, ny)}),
        st.fixed_dictionaries({'op': st.just('add_nl'), 'rect': rect, 'same': st.booleans(), 'chi': gen.dec(0.1, 1), 'scale': st.booleans(), 'eps_max': gen.dec(3, 12)}),
        st.fixed_dictionaries({'op': st.just('clear_nl')}),
        st.fixed_dictionaries({'op': st.just('init'), 'rect': rect, 'eps_max': gen.dec(2, 12),
                               'style': st.sampled_from(['full', 'halfway', 'empty', 'random', 'random_sym', ''])}),
        st.fixed_dictionaries({'op': st.just('solve')}),
        st.fixed_dictionaries({'op': st.just('solve')}),
        st.fixed_dictionaries({'op': st.just('nl'), 'solver': st.sampled_from(['born', 'newton', 'hybrid'])}),
        st.fixed_dictionaries({'op': st.just('shift')}),
        st.fixed_dictionaries({'op': st.just('probe')}),
        st.fixed_dictionaries({'op': st.just('copy'), 'stay': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('swap')}))
    c['ops'] = draw(st.lists(op, min_size=3, max_size=14))
    return c


TESTS = [Prop('history', histories(), history, 1600)]
