"""C26: invalid requests are rejected, valid ones accepted."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt

RULE = """Constructor calls with every argument drawn independently from valid and invalid values (accepted exactly if all are valid); requests drawn from a
catalogue of valid and invalid ones (nonlinearities, solvers, modes, probes, objectives, methods, scans) to simulations in various states, which must
end as documented and, if rejected, leave the simulation as it was.  Non-trivial: something is invalid, or the accepted call has an unusual valid value."""
ASSUMPTIONS = ["numbers are given as numbers (strings or None in place of a number are not judged)", "AssertionError or ValueError as in the code's "
               "documentation; NotImplementedError for gradients that were not written (nonlinear 'Hz')"]

# encoded values (cases are JSON)
VALUES = {
    'L0': {'ok': [1e-6, 1e-9, 1, 2.5e-3, 1e3, 'np1e-6'], 'bad': [0, 0.0, -1e-6, -1, -0.5, 'np-1']},
    'omega': {'ok': [1e15, 2*np.pi*2e14, 3, 'np1e15', 'int'], 'bad': [0, 0.0, -1, -1e15, 'np-1']},
    'NPML': {'ok': [[0, 0], [1, 2], [2, 0], [0, 3], [3, 3], 'floats', 'npints'],
             'bad': ['tuple', [1], [1, 2, 3], [], [-1, 2], [2, -1], [-1, -1], 'number', 'none', 'array', 'text', 'dict', [1, 1, 1, 1]]},
    'pol': {'ok': ['Ez', 'Hz'], 'bad': ['ez', 'TM', '', 'Hx', 'Ex', 'Hy', 'EZ', 'Ez ', 'none', 'list']},
}


def value(v):
    if isinstance(v, str):
        return {'np1e-6': np.float64(1e-6), 'np-1': np.float64(-1.0), 'np1e15': np.float32(1e15), 'int': 10**15, 'floats': [1.0, 2.0],
                'npints': [np.int64(2), np.int32(1)], 'tuple': (1, 2), 'number': 5, 'none': None, 'array': np.array([1, 2]), 'text': '12',
                'dict': {0: 1, 1: 2}, 'list': ['Ez']}.get(v, v)
    return v


def constructor(case, ctx):
    from angler import Simulation
    a = {k: value(v) for k, (v, ok) in case['args'].items()}
    good = all(ok for v, ok in case['args'].values())
    r = np.random.RandomState(case['seed'])
    shape = tuple(case['shape'])
    eps = 1 + r.randint(0, 12, shape) if case['eps'] == 'int' else 1 + 11*r.random_sample(shape)
    if case['eps'] == 'complex':
        eps = eps - 0.1j
    if case['eps'] == 'f32':
        eps = eps.astype(np.float32)
    keep, npml0 = eps.copy(), copy.deepcopy(a['NPML'])

    def call():
        kw = {} if case['default_L0'] and case['args']['L0'][1] else {'L0': a['L0']}
        if case['keywords']:
            return Simulation(omega=a['omega'], eps_r=eps, dl=case['dl'], NPML=a['NPML'], pol=a['pol'], **kw)
        return Simulation(a['omega'], eps, case['dl'], a['NPML'], a['pol'], **kw)
    if not good:
        ctx.raises(AssertionError, call, 'invalid ' + ', '.join(k for k in a if not case['args'][k][1]))
    else:
        sim = call()
        n2 = shape if len(shape) == 2 else (shape[0], 1)
        ctx.check(sim.eps_r.shape == n2 and (sim.Nx, sim.Ny) == n2, 'shape %s of a permittivity of shape %s' % (sim.eps_r.shape, shape))
        ctx.close(np.array(sim.eps_r), keep.reshape(n2), 1e-12, 'permittivity')
        ctx.check([int(v) for v in sim.NPML] == [int(v) for v in npml0], 'NPML became %s' % (sim.NPML,))
        ctx.check(sim.pol == a['pol'] and sim.dl == case['dl'], 'pol or dl')
        ctx.close(float(sim.omega), float(a['omega']), 1e-6, 'omega')
        ctx.close(float(sim.L0), 1e-6 if case['default_L0'] else float(a['L0']), 1e-12, 'L0')
        ctx.check(np.shape(sim.src) == n2 and not np.any(sim.src), 'the source is not empty')
        ctx.check(sim.modes == [] and sim.nonlinearity == [], 'has modes or nonlinearities')
        F = sim.solve_fields()
        ctx.check(len(F) == 3 and not any(np.any(f) for f in F), 'fields without source')
        for f in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'):
            ctx.check((sim.fields[f] is not None) == (f in gen.names(a['pol'])), 'stored components after solving: ' + f)
    ctx.check(np.array_equal(eps, keep) and eps.shape == shape, 'the permittivity was changed')
    ctx.check(type(npml0) is type(a['NPML']) and np.array_equal(np.asarray(npml0, dtype=object), np.asarray(a['NPML'], dtype=object)), 'NPML was changed')
    ctx.label('valid' if good else 'invalid')
    ctx.nontrivial(not good or len(shape) == 1 or 0 in npml0 or case['eps'] != 'float')


# ------------------------------------------------------------------ requests

def state(sim):
    out = {'eps': sim.eps_r.copy(), 'src': np.array(sim.src), 'A': sim.A.copy(), 'rho': None if sim.rho is None else np.array(sim.rho),
           'modes': len(sim.modes), 'nls': len(sim.nonlinearity), 'W_in': getattr(sim, 'W_in', None)}
    for k in sim.fields:
        out['lin ' + k] = None if sim.fields[k] is None else sim.fields[k].copy()
        out['nl ' + k] = None if sim.fields_nl[k] is None else sim.fields_nl[k].copy()
    return out


def compare(ctx, sim, before, what, but=()):
    now = state(sim)
    for k in before:
        if any(k.startswith(b) for b in but):
            continue
        a, b = before[k], now[k]
        if k == 'A':
            same = abs(a - b).max() == 0
        elif isinstance(a, np.ndarray):
            same = isinstance(b, np.ndarray) and np.array_equal(a, b)
        else:
            same = a == b if not isinstance(b, np.ndarray) else False
        ctx.check(same, '%s was rejected, but changed %s of the simulation' % (what, k))


def requests(case, ctx):
    from angler import Optimization
    from angler.objective import Objective, obj_arg
    import autograd.numpy as npa
    sim = gen.make(case)
    pol = case['pol']
    r = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    lin = None
    if case['solved'] or case['nlsolved']:
        lin = sim.solve_fields()
    if pol == 'Ez' and lin is not None:
        sim.add_nl(1e-3*case['L0']**2/max(np.abs(lin[2]).max(), 1e-200)**2, r.randint(0, 2, (nx, ny)))
        if case['nlsolved']:
            sim.solve_fields_nl(solver_nl='born', max_num_iter=3)
    des = np.zeros((nx, ny))
    des[nx//2, ny//2] = 1
    obj1 = Objective(lambda e: npa.sum(npa.square(npa.abs(e))), obj_arg('e', component=pol))
    seen = []
    for q in case['requests']:
        before = state(sim)
        kind, v = q['kind'], q['v']
        what = '%s %r' % (kind, v)
        if kind == 'nl type':
            good = v == 'kerr'
            f = lambda: sim.add_nl(1e-18, np.ones((nx, ny)), nl_type=v)
            if good:
                f()
                ctx.check(len(sim.nonlinearity) == before['nls'] + 1, 'nonlinearity was not added')
                sim.nonlinearity.pop()
            else:
                ctx.raises(AssertionError, f, what)
        elif kind == 'nl scale':
            good = v != 'missing'
            kw = {'missing': {'eps_scale': True}, 'given': {'eps_scale': True, 'eps_max': 5.0}, 'plain': {}, 'unused': {'eps_max': 4.0}}[v]
            f = lambda: sim.add_nl(1e-18, np.ones((nx, ny)), **kw)
            if good:
                f()
                ctx.check(len(sim.nonlinearity) == before['nls'] + 1, 'nonlinearity was not added')
                sim.nonlinearity.pop()
            else:
                ctx.raises(AssertionError, f, what)
        elif kind == 'solver':
            good = False
            ctx.raises(AssertionError, lambda: sim.solve_fields_nl(solver_nl=v), what)
        elif kind == 'newton Hz':
            if pol == 'Ez':
                continue
            good = False
            ctx.raises(ValueError, lambda: sim.solve_fields_nl(solver_nl='newton'), what)
        elif kind == 'probe':
            good = v in ('x', 'y')
            if good and sim.fields[pol] is None:
                continue
            f = lambda: sim.flux_probe(v, [nx//2, ny//2], 2)
            if good:
                ctx.check(np.isfinite(f()), 'flux')
            else:
                ctx.raises(ValueError, f, what)
        elif kind == 'mode':
            good = v in ('x', 'y')
            if good or nx < 4 or ny < 4:
                continue
            sim.add_mode(2.0, v, [nx//2, ny//2], 4)
            ctx.raises(ValueError, sim.setup_modes, what)
            sim.modes.pop()
        elif kind == 'component':
            good = v in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')
            if good:
                for nl in (True, False):
                    a = obj_arg('f', component=v, nl=nl)
                    ctx.check(a.component == v and a.nl is nl and a.name == 'f', 'argument')
            else:
                ctx.raises(ValueError, lambda: obj_arg('f', component=v), what)
        elif kind == 'arguments':
            n, m = v
            good = n == m
            J = [None, lambda a: 1.0*npa.sum(npa.abs(a)), lambda a, b: npa.sum(npa.abs(a + b)), lambda a, b, c: npa.sum(npa.abs(a*b + c))][n]
            args = [obj_arg('x%d' % i) for i in range(m)]
            if m == 1 and q['bare']:
                args = args[0]
            if good:
                o = Objective(J, args)
                ctx.check(len(o.dJ_list) == n and o.is_linear(), 'objective')
            else:
                ctx.raises(ValueError, lambda: Objective(J, args), what)
        elif kind == 'polarization':
            good = v in gen.names(pol)
            o = Optimization(Objective(lambda e: npa.sum(npa.square(npa.abs(e))), obj_arg('e', component=v)), sim, des, eps_m=5)
            if good:
                ctx.check(np.isfinite(o.compute_J(sim)), 'objective')
            else:
                ctx.raises(ValueError, lambda: o.compute_J(sim), what)
                ctx.raises(ValueError, lambda: o.compute_dJ(sim, des), what)
            compare(ctx, sim, before, what, but=('lin', 'nl '))
            seen.append(good)
            continue
        elif kind == 'gradient':
            if pol == 'Ez':
                continue
            good = False
            sim2 = copy.deepcopy(sim)
            sim2.init_design_region(des, 5, 'halfway')
            o = Optimization(Objective(lambda e: npa.sum(npa.square(npa.abs(e))), obj_arg('e', component='Hz', nl=True)), sim2, des, eps_m=5)
            ctx.raises((NotImplementedError, ValueError), lambda: o.compute_dJ(sim2, des), 'gradient of a nonlinear Hz objective')
        elif kind == 'method':
            o = Optimization(obj1, sim, des, eps_m=5)
            good = v.lower() in ('lbfgs', 'gd', 'adam')
            if good:
                sim2 = copy.deepcopy(sim)
                o = Optimization(obj1, sim2, des, eps_m=5)
                o.run(method=v, Nsteps=1, step_size=0.0)
            else:
                ctx.raises(ValueError, lambda: o.run(method=v, Nsteps=2), what)
                ctx.check(o.objfn_list == [] and o.src_amplitudes == [], 'something was recorded')
        elif kind == 'scan':
            good = False
            o = Optimization(obj1, sim, des, eps_m=5)
            ctx.raises(ValueError, lambda: o.scan_power(Ns=2), 'power scan without probes')
        compare(ctx, sim, before, what)
        seen.append(good)
        ctx.label(kind + (' valid' if good else ' invalid'))
    # still works
    ref = gen.make(case)
    F, G = sim.solve_fields(), ref.solve_fields()
    if np.abs(G[2]).max() < 1e6*np.abs(np.asarray(ref.src)).max()*gen.omega_dl(case)[1]**2*1e30:
        ctx.close(F[2], G[2], 1e-6, 'fields afterwards')
    ctx.nontrivial(False in seen)


@st.composite
def constructors(draw):
    args = {}
    sick = [draw(st.sampled_from(['L0', 'omega', 'NPML', 'pol'])) for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2])))]
    for k, v in VALUES.items():
        bad = k in sick
        args[k] = [draw(st.sampled_from(v['bad'] if bad else v['ok'])), not bad]
        if bad and draw(st.booleans()):
            # anything nonpositive, with any positive
            neg, pos = draw(st.integers(-6, -1)), draw(st.integers(-6, 8))
            args[k][0] = {'L0': -draw(gen.dec(0, 3)), 'omega': -draw(gen.dec(0, 3))*1e15, 'NPML': [neg, pos] if draw(st.booleans()) else [pos, neg],
                          'pol': draw(st.text(alphabet='EHxyz ', max_size=3).filter(lambda t: t not in ('Ez', 'Hz')))}[k]
    n = draw(st.integers(8, 12))
    return {'args': args, 'seed': draw(gen.SEEDS), 'shape': draw(st.sampled_from([[n, 9], [9, n], [n], [n, 1], [1, n], [8, 8]])),
            'eps': draw(st.sampled_from(['float', 'float', 'int', 'complex', 'f32'])), 'dl': draw(st.sampled_from([0.02, 0.1, 1, 50])),
            'default_L0': draw(st.booleans()), 'keywords': draw(st.booleans())}


def sensible(c):
    # layers need room
    s = c['shape']
    v = value(c['args']['NPML'][0])
    if not c['args']['NPML'][1]:
        return True
    n = s if len(s) == 2 else [s[0], 1]
    return all(2*p <= m for p, m in zip(v, n))


CATALOGUE = {
    'nl type': ['kerr', 'tpa', 'Kerr', '', 'chi2'],
    'nl scale': ['missing', 'given', 'plain', 'unused', 'missing'],
    'solver': ['bornn', '', 'Newton', 'BORN', 'hybrid ', 'anderson', 'krylov2', 'born newton', 'newtonkrylov'],
    'newton Hz': [0],
    'probe': ['x', 'y', 'z', '', 'X', 'xy', 0, None],
    'mode': ['z', '', 'X', 'Y', 1, None],
    'component': ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz', 'E', 'ez', '', 'Dz', 'Hxx'],
    'arguments': [[1, 1], [2, 2], [3, 3], [1, 2], [2, 1], [3, 1], [1, 3], [2, 3]],
    'polarization': ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'],
    'gradient': [0],
    'method': ['LBFGS', 'lbfgs', 'GD', 'adam', 'ADAM', 'gd', 'SGD', '', 'BFGS', 'L-BFGS', 'newton'],
    'scan': [0],
}


@st.composite
def wishes(draw):
    k = draw(st.sampled_from(sorted(CATALOGUE)))
    return {'kind': k, 'v': draw(st.sampled_from(CATALOGUE[k])), 'bare': draw(st.booleans())}


@st.composite
def situations(draw):
    c = draw(gen.sims(nmax=10, pml_max=2, interior=4, nmin=3, lossy=False, max_pts=2))
    c.update(seed=draw(gen.SEEDS), solved=draw(st.booleans()), nlsolved=draw(st.booleans()),
             requests=[draw(wishes()) for _ in range(draw(st.integers(1, 5)))])
    return c


TESTS = [Prop('constructor', constructors().filter(sensible), constructor, 1600), Prop('requests', situations(), requests, 400)]
