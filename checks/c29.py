"""C29: arrays of the caller are never modified, and results repeat."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c07 import operator, mode_near
from checks.c02 import amplification

RULE = """Random sequences of public operations on a simulation and an optimization (assigning permittivities, sources and densities, solving, nonlinear solving
with and without starting field, initializing, mode sources, probes, objectives, gradients, derivative checks, runs of every method, scans, plots);
every array handed in or returned is held, with a copy, and compared after each operation; the whole sequence is then repeated from equal inputs and every
number returned compared.  Non-trivial: at least four operations that had arrays to leave alone."""
ASSUMPTIONS = ["weak nonlinearities and no resonance (others are skipped, counted): rounding errors of the eigenmode solver, which starts from a random vector, "
               "would grow", "random initializations are repeated with the same seed of numpy"]


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.held, self.out = [], []
        nx, ny = case['nx'], case['ny']
        eps = gen.build_eps(case['eps'], nx, ny)
        if case['flat'] and ny == 1:
            eps = eps.ravel()
        src = gen.build_src(case['src'], nx, ny)
        npml = list(case['npml'])
        self.hold('the permittivity', eps)
        self.hold('the source', src)
        from angler import Simulation
        omega, dl = gen.omega_dl(case)
        self.omega, self.dl = omega, dl
        self.sim = Simulation(omega, eps, dl, npml, case['pol'], L0=case['L0'])
        self.sim.src = src
        self.npml = npml
        d = opt.mask(case)
        self.des = d.astype({'int': int, 'float': float, 'bool': bool}[case['dtype']])
        self.hold('the design region', self.des)
        self.o = None
        self.nls = 0
        self.ok = True

    def hold(self, name, a):
        if isinstance(a, np.ndarray):
            self.held.append((name, a, a.copy()))

    def record(self, name, v, digits=1e-6):
        self.out.append((name, v, digits))

    def intact(self, op):
        for name, a, c in self.held:
            same = a.shape == c.shape and a.dtype == c.dtype and np.array_equal(a, c, equal_nan=True)
            self.ctx.check(same, '%s: changed %s' % (op, name))
        self.ctx.check(self.npml == list(self.case['npml']), op + ': changed NPML')

    def weak(self):
        """linear and nonlinear problem far from resonance and weak"""
        s = self.sim
        F = copy.deepcopy(s).solve_fields()
        if not amplification(self.case, F, np.asarray(s.src)) < 1e4:
            return False
        if s.nonlinearity:
            top = 0
            for n in s.nonlinearity:
                top = top + np.abs(n.eps_nl(F[2], s.eps_r))
            return np.max(top) < 3e-2
        return True


def do(w, op, k):
    s, case, ctx = w.sim, w.case, w.ctx
    nx, ny = case['nx'], case['ny']
    r = np.random.RandomState(op['seed'])
    np.random.seed(op['seed'] % 2**31)
    kind = op['kind']
    if kind == 'eps':
        e = 1 + 5*r.random_sample((nx, ny))
        if op['flag']:
            e[:, ny//2 - 1:ny//2 + 2] = 6.0
            e[:, :ny//2 - 1] = 1.0
            e[:, ny//2 + 2:] = 1.0
        w.hold('the permittivity assigned (%d)' % k, e)
        s.eps_r = e
    elif kind == 'src':
        v = np.zeros((nx, ny), dtype=complex)
        v[r.randint(nx), r.randint(ny)] = 1 + 1j
        w.hold('the source assigned (%d)' % k, v)
        s.src = v
    elif kind == 'rho':
        v = r.random_sample((nx, ny))
        w.hold('the density assigned (%d)' % k, v)
        s.rho = v
    elif kind == 'solve':
        F = s.solve_fields()
        for n, f in zip(gen.names(case['pol']), F):
            w.hold('%s returned (%d)' % (n, k), f)
            w.record(n, f.copy())
    elif kind == 'nl':
        if case['pol'] != 'Ez':
            return False
        E = copy.deepcopy(s).solve_fields()[2]
        reg = r.randint(0, 2, (nx, ny))*1.0
        w.hold('the nonlinear region (%d)' % k, reg)
        top = np.abs(E).max()
        if not top > 0 or w.nls >= 2:
            return False
        kw = {'eps_scale': True, 'eps_max': 6.0} if op['flag'] else {}
        s.add_nl(3e-3*case['L0']**2/top**2, reg, **kw)
        w.nls += 1
    elif kind == 'solve nl':
        if case['pol'] != 'Ez' or not w.nls:
            return False
        kw = {'solver_nl': op['solver']}
        if op['flag']:
            start = (r.standard_normal((nx, ny)) + 1j*r.standard_normal((nx, ny)))*1e-3*np.abs(copy.deepcopy(s).solve_fields()[2]).max()
            w.hold('the starting field (%d)' % k, start)
            kw['Estart'] = start
        F = s.solve_fields_nl(**kw)
        for n, f in zip(('Hx', 'Hy', 'Ez'), F[:3]):
            w.hold('nonlinear %s returned (%d)' % (n, k), f)
            w.record('nonlinear ' + n, f.copy())
    elif kind == 'init':
        s.init_design_region(w.des, 5.0, style=op['style'])
        w.hold('the permittivity after initialization (%d)' % k, s.eps_r)
        w.hold('the density after initialization (%d)' % k, s.rho)
        w.record('permittivity', s.eps_r.copy())
    elif kind == 'mode':
        if case['npml'][0] < 2 or ny < 8 or np.iscomplexobj(s.eps_r):
            return False
        c = [case['npml'][0] + 1, ny//2]
        omega, dl = gen.omega_dl(case)
        sub = np.asarray(s.eps_r[c[0], ny//2 - 3:ny//2 + 3], dtype=float)
        guide = np.where(sub > 1, np.abs(s.eps_r).max(), 1.0)       # of the normalization
        sigma = (2.0*omega*np.sqrt(gen.EPS0*gen.MU0)*case['L0'])**2
        if not all(mode_near(operator(e, case['pol'], omega, dl, case['L0']), sigma, 1, 1e-4)[1] for e in (sub, guide)):
            return False        # any combination of degenerate modes is a mode: rounding decides
        s.modes = []
        keep = list(c)
        s.add_mode(2.0, 'x', c, 6, scale=1.5)
        s.setup_modes()
        ctx.check(c == keep, 'the center of the mode was changed')
        w.record('W_in', s.W_in)
        w.record('source', s.src.copy())
        w.hold('the source after setting up modes (%d)' % k, s.src)
    elif kind == 'probe':
        if s.fields[case['pol']] is None or ny < 3:
            return False
        c = [nx//2, ny//2]
        w.record('flux', s.flux_probe('x' if op['flag'] else 'y', c, 2))
        ctx.check(c == [nx//2, ny//2], 'the center of the probe was changed')
    elif kind == 'shift':
        if case['pol'] != 'Ez':
            return False
        d = s.compute_index_shift()
        w.hold('the index shift (%d)' % k, d)
        w.record('index shift', d.copy())
    elif kind == 'plot':
        import matplotlib.pyplot as plt
        s.plt_eps(outline=False, cbar=False)
        if s.fields[case['pol']] is not None:
            s.plt_abs(outline=False, cbar=False)
            s.plt_re(outline=False, cbar=False)
        plt.close('all')
    else:
        if s.rho is None or np.iscomplexobj(s.eps_r) or np.iscomplexobj(s.rho):
            return False
        if w.o is None:
            import autograd.numpy as npa
            from angler import Optimization
            from angler.objective import Objective, obj_arg
            top = np.abs(copy.deepcopy(s).solve_fields()[2]).max()
            if not top > 0:
                return False
            q = r.random_sample((nx, ny))/top**2/nx/ny
            w.hold('the weights of the objective', q)
            nl = bool(w.nls)
            J = lambda e: npa.sum(q*npa.square(npa.abs(e)))
            w.o = Optimization(Objective(J, obj_arg('e', component=case['pol'], nl=nl)), s, w.des, eps_m=5.0, R=case['R'], beta=case['beta'])
        o = w.o
        if kind == 'J':
            w.record('J', o.compute_J(s))
        elif kind == 'dJ':
            g = o.compute_dJ(s, w.des)
            w.hold('the gradient (%d)' % k, g)
            w.record('gradient', g.copy(), 1e-5)
        elif kind == 'check':
            a, b = o.check_deriv(Npts=3, d_rho=1e-3)
            w.record('derivatives', np.array(a), 1e-5)
        elif kind == 'run':
            w.hold('the density before a run (%d)' % k, s.rho)
            w.hold('the permittivity before a run (%d)' % k, s.eps_r)
            o.run(method=op['method'], Nsteps=2, step_size=0.05)
            w.hold('the density after a run (%d)' % k, s.rho)
            w.record('density', s.rho.copy(), 1e-3)
            w.record('objectives', np.array(o.objfn_list), 1e-3)
        elif kind == 'scan f':
            f, J, fw = o.scan_frequency(Nf=3, df=1e-3, pbar=op['flag'])
            w.record('frequencies', np.array(f))
            w.record('objectives by frequency', np.array(J), 1e-4)
        elif kind == 'scan p':
            if not s.modes or case['pol'] != 'Ez' or not w.nls:
                return False
            amp = s.modes[0].scale
            P, T = o.scan_power(probes=[lambda m: m.flux_probe('x', [nx//2, ny//2], 4, nl=True)], Ns=2, s_min=1e-3, s_max=1e-2, solver='born')
            ctx.check(s.modes[0].scale == amp, 'the scan changed the scale of the mode')
            w.record('powers', np.array(P))
    return True


def play(case, ctx, twin=None):
    w = World(case, ctx)
    n = 0
    for k, op in enumerate(case['ops']):
        if op['kind'] in ('solve nl', 'shift', 'J', 'dJ', 'check', 'run', 'scan f', 'scan p') and not w.weak():
            ctx.label('skipped: strong or resonant')
            w.ok = False
            break
        if do(w, op, k):
            n += 1
            ctx.label(op['kind'])
        w.intact(op['kind'])
    return w, n


def history(case, ctx):
    w, n = play(case, ctx)
    v, m = play(case, ctx)
    if len(w.out) == len(v.out):
        for (name, a, tol), (name2, b, _) in zip(w.out, v.out):
            a, b = np.asarray(a), np.asarray(b)
            sc = max(np.abs(a).max(), np.abs(b).max(), 1e-300) if a.size else 1
            if name in ('Hx', 'Hy', 'Ex', 'Ey', 'nonlinear Hx', 'nonlinear Hy', 'flux'):
                continue
            ctx.close(b, a, tol, name + ' the second time', scale=sc)
    else:
        ctx.check(not (w.ok and v.ok), '%d results the first time, %d the second' % (len(w.out), len(v.out)))
    ctx.nontrivial(n >= 4)


KINDS = ['eps', 'src', 'rho', 'solve', 'nl', 'solve nl', 'init', 'init', 'mode', 'probe', 'shift', 'plot', 'J', 'dJ', 'check', 'run', 'scan f', 'scan p',
         'solve', 'nl', 'solve nl', 'run']


@st.composite
def ops(draw):
    return {'kind': draw(st.sampled_from(KINDS)), 'seed': draw(gen.SEEDS), 'flag': draw(st.booleans()), 'solver': draw(st.sampled_from(['born', 'newton', 'hybrid'])),
            'style': draw(st.sampled_from(['full', 'halfway', 'empty', 'random', 'random_sym', ''])), 'method': draw(st.sampled_from(['GD', 'ADAM', 'LBFGS']))}


@st.composite
def cases(draw):
    c = draw(gen.sims(nmax=14, pml_max=4, interior=6, nmin=1, lossy=True, max_pts=2, pols=('Ez', 'Ez', 'Hz'), eps_hi=6.0))
    draw(opt.designs(c, filters=False))
    c['R'] = draw(st.sampled_from([None, None, 2]))
    c['beta'] = draw(st.sampled_from([1e-9, 1e-9, 3.0]))
    c['dtype'] = draw(st.sampled_from(['int', 'float', 'bool']))
    c['flat'] = draw(st.booleans())
    c['ops'] = draw(st.lists(ops(), min_size=3, max_size=10))
    if draw(st.booleans()):
        # a sequence that reaches the optimizer
        init = draw(ops())
        init['kind'] = 'init'
        c['ops'] = c['ops'][:4] + [init] + c['ops'][4:]
    return c


TESTS = [Prop('history', cases(), history, 800)]
