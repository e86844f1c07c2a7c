"""C18: objective and gradient are of the simulation as it is now."""
import copy
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c02 import amplification
from checks.c10 import kerr_sims, kerr, region, response, coef

RULE = """Histories of up to 14 operations on one optimization and up to three simulations: evaluating objective and gradient of any of them, new
densities, permittivities outside of the design region, sources, nonlinearities, solves (linear, nonlinear, with other sources, index
shifts), copies, derivative checks, scans, optimization steps, replaced objective functions and arguments.  Every objective and gradient is compared
with that of a fresh optimization of a fresh simulation with the same settings.  Non-trivial: at least two evaluations, with an operation
that changes the result in between."""
ASSUMPTIONS = ["evaluations at which the fresh nonlinear solve does not converge, or that are resonant, are not compared (counted)"]


class World:
    def __init__(self, case):
        self.case = dict(case)
        self.p = opt.Problem(case)
        nx, ny = case['nx'], case['ny']
        src = gen.build_src(case['src'], nx, ny)
        first = gen.make(case, eps=self.p.eps(), src=src)
        F = first.solve_fields()
        self.ok = amplification(case, F, src) < 1e4
        self.nonlinear = 'nls' in case
        if self.ok and self.nonlinear:
            top = np.abs(kerr(case, F[2], np.maximum(self.p.eps(), (1 + case['eps_m'])/2), True)).max()
            s = response(first, F[2])
            self.ok = bool(top > 0 and s < 1e3)
            if self.ok:
                r = np.sqrt(case['target']/s/top)
                self.ok = bool(np.isfinite(r))
                src, F = src*r, [f*r for f in F]
        if not self.ok:
            return
        self.src = src
        lin = dict(zip(gen.names(case['pol']), F))
        omega, dl = gen.omega_dl(case)
        m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
        sz = np.abs(F[2]).max()
        self.sizes = {k: max(np.abs(lin[k]).max(), sz*(1 if k == case['pol'] else 0.1/(omega*m*dl))) for k in lin}
        self.setJ()
        self.sims = [self.fresh(self.p.eps(), src, case.get('nls', []), self.p.rho)]
        self.nls = [list(case.get('nls', []))]
        self.o = self.p.optimization(opt.make_objective(case, self.J), self.sims[0])

    def setJ(self):
        self.sc = [self.sizes[k] for k, _ in self.case['args']]
        self.J = opt.make_J(self.case, self.sc)

    def fresh(self, eps, src, nls, rho):
        sim = gen.make(self.case, eps=np.array(eps), src=np.array(src))
        for n in nls:
            kw = dict(eps_scale=True, eps_max=n['eps_max']) if n['scale'] else {}
            sim.add_nl(self.case['chi']*coef(n), region(self.case, n['rect']), **kw)
        sim.rho = np.array(rho)
        return sim

    def expected(self, k):
        """(J, gradient) of fresh objects, or None"""
        sim = self.sims[k]
        new = self.fresh(sim.eps_r, sim.src, self.nls[k], sim.rho)
        F = new.solve_fields()
        if amplification(self.case, F, new.src) > 1e5:
            return None
        if any(nl for _, nl in self.case['args']):
            c = np.asarray(new.solve_fields_nl()[3]).ravel()
            if not c[-1] <= 1e-10:
                return None
            new = self.fresh(sim.eps_r, sim.src, self.nls[k], sim.rho)
        o = self.p.optimization(opt.make_objective(self.case, self.J), new)
        return o.compute_J(new), o.compute_dJ(new, self.p.des)


def history(case, ctx):
    w = World(case)
    if not w.ok:
        ctx.label('not excited, or resonant')
        return
    compared = changes = 0
    last = None
    for op in case['ops']:
        k = op['k'] % len(w.sims)
        sim = w.sims[k]
        kind = op['op']
        r = np.random.RandomState(op['s'])
        shape = sim.eps_r.shape
        if kind in ('J', 'dJ', 'both'):
            want = w.expected(k)
            if want is None:
                ctx.label('not compared')
                w.o.compute_J(sim)
                continue
            if kind in ('J', 'both'):
                got = w.o.compute_J(sim)
                ctx.check(abs(got - want[0]) <= 1e-7*max(1, abs(want[0])), 'objective %.10g, a fresh one is %.10g' % (got, want[0]))
            if kind in ('dJ', 'both'):
                got = w.o.compute_dJ(sim, w.p.des)
                ctx.close(got, want[1], 1e-6, 'gradient against that of fresh objects')
            compared += 1
            if last is not None and abs(want[0] - last) > 1e-9:
                changes += 1
            last = want[0]
        elif kind == 'rho':
            rho = np.where(w.p.des == 1, 0.05 + 0.9*r.random_sample(shape), w.p.rho)
            sim.rho = rho
            sim.eps_r = w.p.eps(rho)
        elif kind == 'eps':         # outside of the design region
            e = np.where(w.p.des == 1, sim.eps_r, sim.eps_r*(1 + 0.2*r.random_sample(shape)))
            sim.eps_r = e
        elif kind == 'src':
            sim.src = w.src*(0.3 + 0.7*r.random_sample(shape))*np.exp(1j*r.random_sample())
        elif kind == 'scale':
            sim.src = sim.src*0.8
        elif kind == 'phase':
            sim.src = sim.src*(-1.0 if r.randint(2) else np.exp(2j*np.pi*r.random_sample()))
        elif kind == 'inplace' and np.shape(sim.src):
            sim.src[:] = w.src*(0.4 + 0.5*r.random_sample())
        elif kind == 'add_nl' and w.nonlinear and len(w.nls[k]) < 3:
            n = {'rect': [0, 0, case['nx'], case['ny']], 'f': 0.5, 'scale': bool(r.randint(2)), 'eps_max': 5.0}
            kw = dict(eps_scale=True, eps_max=n['eps_max']) if n['scale'] else {}
            sim.add_nl(case['chi']*coef(n), region(case, n['rect']), **kw)
            w.nls[k].append(n)
        elif kind == 'swap_nl' and w.nonlinear and w.nls[k]:     # others, as many
            new = []
            for _ in w.nls[k]:
                new.append({'rect': [0, 0, int(r.randint(1, case['nx'] + 1)), case['ny']], 'f': float(0.2 + 0.6*r.random_sample()),
                            'scale': bool(r.randint(2)), 'eps_max': 5.0})
            sim.nonlinearity = []
            for n in new:
                kw = dict(eps_scale=True, eps_max=n['eps_max']) if n['scale'] else {}
                sim.add_nl(case['chi']*coef(n), region(case, n['rect']), **kw)
            w.nls[k] = new
        elif kind == 'clear_nl' and w.nonlinear:
            sim.nonlinearity = []
            w.nls[k] = []
        elif kind == 'solve':
            sim.solve_fields()
        elif kind == 'solve_nl' and w.nonlinear:
            sim.solve_fields_nl(solver_nl=['born', 'newton', 'hybrid'][r.randint(3)])
        elif kind == 'solve_other':
            keep = sim.src
            sim.src = w.src*r.random_sample(shape)
            which = r.randint(3)
            if which < 2:
                sim.solve_fields()
            if w.nonlinear and which != 1:
                sim.solve_fields_nl()
            sim.src = keep
        elif kind == 'compute_nl' and w.nonlinear:
            sim.compute_nl(w.sc[0]*r.standard_normal(shape))
        elif kind == 'shift' and w.nonlinear:
            sim.compute_index_shift()
        elif kind == 'copy' and len(w.sims) < 3:
            w.sims.append(copy.deepcopy(sim))
            w.nls.append(list(w.nls[k]))
        elif kind == 'new' and len(w.sims) < 3:
            w.sims.append(w.fresh(w.p.eps(), w.src*0.7, case.get('nls', []), w.p.rho))
            w.nls.append(list(case.get('nls', [])))
        elif kind == 'check':
            w.o.check_deriv(Npts=2, d_rho=1e-3)
        elif kind == 'scan':
            w.o.scan_frequency(Nf=3, df=1/50, pbar=bool(r.randint(2)))
        elif kind == 'run':
            w.o.run(method=['gd', 'adam', 'lbfgs'][r.randint(3)], Nsteps=1 + r.randint(2), step_size=1e-3)
            if not np.all(np.isfinite(w.sims[0].eps_r)):
                ctx.label('not compared')
                return
        elif kind == 'J_new':
            c = w.case
            c['terms'] = copy.deepcopy(c['terms'])
            for t in c['terms']:
                t['w'] = int(r.randint(1 << 30))
                t['coef'] = float(0.5 + r.random_sample())
            w.setJ()
            w.o.objective.J = w.J
        elif kind == 'objective':
            w.o.objective = opt.make_objective(w.case, w.J)
        elif kind == 'arguments':   # another objective, of as many arguments
            w.case['args'] = [[opt.LIN[case['pol']][r.randint(len(opt.LIN[case['pol']]))], bool(w.nonlinear and r.randint(2))] for _ in case['args']]
            w.setJ()
            w.o.objective = opt.make_objective(w.case, w.J)
        ctx.label(kind)
    ctx.nontrivial(compared > 1 and changes > 0)


OPS = ['J', 'dJ', 'both', 'rho', 'eps', 'src', 'scale', 'phase', 'inplace', 'solve', 'solve_other', 'copy', 'new', 'check', 'scan', 'run', 'J_new', 'objective', 'arguments']
NL = ['add_nl', 'clear_nl', 'swap_nl', 'swap_nl', 'solve_nl', 'compute_nl', 'shift']


@st.composite
def ops(draw, c, kinds):
    one = st.builds(lambda a, b, d: {'op': a, 'k': b, 's': d}, st.sampled_from(kinds + ['J', 'dJ', 'both', 'both']), st.sampled_from([0, 0, 1, 2]), gen.SEEDS)
    # histories that begin and end with an evaluation
    c['ops'] = ([{'op': draw(st.sampled_from(['J', 'dJ', 'both'])), 'k': 0, 's': 1}] + draw(st.lists(one, min_size=1, max_size=12))
                + [{'op': draw(st.sampled_from(['dJ', 'both', 'J'])), 'k': draw(st.sampled_from([0, 1, 2])), 's': 1}])
    return c


@st.composite
def linear(draw):
    c = draw(gen.sims(nmax=12, pml_max=3, eps_hi=6.0, interior=4))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN[c['pol']], max_args=2))
    return draw(ops(c, OPS))


@st.composite
def nonlinear(draw):
    c = draw(kerr_sims(targets=(0.005, 0.03), nmax=10, pml_max=2, eps_hi=6.0))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, False), need_nl=True, max_args=2))
    return draw(ops(c, OPS + NL + NL))


TESTS = [Prop('linear', linear(), history, 400),
         Prop('nonlinear', nonlinear(), history, 320)]
