"""C17: optimization runs."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen, opt
from checks.c02 import amplification
from checks.c10 import kerr_sims, add_nls, kerr, response

RULE = """Random problems (polarization, boundaries, design regions, filter, projection, objective; linear, or with Kerr nonlinearities), and one to
three runs one after the other (of up to 30 iterations) with random methods, step sizes and decay rates, starting from an initialized design region or from the bare
permittivity, or from another density assigned in between.  Gradient ascent and ADAM are replayed by a reference that uses a fresh simulation and optimization per step; L-BFGS is compared
with its starting point.  Non-trivial: the density of the design region changed."""
ASSUMPTIONS = ["the gradient itself is decided by C12 to C14", "near-resonant problems are skipped (counted): steps are chaotic there",
               "the starting density is in [0, 1]"]


class Skip(Exception):
    """the run left the perturbative regime, where solvers converge, or came close to a resonance"""


class Reference:
    def __init__(self, case, src):
        self.case, self.src = case, src
        self.p = opt.Problem(case)
        self.rho = self.p.rho.copy()
        self.J = None

    def sim(self, rho=None):
        rho = self.rho if rho is None else rho
        sim = gen.make(self.case, eps=self.p.eps(rho), src=self.src.copy())
        if 'nls' in self.case:
            add_nls(sim, self.case)
        sim.rho = rho.copy()
        return sim

    def evaluate(self, grad=True):
        sim = self.sim()
        F = sim.solve_fields()
        if amplification(self.case, F, self.src) > 1e4:
            raise Skip()
        if 'nls' in self.case:
            E = F[2]
            if not np.abs(kerr(self.case, E, sim.eps_r)).max()*response(sim, E) < 0.15:
                raise Skip()
        sim = self.sim()
        o = self.p.optimization(opt.make_objective(self.case, self.J), sim)
        J = float(np.real(o.compute_J(sim)))
        return (J, o.compute_dJ(sim, self.p.des)) if grad else J

    def steps(self, run):
        out = []
        m = v = 0.0
        for k in range(run['n']):
            J, g = self.evaluate()
            out.append(J)
            if run['method'].lower() == 'adam':
                b1, b2 = run['b1'], run['b2']
                m, v = b1*m + (1 - b1)*g, b2*v + (1 - b2)*g**2
                g = m/(1 - b1**(k + 1))/(np.sqrt(v/(1 - b2**(k + 1))) + 1e-8)
            new = self.rho + run['step']*g
            new = np.clip(new.real, 0, 1) + (1j*new.imag if np.iscomplexobj(new) else 0)
            self.rho = np.where(self.p.des == 1, new, self.rho)
        return out


def unsteady(case, ref, start, run, want, tol, unit):
    """whether tiny changes of the start (1e-9) change the run itself beyond a tenth of the tolerances (a step of ADAM depends on the
    sign of the gradient, however small)"""
    for seed in (1, 2):
        twin = Reference(case, ref.src)
        twin.J = ref.J
        r = np.random.RandomState(seed)
        twin.rho = np.where(ref.p.des == 1, np.clip(start.real + 1e-9*r.choice([-1, 1], size=start.shape), 0, 1), start)
        got = twin.steps(run)
        if np.abs(np.array(got) - want).max() > 1e-6*max(unit, np.abs(want).max()) or np.abs(twin.rho - ref.rho).max() > tol/10:
            return True
    return False


def runs(case, ctx):
    try:
        _runs(case, ctx)
    except Skip:
        ctx.label('left the perturbative regime, or resonant')


def _runs(case, ctx):
    src = gen.build_src(case['src'], case['nx'], case['ny'])
    p = opt.Problem(case)
    start = np.where(p.des == 1, 1 + (case['eps_m'] - 1)*p.rho, p.eps0)      # the density is that of the permittivity
    first = gen.make(case, eps=p.eps(), src=src)
    F = first.solve_fields()
    if amplification(case, F, src) > 1e3:
        ctx.label('near resonance, skipped')
        return
    if 'nls' in case:
        top = np.abs(kerr(case, F[2], np.maximum(p.eps(), (1 + case['eps_m'])/2), True)).max()
        s = response(first, F[2])
        if not top > 0 or not s < 1e3:
            ctx.label('not excited, or resonant')
            return
        ratio = np.sqrt(case['target']/s/top)
        src, F = src*ratio, [f*ratio for f in F]
        if not np.all(np.isfinite(src)):
            return
    ref = Reference(case, src)
    lin = dict(zip(gen.names(case['pol']), F))
    omega, dl = gen.omega_dl(case)
    m = (gen.MU0 if case['pol'] == 'Ez' else gen.EPS0)*case['L0']
    sz = np.abs(F[2]).max()
    J = opt.make_J(case, [max(np.abs(lin[k]).max(), sz*(1 if k == case['pol'] else 0.1/(omega*m*dl))) for k, _ in case['args']])
    unit = case['unit']
    ref.J = opt.scaled(J, unit, len(case['args']))

    sim = gen.make(case, eps=start.copy(), src=src.copy())
    if 'nls' in case:
        add_nls(sim, case)
    if case['init']:
        sim.init_design_region(opt.typed(case, p.des), case['eps_m'])
    o = p.optimization(opt.make_objective(case, ref.J), sim)
    des, W = p.des == 1, p
    want_list = []
    moved = False
    for run in case['runs']:
        if run.get('reset') is not None and sim.rho is not None:    # the user goes on from another density
            r = np.random.RandomState(run['reset'])
            ref.rho = np.where(des, r.random_sample(des.shape), ref.rho)
            sim.rho = ref.rho.copy()
            sim.eps_r = p.eps(ref.rho)
            ctx.label('reset')
        before = ref.rho.copy()
        kw = dict(method=run['method'], Nsteps=run['n'])
        if run['method'].lower() != 'lbfgs':
            kw['step_size'] = run['step']
        if run['method'].lower() == 'adam':
            kw.update(beta1=run['b1'], beta2=run['b2'])
        if run['method'].lower() == 'lbfgs':
            J0, g = ref.evaluate()
            pg = (np.clip(ref.rho.real + g/unit, 0, 1) - ref.rho.real)[des]
            o.run(**kw)
            ref.rho = np.array(sim.rho)
            J1 = ref.evaluate(False)
            ctx.check(J1 >= J0 - 1e-7*max(unit, abs(J0)), 'L-BFGS ended with %.10g, started from %.10g' % (J1, J0))
            if np.abs(pg).max() > 1e-2:
                ctx.check(J1 > J0, 'L-BFGS made no progress from %.12g, where the gradient is %.3g' % (J0, np.abs(pg).max()*unit))
            got = [float(np.real(v)) for v in o.objfn_list]
            ctx.check(len(got) <= len(want_list) + run['n'], 'L-BFGS recorded %d values in %d iterations' % (len(got) - len(want_list), run['n']))
            ctx.close(np.array(got[:len(want_list)]), np.array(want_list), 1e-6, 'objectives recorded before', scale=unit)
            ctx.check(not len(got) > len(want_list) or max(got[len(want_list):]) <= J1 + 1e-6*max(unit, abs(J1)),
                      'L-BFGS recorded %.10g but ended with %.10g' % (max(got, default=0), J1))
            if len(got) > len(want_list):
                ctx.close(np.array(got[-1]), np.array(J1), 1e-6, 'objective recorded last by L-BFGS', scale=max(unit, abs(J1)))
            want_list = got
        else:
            o.run(**kw)
            want = ref.steps(run)
            tol = (1e-3*abs(run['step']) if run['method'].lower() == 'adam' else 1e-6) + 1e-7
            new = [float(np.real(v)) for v in o.objfn_list][len(want_list):]
            if len(new) == len(want) and not (np.allclose(new, want, rtol=0, atol=1e-5*max(unit, np.abs(want_list + want).max()))
                                              and np.allclose(np.array(sim.rho)[des], ref.rho[des], rtol=0, atol=tol)):
                if unsteady(case, ref, before, run, want, tol, unit):
                    ctx.label('rounding errors grow, skipped')
                    return
            want_list = want_list + want
            g = np.array([float(np.real(v)) for v in o.objfn_list])
            ctx.check(len(g) == len(want_list), '%d objectives recorded, should be %d' % (len(g), len(want_list)))
            ctx.close(g, np.array(want_list), 1e-5, 'recorded objectives', scale=max(unit, np.abs(want_list).max()))
            ctx.close(np.array(sim.rho)[des], ref.rho[des], tol, 'density after %s' % run['method'], scale=1.0)
            ref.rho = np.array(sim.rho)         # rounding errors do not add up over several runs
        rho = np.array(sim.rho)
        ctx.check(rho[des].real.min() >= -1e-12 and rho[des].real.max() <= 1 + 1e-12, 'density outside of [0, 1]')
        ctx.check(np.array_equal(rho[~des], before[~des]) or np.abs(rho[~des] - before[~des]).max() < 1e-12, 'density changed outside of the design region')
        ctx.close(sim.eps_r, p.eps(rho), 1e-9, 'permittivity after %s against that of the density' % run['method'])
        ctx.close(sim.eps_r[~des], p.eps0[~des], 1e-13, 'permittivity outside of the design region')
        ctx.check(np.array_equal(sim.src, src), 'the source was changed')
        moved = moved or np.abs(rho - before).max() > 1e-6
        ctx.label(run['method'].lower())
    ctx.label('initialized' if case['init'] else 'not initialized')
    ctx.nontrivial(moved)


@st.composite
def run_lists(draw, c, n=3, steps=(0.01, 0.1, 1.0, 10.0)):
    c['init'] = draw(st.booleans())
    c['unit'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-6]))
    c['runs'] = []
    for _ in range(draw(st.integers(1, n))):
        c['runs'].append({'method': draw(st.sampled_from(['gd', 'GD', 'adam', 'ADAM', 'LBFGS', 'lbfgs'])), 'n': draw(st.integers(1, 4)),
                          'step': draw(st.sampled_from(steps))*draw(st.sampled_from([1, 1, 1, -1])), 'b1': draw(st.sampled_from([0.9, 0.9, 0.5, 0.0, 0.99])),
                          'b2': draw(st.sampled_from([0.999, 0.999, 0.9, 0.5, 0.0])),
                          'reset': draw(gen.SEEDS) if draw(st.integers(0, 3)) == 0 else None})
    return c


@st.composite
def linear(draw):
    c = draw(gen.sims(nmax=16, pml_max=3, eps_hi=6.0, interior=6))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN[c['pol']], max_args=2))
    return draw(run_lists(c))


@st.composite
def long_runs(draw):
    """many iterations on small grids"""
    c = draw(gen.sims(nmax=8, pml_max=2, eps_hi=6.0, interior=4))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN[c['pol']], max_args=1))
    c = draw(run_lists(c, n=2, steps=(0.002, 0.01, 0.05)))
    for run in c['runs']:
        run['n'] = draw(st.integers(5, 30))
    return c


@st.composite
def nonlinear(draw):
    c = draw(kerr_sims(targets=(0.005, 0.05), nmax=12, pml_max=3, eps_hi=6.0))
    c = draw(opt.designs(c))
    c = draw(opt.objectives(c, opt.LIN['Ez'], nl=(True, False), need_nl=True, max_args=2))
    return draw(run_lists(c, n=2, steps=(0.01, 0.1)))


TESTS = [Prop('linear', linear(), runs, 400),
         Prop('long', long_runs(), runs, 96),
         Prop('nonlinear', nonlinear(), runs, 120)]
