"""C25: linear solver back ends."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Random sparse systems (diagonally dominant, random non-symmetric with zero diagonal entries, banded, rows scaled over up to four orders of
magnitude, the matrices of generated simulations), complex and real, in csr and csc format, right-hand sides as vectors and grids of several types; both solvers with
every back end and the default one against numpy's dense solver; thousands of
unknowns by their residual.  Non-trivial: the system is coupled (off-diagonal entries) and the right-hand side
is not zero."""
ASSUMPTIONS = ["systems with condition number below 1e7 after scaling the rows (others are not judged)",
               "the back end pardiso is that of the installed pyMKL; if it cannot be imported only scipy is tried"]


def system(case, r, second=False):
    n = case['n']
    k = case['kind']
    shape = (n, n)
    if k == 'dominant':
        M = (r.standard_normal(shape) + 1j*r.standard_normal(shape))*(r.random_sample(shape) < min(1, 4/n))
        M = M + np.diag((3 + np.abs(M).sum(axis=1))*np.exp(2j*np.pi*r.random_sample(n)))
    elif k == 'permuted':
        M = (r.standard_normal(shape) + 1j*r.standard_normal(shape))*(r.random_sample(shape) < min(1, 2/n))
        np.fill_diagonal(M, 0)
        M = M*0.3
        M[np.arange(n), r.permutation(n)] += 3 + np.abs(M).sum(axis=1)
    elif k == 'banded':
        M = np.diag(r.standard_normal(n) + 5j) + np.diag(r.standard_normal(max(n - 1, 0)), 1) + np.diag(r.standard_normal(max(n - 1, 0))*1j, -1)
        M = M[:n, :n]
    else:
        M = r.standard_normal(shape) + 1j*r.standard_normal(shape) + 4*n**0.5*np.eye(n)
    if case['scaled']:
        M = M*10.0**r.randint(-case['scaled'], case['scaled'] + 1, n)[:, None]
    if case['real'] and not second:
        M = np.real(M) + 0j
    return M


def rhs(case, r, n):
    b = r.standard_normal(n) + 1j*r.standard_normal(n)
    if case['b'] == 'real':
        b = np.real(b)
    elif case['b'] == 'c64':
        b = b.astype(np.complex64)
    elif case['b'] == 'unit':
        b = np.zeros(n)
        b[r.randint(n)] = 1
    elif case['b'] == 'int':
        b = r.randint(-5, 6, n)
        b[0] = 1
    elif case['b'] == 'imag':
        b = 1j*np.imag(b)
    elif case['b'] == 'zero':
        b = np.zeros(n, dtype=complex)
    elif case['b'] == 'small':
        b = b*1e-30
    return b


def backends():
    from angler import linalg
    return ['scipy', 'SciPy'] + (['pardiso', 'PARDISO'] if linalg.SOLVER == 'pardiso' else [])


def same(a, b):
    return a.shape == b.shape and a.format == b.format and a.dtype == b.dtype and abs(a - b).max() == 0


def conditioned(M):
    s = np.abs(M).max(axis=1)
    if (s == 0).any():
        return np.inf
    return np.linalg.cond(M/s[:, None])


def direct(case, ctx):
    from angler.linalg import solver_direct
    r = np.random.RandomState(case['seed'])
    M = system(case, r)
    n = len(M)
    A = getattr(sp, case['format'] + '_matrix')(M)
    A0 = A.copy()
    b = rhs(case, r, n)
    if case['grid'] and n % 2 == 0:
        b = b.reshape(2, -1) if case['grid'] == 1 else b.reshape(-1, 2)
    b0 = b.copy()
    c = conditioned(M)
    want = np.linalg.solve(M, b.ravel().astype(complex)) if c < 1e7 else None
    for back in ['default'] + backends():
        kw = {} if back == 'default' else {'solver': back}
        if case['timing']:
            kw['timing'] = True
        x = solver_direct(A, b, **kw)
        ctx.check(isinstance(x, np.ndarray) and x.shape == (n,), '%s: shape %s' % (back, np.shape(x)))
        if want is not None:
            ctx.close(x, want, 1e-13*max(c, 100), 'direct solver, ' + back, scale=np.abs(want).max())
        ctx.check(same(A, A0), back + ': the matrix was changed')
        ctx.check(np.array_equal(b, b0) and b.dtype == b0.dtype and b.shape == b0.shape, back + ': the right-hand side was changed')
    if want is None:
        ctx.label('not judged')
        return
    if case['b'] != 'zero':        # a zero right-hand side needs no solver
        ctx.raises(ValueError, lambda: solver_direct(A, b, solver=case['bad']), 'unknown solver')
    ctx.label(case['kind'])
    ctx.nontrivial(n > 1 and case['b'] != 'zero' and np.count_nonzero(M) > n)


def coupled(case, ctx):
    """A11 x + A12 conj(x) = b"""
    from angler.linalg import solver_complex2real
    r = np.random.RandomState(case['seed'])
    M = system(case, r)
    n = len(M)
    if case['second'] == 'diagonal':
        M2 = np.diag((r.standard_normal(n) + 1j*r.standard_normal(n)))*case['strength']
    elif case['second'] == 'zero':
        M2 = np.zeros((n, n), dtype=complex)
    else:
        M2 = (r.standard_normal((n, n)) + 1j*r.standard_normal((n, n)))*(r.random_sample((n, n)) < min(1, 2/n))*case['strength']
    M2 = M2*np.abs(M).max(axis=1)[:, None]/4
    fm = getattr(sp, case['format'] + '_matrix')
    A1, A2 = fm(M), fm(M2)
    k1, k2 = A1.copy(), A2.copy()
    b = rhs(case, r, n)
    if case['grid'] and n % 2 == 0:
        b = b.reshape(2, -1) if case['grid'] == 1 else b.reshape(-1, 2)
    b0 = b.copy()
    big = np.block([[M, M2], [M2.conj(), M.conj()]])
    c = conditioned(big)
    want = None
    if c < 1e7:
        v = b.ravel().astype(complex)
        want = np.linalg.solve(big, np.concatenate([v, v.conj()]))[:n]
    for back in ['default'] + backends():
        kw = {} if back == 'default' else {'solver': back}
        if case['timing']:
            kw['timing'] = True
        x = solver_complex2real(A1, A2, b, **kw)
        ctx.check(isinstance(x, np.ndarray) and x.shape == (n,), '%s: shape %s' % (back, np.shape(x)))
        if want is not None:
            ctx.close(x, want, 1e-13*max(c, 100), 'coupled solver, ' + back, scale=np.abs(want).max())
        ctx.check(same(A1, k1) and same(A2, k2), back + ': a matrix was changed')
        ctx.check(np.array_equal(b, b0) and b.dtype == b0.dtype and b.shape == b0.shape, back + ': the right-hand side was changed')
    if want is None:
        ctx.label('not judged')
        return
    if case['b'] != 'zero':
        ctx.raises(ValueError, lambda: solver_complex2real(A1, A2, b, solver=case['bad']), 'unknown solver')
    ctx.label(case['second'])
    ctx.nontrivial(case['b'] != 'zero' and np.count_nonzero(M2) > 0)


def simulated(case, ctx):
    """the system of a simulation: every back end gives the fields"""
    from angler.linalg import solver_direct, solver_complex2real
    sim = gen.make(case)
    A = sim.A.tocsr()
    D = A.toarray()
    c = conditioned(D)
    if c > 1e7:
        ctx.label('close to a resonance')
        return
    b = sim.src*1j*sim.omega
    want = np.linalg.solve(D, b.ravel())
    r = np.random.RandomState(case['lev'])
    n = len(D)
    Fz = np.asarray(sim.solve_fields()[2])
    ctx.close(Fz.ravel(), want, 1e-13*max(c, 100), 'fields', scale=np.abs(want).max())
    J = np.diag((r.standard_normal(n) + 1j*r.standard_normal(n))*np.abs(np.diag(D)).max()*1e-3)
    J12 = sp.csr_matrix(J)
    big = np.block([[D, J], [J.conj(), D.conj()]])
    c2 = conditioned(big)
    w2 = np.linalg.solve(big, np.concatenate([b.ravel(), b.ravel().conj()]))[:n] if c2 < 1e7 else None
    for back in backends():
        ctx.close(solver_direct(A, b, solver=back), want, 1e-13*max(c, 100), 'direct solver, ' + back, scale=np.abs(want).max())
        if w2 is not None:
            ctx.close(solver_complex2real(A, J12, b, solver=back), w2, 1e-13*max(c2, 100), 'coupled solver, ' + back, scale=np.abs(w2).max())
    ctx.label(case['pol'])
    ctx.nontrivial(n > 4)


def large(case, ctx):
    """thousands of unknowns: the residual of what each back end returns, and their agreement"""
    from angler.linalg import solver_direct, solver_complex2real
    sim = gen.make(case)
    A = sim.A.tocsr()
    b = np.ravel(sim.src*1j*sim.omega)
    keep = A.copy()
    r = np.random.RandomState(case['lev'])
    n = A.shape[0]
    J12 = sp.diags((r.standard_normal(n) + 1j*r.standard_normal(n))*np.abs(A.diagonal()).max()*1e-3).tocsr()
    norm = abs(A).sum(axis=1).max()
    for back in ['default'] + backends():
        kw = {} if back == 'default' else {'solver': back}
        x = solver_direct(A, b, **kw)
        ctx.close(A @ x, b, 1e-10, 'direct solver, %s: the matrix times the solution' % back, scale=norm*np.abs(x).max())
        y = solver_complex2real(A, J12, b, **kw)
        ctx.close(A @ y + J12 @ np.conj(y), b, 1e-10, 'coupled solver, %s: the matrices times the solution' % back, scale=norm*np.abs(y).max())
        ctx.check(np.abs(x).max() > 0 and np.abs(y).max() > 0, back + ': no solution')
    ctx.check(same(A, keep), 'the matrix was changed')
    ctx.label('%d unknowns' % (10**int(np.log10(n))))
    ctx.nontrivial(b.any())


@st.composite
def cases(draw):
    return {'n': draw(st.integers(1, 24)), 'seed': draw(gen.SEEDS), 'kind': draw(st.sampled_from(['dominant', 'permuted', 'banded', 'dense'])),
            'scaled': draw(st.sampled_from([0, 0, 1, 2])), 'real': draw(st.integers(0, 3)) == 0, 'format': draw(st.sampled_from(['csr', 'csr', 'csc'])),
            'b': draw(st.sampled_from(['complex', 'complex', 'real', 'c64', 'unit', 'int', 'imag', 'zero', 'small'])), 'grid': draw(st.integers(0, 2)),
            'bad': draw(st.sampled_from(['umfpack', '', 'pardis', 'numpy'])), 'second': draw(st.sampled_from(['diagonal', 'sparse', 'zero'])),
            'strength': draw(st.sampled_from([0.1, 0.5, 1.5])), 'timing': draw(st.integers(0, 4)) == 0}


@st.composite
def matrices(draw, sims=gen.sims(nmax=9, pml_max=3, interior=1)):
    c = draw(sims)
    c['lev'] = draw(gen.SEEDS)
    return c


TESTS = [Prop('direct', cases(), direct, 400), Prop('coupled', cases(), coupled, 400), Prop('simulated', matrices(), simulated, 160),
         Prop('large', matrices(gen.large_sims(cells=6000, max_pts=2)), large, 16)]
