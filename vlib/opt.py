"""Optimization problems: strategies, a reference for filter and projection, objectives, finite differences."""
import inspect
import numpy as np
from hypothesis import strategies as st
from . import gen

LIN = {'Ez': ('Ez', 'Hx', 'Hy'), 'Hz': ('Hz', 'Ex', 'Ey')}


# ------------------------------------------------------------------ design region, density

@st.composite
def designs(draw, c, filters=True, eps_m=None):
    """adds design region, density, filter and projection to the simulation case c"""
    nx, ny = c['nx'], c['ny']
    kind = draw(st.sampled_from(['rect', 'rect', 'rects', 'mask', 'all', 'cell']))
    d = {'kind': kind}
    if kind in ('rect', 'rects'):
        d['rects'] = []
        for _ in range(1 if kind == 'rect' else 3):
            x, y = draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))
            d['rects'].append([x, y, draw(st.integers(1, nx)), draw(st.integers(1, ny))])
    elif kind == 'mask':
        d['seed'] = draw(gen.SEEDS)
    elif kind == 'cell':
        d['cell'] = [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))]
    d['type'] = draw(st.sampled_from(['float', 'float', 'int', 'bool', 'uint8', 'F']))
    c['des'] = d
    c['eps_m'] = draw(gen.dec(1.5, 12.5, 1)) if eps_m is None else eps_m
    c['rho'] = draw(gen.SEEDS)
    c['rhokind'] = draw(st.sampled_from(['inner', 'inner', 'inner', 'edge', 'edge', 'empty', 'full']))
    c['R'] = draw(st.sampled_from([None, None, 2, 3, 2, 1])) if filters else None
    c['beta'] = draw(st.sampled_from([1e-9, 1e-9, 0.5, 3.0, 10.0])) if filters else 1e-9
    c['eta'] = draw(st.sampled_from([0.5, 0.5, 0.2, 0.7])) if filters else 0.5
    return c


def mask(c):
    nx, ny, d = c['nx'], c['ny'], c['des']
    m = np.zeros((nx, ny))
    if d['kind'] in ('rect', 'rects'):
        for x, y, w, h in d['rects']:
            m[x:x + w, y:y + h] = 1
    elif d['kind'] == 'mask':
        m = (np.random.RandomState(d['seed']).random_sample((nx, ny)) < 0.4)*1.0
        m[nx//2, ny//2] = 1
    elif d['kind'] == 'cell':
        m[tuple(d['cell'])] = 1
    else:
        m[:] = 1
    return m


def typed(c, m):
    """the design region as the caller may have it"""
    t = c['des'].get('type', 'float')
    return np.asfortranarray(m) if t == 'F' else m.astype({'float': float, 'int': int, 'bool': bool, 'uint8': np.uint8}[t])


def filter_matrix(nx, ny, des, npml, R):
    """dense reference: rows of design cells whose neighbourhood fits are cone-weighted means, the others identity"""
    W = np.eye(nx*ny)
    if not R:
        return W
    cone = [(i, j, R - np.hypot(i, j)) for i in range(-R, R + 1) for j in range(-R, R + 1) if np.hypot(i, j) < R]
    total = sum(v for _, _, v in cone)
    for x in range(nx):
        if npml[0] and not R + npml[0] < x < nx - R - 1 - npml[0]:
            continue
        for y in range(ny):
            if npml[1] and not R + npml[1] < y < ny - R - 1 - npml[1]:
                continue
            if des[x, y] != 1:
                continue
            row = np.zeros((nx, ny))
            for i, j, v in cone:
                row[(x + i) % nx, (y + j) % ny] += v
            W[x*ny + y] = row.ravel()/total
    return W


def project(rhot, eta, beta):
    if beta < 1e-6:
        return rhot*1.0      # the limit
    return (np.tanh(beta*eta) + np.tanh(beta*(rhot - eta)))/(np.tanh(beta*eta) + np.tanh(beta*(1 - eta)))


class Problem:
    """everything about an optimization problem, computed without the code under test"""

    def __init__(self, c, npml=None):
        self.c = c
        nx, ny = c['nx'], c['ny']
        self.des = mask(c)
        self.eps0 = gen.build_eps(c['eps'], nx, ny)
        self.W = filter_matrix(nx, ny, self.des, c['npml'], c['R'])
        rho = (self.eps0 - 1)/(c['eps_m'] - 1)
        r = np.random.RandomState(c['rho']).random_sample((nx, ny))
        inner = 0.05 + 0.9*r
        kind = c.get('rhokind', 'inner')
        if kind == 'edge':      # some cells are empty or full, exactly
            inner = np.where(r < 0.3, 0.0, np.where(r > 0.7, 1.0, inner))
        elif kind != 'inner':
            inner = np.full((nx, ny), 0.0 if kind == 'empty' else 1.0)
        self.rho = np.where(self.des == 1, inner, rho)

    def eps(self, rho=None):
        c = self.c
        rho = self.rho if rho is None else rho
        t = (self.W @ rho.ravel()).reshape(rho.shape)
        e = 1 + (c['eps_m'] - 1)*project(t, c['eta'], c['beta'])
        return np.where(self.des == 1, e, self.eps0)

    def optimization(self, objective, sim, **kw):
        from angler import Optimization
        c = self.c
        o = dict(R=c['R'], beta=c['beta'], eta=c['eta'])
        o.update(kw)
        return Optimization(objective, sim, typed(c, self.des), eps_m=c['eps_m'], **o)


def cells(c, des, k):
    """k cells of the design region: its corners first, then random ones"""
    pts = np.argwhere(des == 1)
    r = np.random.RandomState(c['rho'] ^ 77)
    pick = [0, len(pts) - 1] + list(r.randint(0, len(pts), k))
    return [tuple(int(v) for v in pts[i]) for i in dict.fromkeys(pick)][:k]


# ------------------------------------------------------------------ objectives

UNITS = (1.0, 1.0, 1e-12, 1e9)
KINDS = ['int', 're', 'prod', 'overlap', 'mag', 'abs']


@st.composite
def objectives(draw, c, comps, nl=(False,), max_args=3, need_nl=False, units=(1.0,)):
    args = []
    for _ in range(draw(st.integers(1, max_args))):
        args.append([draw(st.sampled_from(list(comps))), draw(st.sampled_from(list(nl)))])
    if need_nl and not any(a[1] for a in args):
        args[draw(st.integers(0, len(args) - 1))][1] = True
    terms = []
    n = len(args)
    for k in range(n + draw(st.integers(0, 1))):
        t = {'kind': draw(st.sampled_from(KINDS)), 'a': k % n, 'b': draw(st.integers(0, n - 1)), 'w': draw(gen.SEEDS),
             'coef': draw(st.sampled_from([1.0, -1.0, 0.5, 3.0]))}
        x, y = draw(st.integers(0, c['nx'] - 1)), draw(st.integers(0, c['ny'] - 1))
        t['at'] = draw(st.sampled_from([None, [x, y, 1, 1], [x, y, 3, 4]]))
        terms.append(t)
    c['args'], c['terms'], c['mix'] = args, terms, draw(st.sampled_from(['sum', 'sum', 'exp', 'ratio']))
    c['unit'] = draw(st.sampled_from(units))
    return c


def scales(fields):
    return [float(np.abs(f).max()) or 1.0 for f in fields]


def make_J(c, scale, names=None):
    """the objective function of autograd; scale: typical size of each argument"""
    import autograd.numpy as npa
    nx, ny = c['nx'], c['ny']
    ws = []
    for t in c['terms']:
        r = np.random.RandomState(t['w'])
        w = r.standard_normal((nx, ny)) + 1j*r.standard_normal((nx, ny))
        if t['at']:
            x, y, a, b = t['at']
            m = np.zeros((nx, ny))
            m[x:x + a, y:y + b] = 1
            w = w*m
        ws.append(w/np.abs(w).sum())

    def term(t, w, f):
        a, b = f[t['a']], f[t['b']]
        p = np.abs(w)
        if t['kind'] == 'int':
            return npa.sum(p*npa.square(npa.abs(a)))
        if t['kind'] == 're':
            return npa.real(npa.sum(w*a))
        if t['kind'] == 'prod':
            return npa.real(npa.sum(w*a*b))
        if t['kind'] == 'overlap':
            return npa.square(npa.abs(npa.sum(w*npa.conj(a))))
        if t['kind'] == 'mag':
            return npa.sqrt(0.01 + npa.sum(p*npa.square(npa.abs(a))))
        return npa.sum(p*npa.sqrt(npa.square(npa.abs(a)) + 0.01))

    def J(*args):
        f = [a/s for a, s in zip(args, scale)]
        v = 0.0
        for t, w in zip(c['terms'], ws):
            v = v + t['coef']*term(t, w, f)
        if c['mix'] == 'exp':
            v = npa.exp(-npa.tanh(v))
        if c['mix'].startswith('pow'):
            v = npa.exp(int(c['mix'][3:])*npa.tanh(v))
        if c['mix'] == 'ratio':
            v = v/(2 + npa.square(v))
        return v

    n = len(c['args'])
    if n == 1:
        return lambda a: J(a)
    if n == 2:
        return lambda a, b: J(a, b)
    return lambda a, b, d: J(a, b, d)


def scaled(J, unit, n):
    """the objective in another unit (objectives are told apart by the number of their arguments)"""
    return [None, lambda a: unit*J(a), lambda a, b: unit*J(a, b), lambda a, b, c: unit*J(a, b, c)][n]


def make_objective(c, J):
    from angler.objective import Objective
    from angler.objective import obj_arg
    return Objective(J, [obj_arg('a%d' % i, component=k, nl=nl) for i, (k, nl) in enumerate(c['args'])])


def pick(c, lin, non=None):
    """the arguments of the objective from dicts of fields"""
    return [(non if nl else lin)[k] for k, nl in c['args']]


# ------------------------------------------------------------------ finite differences

def slope(value, v, h):
    """derivative of value(rho + t v) at t = 0, and an estimate of its error: central differences, extrapolated"""
    d = [(value(s*v) - value(-s*v))/(2*s) for s in (h, h/2)]
    return (4*d[1] - d[0])/3, abs(d[1] - d[0])


def directions(c, des, k=4):
    """a random direction in the design region, and single cells"""
    r = np.random.RandomState(c['rho'] ^ 12345)
    v = np.where(des == 1, r.choice([-1.0, 1.0], size=des.shape), 0.0)
    out = [('all', v)]
    for p in cells(c, des, k):
        e = np.zeros(des.shape)
        e[p] = 1.0
        out.append(('cell %s' % (p,), e))
    # the density outside of the design region matters where the filter reaches it, and nowhere else
    rest = np.where(des == 1, 0.0, r.choice([-1.0, 1.0], size=des.shape))
    if rest.any():
        out.append(('outside', rest))
    return out


def compare(ctx, grad, value, c, des, noise, what, h=2e-3, tol=2e-5, k=4):
    """grad against numerical derivatives of value(change of rho); noise: absolute rounding error of value.
    Returns the largest derivative seen"""
    top = 0.0
    grad = np.asarray(grad)
    ctx.check(grad.shape == des.shape, '%s: shape %s' % (what, grad.shape))
    ctx.check(np.isrealobj(grad), what + ': not real')
    for name, v in directions(c, des, k):
        step = h/np.sqrt(np.abs(v).sum())
        want, err = slope(value, v, step)
        got = float(np.sum(grad*v))
        allowed = tol*np.sum(np.abs(grad*v)) + tol*abs(want) + err + 4*noise/step
        size = max(abs(want), np.sum(np.abs(grad*v)), 1e-30)
        if err + 4*noise/step > 1e-3*size:
            ctx.label('numerical derivative too rough')
            # still wrong if far outside
            allowed = allowed*5
        else:
            top = max(top, size)
            ctx.label('compared')
        ctx.check(np.isfinite(got) and abs(got - want) <= allowed,
                  '%s (%s): gradient %.10g, numerical derivative %.10g (allowed %.2g)' % (what, name, got, want, allowed))
    return top
