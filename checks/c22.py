"""C22: structure generators."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Prop
from vlib import gen

RULE = """Random dimensions of every generator (in units of the cell, never within 1e-6 of a whole number of cells), grid sizes, layers and
permittivities; every cell of permittivity and design region against membership in the described parts, worked out cell by cell from the
coordinates.  Regions of random shapes through apply_regions, coordinates of random grids.  Non-trivial: the structure has cells of both
kinds."""
ASSUMPTIONS = ["cells whose coordinate is within 1e-9 of an edge of a part are not judged", "domains of at least two cells in each direction",
               "waveguide widths and port positions of the port devices are rounded down to cells, and the small offsets that the code documents as "
               "a fix of gridding issues belong to the parts"]


def grid(n, dl):
    return np.array([-n/2*dl + n*dl*i/(n - 1) for i in range(n)])


class Parts:
    """membership with a margin: +1 inside, -1 outside, 0 too close to tell"""

    def __init__(self, nx, ny, dl):
        self.x, self.y = np.meshgrid(grid(nx, dl), grid(ny, dl), indexing='ij')

    def inside(self, *margins):
        """margins: positive inside"""
        m = np.full(self.x.shape, np.inf)
        for a in margins:
            m = np.minimum(m, a)
        return np.where(np.abs(m) < 1e-9, 0, np.sign(m))

    def union(self, parts):
        m = np.full(self.x.shape, -1.0)
        for p in parts:
            m = np.maximum(m, p)
        return m


def judge(ctx, got, member, a, b, what):
    ctx.check(got.shape == member.shape, '%s: shape %s, should be %s' % (what, got.shape, member.shape))
    want = np.where(member > 0, a, b)
    bad = (member != 0) & (got != want)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail('%s: cell %s is %s, should be %s (%d such cells)' % (what, i, got[i], want[i], bad.sum()))


def device(case, ctx):
    from angler import structures as s
    k, dl, (px, py) = case['kind'], case['dl'], case['npml']
    u = {q: v*dl for q, v in case['u'].items()}
    e, bg = case['eps'], case['bg']
    L, H, w, d, l, spc = u['L'], u['H'], u['w'], u['d'], u['l'], u['spc']
    kw = {} if case['default_bg'] else {'eps_background': bg}
    if case['default_bg']:
        bg = 1.0
    wpx = dl*int(case['u']['w'])
    npml = [px, py]

    def size(*a):
        return int(sum(a))
    cu = case['u']
    nx, ny = 2*px + size(2*cu['l'], cu['L']), 2*py + size(cu['H'], 2*cu['spc'])
    if k == 'ortho':
        ny = 2*py + size(2*cu['l'], cu['H'])
    if k in ('acc', 'multi'):
        n = case['n'] if k == 'multi' else 1
        nx, ny = 2*px + size(4*cu['spc'], 2*cu['L']*n, cu['gap']*n), int(case['beta']*case['lam'])
    if min(nx, ny) < 2:
        ctx.label('too small')
        return
    P = Parts(nx, ny, dl)
    x, y = P.x, P.y
    ax, ay = np.abs(x), np.abs(y)
    keep = list(npml)
    if k == 'three':
        eps, des = s.three_port(L, H, w, d, l, spc, dl, npml, e, **kw)
        frac = 0.5*(ny % 2)
        bot, top = dl*int(frac - cu['d']/2), dl*int(frac + cu['d']/2)
        box = P.inside(L/2 - ax, H/2 - ay)
        parts = [box, P.inside(-x, wpx/2 - ay), P.inside(x, wpx/2 - np.abs(y - bot)), P.inside(x, wpx/2 - np.abs(y - top))]
        member, design = P.union(parts), box
    elif k == 'two':
        bg = 1.0
        eps, des = s.two_port(L, H, w, l, spc, dl, npml, e)
        member, design = P.inside(w/2 - ay), P.inside(L/2 - ax, H/2 - ay)
    elif k == 'N':
        eps, des = s.N_port(case['n'], L, H, w, d, l, spc, dl, npml, e, **kw)
        box = P.inside(L/2 - ax, H/2 - ay)
        parts = [box, P.inside(-x, wpx/2 - np.abs(y - 0.01))]
        for i in range(case['n']):
            parts.append(P.inside(x, wpx/2 - np.abs(y - (i - (case['n'] - 1)/2)*d)))
        member, design = P.union(parts), box
    elif k == 'ortho':
        bg = 1.0
        L2, H2 = u['L2'], u['H2']
        eps, des = s.ortho_port(L, L2, H, H2, w, l, dl, npml, e)
        member = P.union([P.inside(w/2 - ay), P.inside(x + w/2, w/2 + dl/2 - x, y)])
        design = P.union([P.inside(L/2 - ax, w/2 - ay), P.inside(L2/2 - ax, H2/2 - ay),
                          P.inside(x + w/2, w/2 + dl/2 - x, y + H2/2, H/2 - y)])
    else:
        bg, g = 1.0, u['gap']
        if k == 'acc':
            eps, des = s.accelerator(case['beta'], g, case['lam']*dl, L, spc, dl, npml, e)
        else:
            eps, des = s.accelerator_multi(case['beta'], g, case['lam']*dl, L, spc, case['n'], dl, npml, e)
        member = P.union([P.inside(ax - i*(g + L) - g/2, g/2 + L - ax + i*(g + L)) for i in range((case['n'] if k == 'multi' else 1)//2 + 1)])
        design = member
    judge(ctx, np.asarray(eps), member, e, bg, k + ': permittivity')
    judge(ctx, np.asarray(des), design, 1, 0, k + ': design region')
    ctx.check(npml == keep, 'NPML was changed')
    ctx.label(k)
    ctx.nontrivial((member > 0).any() and (member < 0).any())


def even(case, ctx):
    from angler import structures as s
    u = case['u']
    if case['n'] % 2:
        s.accelerator_multi(case['beta'], u['gap']*case['dl'], 30*case['dl'], u['L']*case['dl'], u['spc']*case['dl'], case['n'],
                            case['dl'], case['npml'], case['eps'])
    else:
        ctx.raises(ValueError, lambda: s.accelerator_multi(case['beta'], 1.0, 10.0, 1.0, 1.0, case['n'], 0.5, case['npml'], 4.0), 'even number of channels')
    ctx.nontrivial()


def coordinates(case, ctx):
    from angler import structures as s
    nx, ny, dl = case['nx'], case['ny'], case['dl']
    xs, ys = s.get_grid((nx, ny), dl)
    X, Y = np.meshgrid(grid(nx, dl), grid(ny, dl), indexing='ij')
    ctx.close(xs, X, 1e-12, 'x coordinates')
    ctx.close(ys, Y, 1e-12, 'y coordinates')
    # regions: later ones paint over, all with the same value
    fs, parts = [], []
    for a, b, c, d in case['rects']:
        x0, x1, y0, y1 = a*nx*dl - nx*dl/2, b*nx*dl - nx*dl/2, c*ny*dl - ny*dl/2, d*ny*dl - ny*dl/2
        fs.append(lambda x, y, v=(x0, x1, y0, y1): (x > v[0])*(x < v[1])*(y > v[2])*(y < v[3]))
        parts.append(np.minimum.reduce([X - x0, x1 - X, Y - y0, y1 - Y]))
    m = np.maximum.reduce(parts)
    member = np.where(np.abs(m) < 1e-9, 0, np.sign(m))
    kx, ky = xs.copy(), ys.copy()
    kw = {} if case['default_bg'] else {'eps_background': case['bg']}
    eps = s.apply_regions(fs if len(fs) > 1 or case['default_bg'] else fs[0], xs, ys, case['eps'], **kw)
    judge(ctx, eps, member, case['eps'], 1.0 if case['default_bg'] else case['bg'], 'regions')
    ctx.check(np.array_equal(kx, xs) and np.array_equal(ky, ys), 'the coordinates were changed')
    ctx.label('%d regions' % len(fs))
    ctx.nontrivial((member > 0).any() and (member < 0).any())


@st.composite
def units(draw, lo, hi):
    """a length in cells that is not close to a whole or half number of cells"""
    return draw(st.integers(lo, hi)) + draw(st.sampled_from([0.3, 0.1, 0.7, 0.42]))


@st.composite
def devices(draw):
    c = {'kind': draw(st.sampled_from(['three', 'two', 'N', 'ortho', 'acc', 'multi'])), 'dl': draw(st.sampled_from([0.1, 0.05, 1.0, 0.2, 0.03])),
         'npml': [draw(st.integers(0, 8)), draw(st.integers(0, 8))], 'eps': draw(gen.dec(1.5, 13, 1)), 'bg': draw(gen.dec(1, 4, 1)),
         'default_bg': draw(st.booleans()), 'n': draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 9])), 'beta': draw(st.sampled_from([0.5, 1.0, 0.2])),
         'lam': draw(units(4, 30))}
    c['u'] = {k: draw(units(*r)) for k, r in dict(L=(3, 20), H=(3, 20), w=(1, 8), d=(1, 12), l=(1, 12), spc=(1, 10), L2=(2, 15), H2=(2, 15), gap=(1, 8)).items()}
    if c['kind'] == 'multi':
        c['n'] |= 1
    # the sums that give the size must not be whole numbers
    return c


def sane(c):
    u = c['u']
    sums = [2*u['l'] + u['L'], u['H'] + 2*u['spc'], 2*u['l'] + u['H'], 4*u['spc'] + (2*u['L'] + u['gap'])*(c['n'] if c['kind'] == 'multi' else 1),
            c['beta']*c['lam'], u['d']/2, u['d']/2 + 0.5, u['w']]
    return all(abs(v - round(v)) > 1e-6 for v in sums)


@st.composite
def grids(draw):
    c = {'nx': draw(st.integers(2, 20)), 'ny': draw(st.integers(2, 20)), 'dl': draw(st.sampled_from([0.1, 1.0, 0.025])), 'eps': draw(gen.dec(1.5, 13, 1)),
         'bg': draw(gen.dec(1, 4, 1)), 'default_bg': draw(st.booleans()), 'rects': []}
    f = gen.dec(-0.2, 1.2)
    for _ in range(draw(st.integers(1, 3))):
        a, b = sorted([draw(f), draw(f)])
        x, y = sorted([draw(f), draw(f)])
        c['rects'].append([a, b, x, y])
    return c


TESTS = [Prop('device', devices().filter(sane), device, 800),
         Prop('channels', devices().filter(sane), even, 80),
         Prop('regions', grids(), coordinates, 400)]
