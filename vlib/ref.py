"""Independent reference operators, written with array shifts (no matrices, nothing imported from angler)."""
import numpy as np
from .gen import EPS0, MU0


def fwd(f, axis, dl):
    return (np.roll(f, -1, axis) - f)/dl


def bwd(f, axis, dl):
    return (f - np.roll(f, 1, axis))/dl


def edge(f, axis):
    """mean of the two cells that share the lower edge"""
    return (f + np.roll(f, 1, axis))/2


def residuals(pol, F, eps, src, omega, dl, L0):
    """terms of Maxwell's equations for fields F = (Fx, Fy, Fz); list of (name, lhs, rhs, scale)

    Ez:  dy Ez = -i w mu Hx,  dx Ez = i w mu Hy,  dx Hy - dy Hx = J + i w eps Ez
    Hz:  dy Hz = i w eps_y Ex,  dx Hz = -i w eps_x Ey,  dy Ex - dx Ey = M + i w mu Hz
    """
    e0, m0 = EPS0*L0, MU0*L0
    Fx, Fy, Fz = F
    if pol == 'Ez':
        cx, cy, cz = -1j*omega*m0, 1j*omega*m0, 1j*omega*e0*eps
        dual = fwd(Fy, 0, dl) - fwd(Fx, 1, dl)
    else:
        cx, cy, cz = 1j*omega*e0*edge(eps, 1), -1j*omega*e0*edge(eps, 0), 1j*omega*m0
        dual = fwd(Fx, 1, dl) - fwd(Fy, 0, dl)
    return [('dy Fz', bwd(Fz, 1, dl), cx*Fx), ('dx Fz', bwd(Fz, 0, dl), cy*Fy), ('curl', dual, src + cz*Fz)]
