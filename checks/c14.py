"""C14: adjoint gradient of 'Hz' objectives."""
from vlib.harness import Prop
from checks.c12 import linear, problems

RULE = """Random 'Hz' simulations (real or lossy, absorbing layers or periodic), design regions of any shape anywhere, densities, filters,
projections, and objectives of one to three linear field components.  The gradient is compared with extrapolated central differences of
an objective evaluated through fresh simulations of a permittivity that an independent filter and projection give, along a random
direction of the whole design region and at single cells.  Non-trivial: a numerical derivative larger than its error was compared."""
ASSUMPTIONS = ["design regions are 0/1 masks", "near-resonant cases, in which the numerical derivative is too rough, are counted by a label"]

TESTS = [Prop('gradient', problems(pols=('Hz',)), linear, 800)]
