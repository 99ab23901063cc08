"""C02: symmetry on the grid."""
from checks import gridgen


def run(c):
    cs = gridgen.cases(c, 5000 if c.thorough else 500, 200 if c.thorough else 80)
    c.cases("Grid", ["OpsInv", "RotInv", "RotClosed", "IrInv"], cs)
