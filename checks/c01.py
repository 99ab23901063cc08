"""C01: the sampling grid."""
from checks import gridgen


def run(c):
    cs = gridgen.cases(c, 5000 if c.thorough else 500, 200 if c.thorough else 80)
    c.cases("Grid", ["IndexInv", "LookupInv", "MapInv", "BZInv", "GRGInv", "QUniInv", "RefuseInv"], cs)
    c.cases("Grid", ["LenInv"], gridgen.lengths(c, 1700 if c.thorough else 170))
    c.note(refused=sum(x["kind"] == "refused" for x in cs))
