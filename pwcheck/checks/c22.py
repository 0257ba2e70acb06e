"""C22: crystal geometry follows its definitions."""
from ..refs import geom, md, more, pairs
from ..vncheck import run as vnrun

RULES = ('angle', 'volume', 'cell parameters', 'reciprocal cell', 'k-point grid', 'coordinate transformation',
         'periodic boundary', 'distances', 'Bravais lattice', 'k path', 'nearest neighbours', 'pair distribution')


def run(c):
    vnrun(c, geom.specs() + md.specs() + more.specs() + pairs.specs(), RULES)
