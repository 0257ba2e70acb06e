"""C26: readers of program output take every number from its place in the file."""
from ..refs import binary, readers
from ..vncheck import run as vnrun

RULES = ('read output', 'parser')


def run(c):
    vnrun(c, readers.specs() + binary.specs(), RULES)
