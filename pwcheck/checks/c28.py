"""C28: random structures fit the limits they were asked for."""
from ..refs import rand
from ..vncheck import run as vnrun

RULES = ('random structure',)


def run(c):
    vnrun(c, rand.specs(), RULES)
