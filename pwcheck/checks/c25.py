"""C25: text files hold the numbers they are made from."""
from ..refs import convert, text
from ..vncheck import run as vnrun

RULES = ('number text', 'input card', 'structure file', 'structure object')


def run(c):
    vnrun(c, text.specs() + convert.specs(), RULES)
