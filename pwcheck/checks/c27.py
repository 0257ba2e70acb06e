"""C27: parameter studies write every value where it belongs."""
from ..refs import sqldb, study
from ..vncheck import run as vnrun

RULES = ('study',)


def run(c):
    vnrun(c, study.specs() + sqldb.specs(), RULES)
