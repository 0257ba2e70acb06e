"""C20: every element of a re-arranged array comes from its own place."""
from ..refs import files, fits, md, signal, traj
from ..vncheck import run as vnrun

RULES = ('Voigt order', 'layout', 'supercell', 'text file')


def run(c):
    vnrun(c, md.specs() + signal.specs() + files.specs() + fits.specs() + traj.specs(), RULES)
