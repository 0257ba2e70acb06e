"""C23: quantities of trajectories, phonon and equation-of-state models follow their definitions."""
from ..refs import md, thermo
from ..vncheck import run as vnrun

RULES = ('kinetic', 'deviation', 'operation', 'harmonic', 'quasiharmonic', 'thermal expansion', 'equation of state', 'thermostat')


def run(c):
    vnrun(c, md.specs() + thermo.specs(), RULES)
