"""C24: signal processing, spectra and fits follow their definitions."""
from ..refs import fits, md, more, signal
from ..vncheck import run as vnrun

RULES = ('sampling', 'Fourier transform', 'padding', 'mirror', 'window', 'correlation', 'smoothing', 'filter', 'phonon density of states',
         'integral', 'derivative', 'fit', 'polynomial', 'ordering', 'helper', 'radial basis')


def run(c):
    vnrun(c, md.specs() + signal.specs() + more.specs() + fits.specs(), RULES)
