__version__ = '1.9.1'
from mcmcplot import mcmcplot
