from .Metropolis import Metropolis
from .Adaptation import Adaptation
from .DelayedRejection import DelayedRejection

class SamplingMethods:

    def __init__(self):
        self.metropolis = Metropolis()
        self.delayed_rejection = DelayedRejection()
        self.adaptation = Adaptation()
