"""Components of the user which fail on demand"""
from cdtools.datasets import Ptycho2DDataset
from .world import TinyModel


class Oops(Exception):
    pass


class Fatal(BaseException):
    pass


EXCEPTIONS = {
    'RuntimeError': lambda: RuntimeError('injected failure'),
    'ValueError': lambda: ValueError('injected failure'),
    'TypeError': lambda: TypeError('injected failure'),
    'OSError': lambda: OSError(5, 'injected failure'),
    'MemoryError': lambda: MemoryError('injected failure'),
    'SystemExit': lambda: SystemExit('injected failure'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected failure'),
    'Oops': lambda: Oops('injected failure'),
    'Fatal': lambda: Fatal('injected failure'),
}


class Faults:
    """Raises a given exception at the n-th passage of a given site"""

    def __init__(self, entries=()):
        self.entries = {(site, n): exc for site, n, exc in entries}
        self.counts = {}
        self.raised = []
        self.armed = False

    def pass_by(self, site):
        if not self.armed:
            return
        n = self.counts[site] = self.counts.get(site, 0) + 1
        exc = self.entries.get((site, n))
        if exc is not None:
            e = EXCEPTIONS[exc]()
            self.raised.append(e)
            raise e


class FaultyModel(TinyModel):
    faults = Faults()

    def interaction(self, *args):
        self.faults.pass_by('interaction')
        return super().interaction(*args)

    def measurement(self, *args):
        self.faults.pass_by('measurement')
        return super().measurement(*args)

    def loss(self, *args, **kwargs):
        self.faults.pass_by('loss')
        return super().loss(*args, **kwargs)

    def regularizer(self, *args):
        self.faults.pass_by('regularizer')
        return super().regularizer(*args)


class FaultyDataset(Ptycho2DDataset):
    faults = Faults()

    def __getitem__(self, index):
        self.faults.pass_by('dataset')
        return super().__getitem__(index)
