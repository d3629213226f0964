"""Simulated clock.  Installed before the code under test is imported, so that
``from time import time`` binds the simulated function."""

import time as _time

real_monotonic = _time.monotonic


class SimClock:
    def __init__(self):
        self.now = 1.5e9
        self.jumps = []
        self.calls = 0

    def reset(self, jumps=()):
        self.now = 1.5e9
        self.jumps = list(jumps)
        self.calls = 0

    def __call__(self):
        self.calls += 1
        if self.jumps:
            self.now += self.jumps[self.calls % len(self.jumps)]
        else:
            self.now += 0.001
        return self.now


CLOCK = SimClock()


def install():
    _time.time = CLOCK
