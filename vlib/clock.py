"""A simulated clock: time.time() of this process while a `with Clock()` runs."""
import time


class Clock(object):
    def __init__(self, start=1000000.0):
        self.now = start

    def __enter__(self):
        self._real = time.time
        time.time = lambda: self.now
        return self

    def __exit__(self, *a):
        time.time = self._real
