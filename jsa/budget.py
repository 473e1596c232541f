"""Time budget of a check: an alarm interrupts the engine, the obligation at hand is left undecided."""
import signal, time
from .interp import Unsupported

deadline = None


def _ring(sig, frame):
    if deadline is not None:
        raise Unsupported('time budget')


def start(seconds):
    global deadline
    deadline = time.time() + seconds
    signal.signal(signal.SIGALRM, _ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2.0)


def stop():
    global deadline
    deadline = None
    signal.setitimer(signal.ITIMER_REAL, 0)


def over():
    return deadline is not None and time.time() >= deadline


class obligation:
    """a part of the budget for one obligation"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        if deadline is not None:
            left = deadline - time.time()
            signal.setitimer(signal.ITIMER_REAL, max(0.01, min(self.s, left)), 2.0)

    def __exit__(self, *a):
        if deadline is not None:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, deadline - time.time()), 2.0)
        return False
