"""Stands in for psutil, which is not installed here: txstatsd.process only needs it to be importable."""


class Process(object):
    def __init__(self, pid):
        self.pid = pid


def cpu_times(percpu=False):
    raise NotImplementedError
