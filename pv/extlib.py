"""Contracts of external libraries (solvers etc.) used by the repository."""
from .terms import *          # noqa
from .values import *         # noqa
from .values import W


def install(interp):
    pass
