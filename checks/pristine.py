"""What modules of the package keep: put back between runs, so that a run starts like a new process."""
import ombott
from symx import pristine


def take():
    pristine.take(ombott)


def restore():
    pristine.restore(ombott)
