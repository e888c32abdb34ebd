"""C04: discovery misses no complete checkpoint, and orders them by step."""
from dst.history import faults, gen, plan, run, setup, shrink  # pylint: disable=unused-import

FAULTY_RUNS = {'quick': 5, 'thorough': 10}
