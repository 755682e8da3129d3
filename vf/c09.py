"""C09: the dynamic section and the needed libraries."""
from .common import *
from .gen import *


def profile(rng):
    return dict(nrel=(0, 12), nlib=rng.choice([0, 1, 2, 3, 5, 8]), nsec=(1, 4), repeat=0.3,
                nglob=rng.choice([(1, 6), (5, 40)]), narch=rng.choice([0, 0, 1]),
                arrays=rng.random() < 0.5, big=0,
                sym_weights=[4, 2, 1, 2, 14, 3, 0.3])


def shape(w, v):
    return ([t for t, _ in v.dyn], [(c if isinstance(c, str) else type(c).__name__)
                                    for c in w.cmd], [bool(l.soname) for l in w.libs])


def main():
    c = core.Check('C09', rule='random worlds with up to eight shared libraries, used and unused, '
                   'with and without SONAME, under interleaved --as-needed and --no-as-needed; '
                   'distinct by command line and dynamic tags')
    T = core.THOROUGH
    c.run(world_case([oracle_dynamic], profile, shape=shape), 60000 if T else 8000,
          1500 if T else 90, 'w')
    c.finish()
