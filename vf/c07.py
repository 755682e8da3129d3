"""C07: the symbol table of the output."""
from .common import *
from .gen import *


def profile(rng):
    k = rng.randrange(4)
    p = dict(nrel=(0, 3), nsec=(1, 5), narch=rng.choice([0, 0, 1, 2]), nlib=rng.choice([0, 0, 1]),
             name_style=rng.choice([None, 'affix', 'utf8', 'odd', 'long', 'mix']))
    if k == 0:
        p.update(nglob=(20, 200), nlocal=(0, 40))
    elif k == 1:
        p.update(nglob=(1, 10), nlocal=(10, 100), nobj=(2, 8))
    elif k == 2:
        p.update(nglob=(5, 40), nlocal=(0, 10), nobj=(3, 12), sym_weights=[5, 10, 8, 4, 2, 8, .3])
    return p


def shape(w, v):
    return sorted((s.name, s.bind, s.type, str(s.sec)) for o in w.linked for s in o.syms)


def main():
    c = core.Check('C07', rule='random worlds with many global and local symbols whose names share '
                   'prefixes and suffixes or are long, odd or not ASCII; distinct by the '
                   'population of symbols')
    T = core.THOROUGH
    c.run(world_case([oracle_symtab], profile, shape=shape), 40000 if T else 5000,
          1500 if T else 90, 'w')
    c.finish()
