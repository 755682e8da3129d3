"""C04: which definition a name refers to."""
import random
from .bindings import *

PER_WORLD = 120


def enum_case(nobj, all_):
    """Case number i has the i-th slice of all assignments to nobj objects."""
    random.Random(core.SEED).shuffle(all_)

    def case(rng, idx, d, rep):
        i = int(idx.split('.')[1])
        mine = all_[i * PER_WORLD:(i + 1) * PER_WORLD]
        e = Enum(rng, nobj)
        names = Names(rng)
        for kinds, p in mine:
            e.add(kinds, p, names.new())
        w = e.done()
        assert w.ok, (w.undefined, w.duplicate)
        w.emit(d, rng)
        data = linked(w.link(d), d, rep)
        v = data and view(w, data, rep)
        if v:
            judge(oracle_binding, v, rep)
            judge(oracle_relocs, v, rep)
            judge(oracle_symtab, v, rep)
            judge(oracle_commons, v, rep)
        rep.count('assignments to %d objects' % nobj, len(mine))
        for m in mine:
            rep.shape(*m)
        rep.sample([' '.join(k) + ' | ' + p for k, p in mine[:3]])
    return case


def profile(rng):
    return dict(nobj=(2, 9), nrel=(5, 25), nglob=(8, 40), nlocal=(0, 12), nsec=(1, 5),
                narch=rng.choice([0, 1, 2]), nlib=rng.choice([0, 1, 2]), big=0,
                sym_weights=[6, 10, 6, 4, 4, 4, 0], arrays=False)


def main():
    c = core.Check('C04', rule='every assignment of {no mention, undefined, weak undefined, local, '
                   'weak, strong, common, absolute, local next to an undefined/strong/weak one, '
                   'strong or weak in a COMDAT group (of 4 objects: thorough only)} to '
                   'a name in 2, 3 and 4 (thorough: 5) objects, times what archives and shared '
                   'libraries provide, in random order and packed %d to a link, with a reference '
                   'from each object; plus random worlds; distinct by assignment, or by shape of '
                   'the world' % PER_WORLD)
    T = core.THOROUGH
    for n in (2, 3, 4) + ((5,) if T else ()):
        all_ = list(assignments(n, ('ok',), KINDS_OF + (GROUP_KINDS if n < 4 or T else [])))
        c.run(enum_case(n, all_), -(-len(all_) // PER_WORLD), 1200 if T else 60, 'e%d.' % n)
    c.run(world_case([oracle_binding, oracle_relocs, oracle_commons], profile), 40000 if T else 3000,
          900 if T else 60, 'w')
    c.finish()
