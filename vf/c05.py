"""C05: undefined and multiply defined symbols."""
import os

from .bindings import *


def safe(rng):
    """A name that a diagnostic can show as it is."""
    return rng.choice(['f', 'frob', 'x1', '_a', 'lib_get', 'z' * 40, 'Alpha', 'main2', '__b']) + \
        rng.choice(['', '_', '2', 'x'])


def stale(rng, d, rep):
    """Perhaps there is an older executable already."""
    if rng.random() < 0.5:
        with open(os.path.join(d, 'out'), 'wb') as f:
            f.write(b'#!/bin/sh\nexit 0\n')
        os.chmod(os.path.join(d, 'out'), 0o755)
        rep.count('older executables')


def enum_case(all_):
    """One bad assignment in a link of its own, beside names that are all right."""
    def case(rng, idx, d, rep):
        kinds, p = all_[int(idx.split('.')[1])]
        e = Enum(rng, len(kinds))
        name = safe(rng)
        for k in range(rng.choice([0, 0, 2])):
            n = name + rng.choice(['a', '1', '_']) * (k + 1)
            e.add([rng.choice(['strong', 'weak'])] + ['und'] * (len(kinds) - 1), 'none', n)
        e.add(kinds, p, name)
        for k in range(rng.choice([0, 0, 2])):
            n = 'pre' * (k + 1) + name
            e.add([rng.choice(['none', 'common', 'weak'])] + ['und'] * (len(kinds) - 1), 'lib func',
                  n)
        w = e.done()
        what = verdict(kinds, p)
        assert (w.undefined, w.duplicate) == (([name], []) if what == 'undefined' else ([], [name]))
        w.emit(d, rng)
        stale(rng, d, rep)
        must_fail(w.link(d), d, rep, 'a link with %s %s (%s | %s)' % (what, name, ' '.join(kinds), p),
                  [name])
        rep.count(what)
        rep.shape(kinds, p)
        rep.sample(' '.join(kinds) + ' | ' + p + ': ' + what)
    return case


def profile(rng):
    return dict(nobj=(1, 7), nrel=(0, 8), nglob=(2, 20), narch=rng.choice([0, 1, 2]),
                nlib=rng.choice([0, 1, 2]), big=0, name_style=rng.choice(['plain', 'affix']))


def fresh(rng, w):
    """A name next to the existing ones."""
    have = {s.name for o in w.objs + [m for a in w.archives for m in a.members] for s in o.syms} | \
        {s.name for l in w.libs for s in l.syms}
    base = [n for n in have if n.isascii() and n.replace('_', 'a').isalnum()] or ['nm']
    while True:
        n = rng.choice(base)
        n = rng.choice([n + 'q', 'q' + n, n[:-1] or 'qq', n[1:] or 'qqq', n + '_', safe(rng)])
        if n not in have and n not in LINKER_DEFINED:
            return n


def break_world(rng, g, w):
    """Plants one mistake; returns its description and the name to be told."""
    r = rng
    linked = list(w.linked)
    loaded = [o for o in linked if o in w.objs]
    members = [m for a in w.archives for m in a.members]
    k = r.choice(['missing', 'missing', 'local only', 'unneeded member', 'lib refers', 'lib local',
                  'missing in member', 'weak and strong', 'removed', 'many', 'unindexed',
                  'dup', 'dup', 'dup abs', 'dup member', 'same object', 'dup nonalloc',
                  'dup zero size'])
    n = fresh(r, w)
    o = r.choice(linked)

    def ref(o, n, bind=STB_GLOBAL):
        y = o.sym(n, bind, r.choice([0, 0, 1, 2]), UND)
        hosts = [s for s in o.secs if s.tag and s.type == SHT_PROGBITS]
        if hosts and r.random() < 0.7:
            g.field(r.choice(hosts), R['R64'], y, 0, n=8)
        return y
    if k == 'missing':
        ref(o, n)
    elif k == 'local only':
        others = [x for x in linked if x is not o]
        if not others:
            return None
        x = r.choice(others)
        x.sym(n, STB_LOCAL, STT_FUNC, r.choice(x.secs + [ABS]), 0)
        ref(o, n)
    elif k == 'unneeded member':
        # the member that defines it only defines it as a local
        if not members:
            return None
        r.choice(members).sym(n, STB_LOCAL, 0, ABS, 4)
        ref(o, n)
    elif k == 'lib refers':
        if not w.libs:
            return None
        r.choice(w.libs).syms.append(DynSym(n, defined=False))
        ref(o, n)
    elif k == 'lib local':
        if not w.libs:
            return None
        r.choice(w.libs).syms.insert(0, DynSym(n, bind=STB_LOCAL))
        ref(o, n)
    elif k == 'missing in member':
        m = [x for x in linked if x not in w.objs]
        if not m:
            return None
        ref(r.choice(m), n)
    elif k == 'weak and strong':
        if len(linked) < 2:
            return None
        a, b = r.sample(linked, 2)
        ref(a, n, STB_WEAK)
        ref(b, n)
    elif k == 'removed':
        c = [(x, s) for x in linked for s in x.syms if s.bind == STB_GLOBAL and s.sec not in
             (UND, COM) and s.name != '_start' and s.name not in LINKER_DEFINED and
             s.name.isascii() and s.name.isalnum()]
        c = [(x, s) for x, s in c if sum(1 for z in linked + members for q in z.syms
                                         if q.name == s.name and q.bind and q.defined) == 1 and
             not any(q.name == s.name for l in w.libs for q in l.syms) and
             any(q.name == s.name and q.bind == 1 and not q.defined for z in w.objs for q in z.syms)]
        if not c:
            return None
        x, s = r.choice(c)
        n = s.name
        s.sec, s.value, s.type = UND, 0, 0
    elif k == 'many':
        names = []
        for i in range(r.randrange(2, 6)):
            n = fresh(r, w)
            ref(r.choice(linked), n)
            names.append(n)
        return k, []
    elif k == 'unindexed':
        # a common prefix of an archive's names
        if not members:
            return None
        m = r.choice(members)
        m.sym(n + 'tail', STB_GLOBAL, 0, ABS, 1)
        if not any(s.name == n + 'tail' for l in w.libs for s in l.syms):
            ref(o, n)
    else:
        c = [(x, s) for x in linked for s in x.syms if s.bind == STB_GLOBAL and s.sec not in
             (UND, COM) and s.name.isascii() and s.name.replace('_', 'a').isalnum()]
        if not c:
            return None
        x, s = r.choice(c)
        n = s.name
        others = [z for z in linked if z is not x and
                  not any(q.name == n and q.bind == STB_GLOBAL and q.defined for q in z.syms)]
        if k == 'same object':
            if x not in w.objs or any(s.sec in q.secs for q in x.groups):
                return None
            w.cmd.insert(r.randrange(len(w.cmd) + 1) if '-o' not in w.cmd else
                         w.cmd.index(x) + r.randrange(2), x)
            return k, []
        if not others:
            return None
        z = r.choice(others)
        if k == 'dup member':
            m = [q for q in others if q not in w.objs]
            if not m:
                return None
            z = r.choice(m)
        if x not in w.objs and z not in w.objs:
            # with the new definition, one of the members might not be linked at all
            return None
        for q in list(z.syms):
            if q.name == n and q.bind != STB_LOCAL:
                # the object's own mention becomes the second definition
                q.bind, q.sec, q.value, q.size = STB_GLOBAL, ABS, 5, 0
                break
        else:
            q = z.sym(n, STB_GLOBAL, 0, ABS, 5)
        if k != 'dup abs' and z.secs:
            secs = [t for t in z.secs if not t.alloc] if k == 'dup nonalloc' else z.secs
            if secs:
                q.sec = r.choice(secs)
                q.value = r.choice([0, q.sec.size])
        if k == 'dup zero size':
            q.size = s.size = 0
    return k, [n]


def mutate_case(rng, idx, d, rep):
    g = Gen(rng, **profile(rng))
    w = g.build()
    what = break_world(rng, g, w)
    if what is None:
        return
    kind, names = what
    w.resolve()
    if kind != 'same object' and w.ok:
        # something else provides it by accident
        return
    if kind == 'many':
        names = []
    elif kind != 'same object' and names and names[0] not in (
            w.duplicate if kind.startswith('dup') else w.undefined):
        return
    if len(w.undefined) + len(w.duplicate) > 1:
        # any of them may be told
        names = []
        all_ = w.undefined + w.duplicate
    else:
        all_ = names
    w.emit(d, rng)
    stale(rng, d, rep)
    res = w.link(d)
    if must_fail(res, d, rep, 'a link with a mistake (%s: %s)' % (kind, all_), names) and \
            not names and all_ and not any(n in res.err for n in all_):
        rep.bad('a link with a mistake (%s) names none of %s: %s' % (kind, all_, res.err[:300]))
    rep.count(kind)
    rep.shape(kind, *world_shape(w))
    rep.sample('%s: %s in %d objects' % (kind, all_, len(w.linked)))


def main():
    c = core.Check('C05', rule='every assignment of bindings to a name in 1, 2 and 3 (thorough: 4) '
                   'objects that leaves it undefined or defines it twice, in a link of its own, '
                   'and random worlds with one planted mistake, all of which must be refused with '
                   'the name and without an executable, and random worlds and all good '
                   'assignments, which must be linked; distinct by assignment, or by mistake and '
                   'shape of the world')
    T = core.THOROUGH
    for n in (1, 2, 3) + ((4,) if T else ()):
        all_ = list(assignments(n, ('undefined', 'duplicate')))
        c.run(enum_case(all_), len(all_), 1500 if T else 60, 'e%d.' % n)
    c.run(mutate_case, 30000 if T else 4000, 600 if T else 60, 'm')
    good = []
    for n in (1, 2, 3):
        good += list(assignments(n, ('ok',)))

    def good_case(rng, idx, d, rep):
        mine = rng.sample(good, 1) if rng.random() < 0.5 else rng.sample(good, 40)
        n = len(mine[0][0])
        mine = [m for m in mine if len(m[0]) == n]
        e = Enum(rng, n)
        for m in mine:
            e.add(*m)
        w = e.done()
        w.emit(d, rng)
        linked(w.link(d), d, rep, 'a complete link of %s' % (mine[:3],))
        rep.count('complete links')
        for m in mine:
            rep.shape('good', *m)
    c.run(good_case, 10000 if T else 1500, 300 if T else 30, 'g')
    c.run(world_case([], profile), 10000 if T else 1500, 300 if T else 30, 'w')
    c.finish()
