"""C11: which members of archives are linked."""
import os

from .common import *
from .gen import *

NAMES = ['get', 'put', 'x', 'y', 'init_a', 'init', 'list_new', 'list', '_z', 'a1', 'a11', 'frob',
         'g' * 40, 'T', 't', 'op.1', '\u00e9t\u00e9', 'main', 'environ']


def schedules(w, rng):
    """Other orders in which the same rule can be applied, each giving a set of members."""
    definers = [(a, a.first_definer()) for a in w.archives]
    libs = {n for l in w.libs for n in l.exports()}

    def state(linked):
        defined = {s.name for o in linked for s in o.syms if s.bind and s.defined} | libs
        und = []
        for o in linked:
            for s in o.syms:
                if s.bind == STB_GLOBAL and not s.defined and s.name not in defined and \
                        s.name not in und:
                    und.append(s.name)
        return und + [n for n in w.left_by_libs(linked, defined - libs) if n not in und]

    def rounds(rev):
        # all archives in turn, each for all that is undefined at the start of the round
        linked = list(w.objs)
        while True:
            und = state(linked)
            if rev:
                und.reverse()
            n = len(linked)
            for a, d in definers:
                for x in und:
                    if x in d and d[x] not in linked and x in state(linked):
                        linked.append(d[x])
            if len(linked) == n:
                return linked

    def passes(rev):
        # each archive until it has nothing more to offer, and around again (GNU ld's groups)
        linked = list(w.objs)
        while True:
            n = len(linked)
            for a, d in definers:
                again = True
                while again:
                    again = False
                    # in the order of the archive
                    for m in a.members:
                        if m not in linked and any(x in d and d[x] is m for x in state(linked)):
                            linked.append(m)
                            again = True
            if len(linked) == n:
                return linked

    def work(pick):
        linked = list(w.objs)
        while True:
            c = []
            for x in state(linked):
                for a, d in definers:
                    if x in d and d[x] not in linked:
                        c.append(d[x])
                        break
            if not c:
                return linked
            linked.append(pick(c))
    out = [rounds(False), rounds(True), passes(False), work(lambda c: c[-1])]
    out += [work(rng.choice) for _ in range(20 if len(w.linked) < 60 else 4)]
    return out


def certain(w):
    """Whether the members that must be linked in any order are those that can be in any order."""
    definers = [a.first_definer() for a in w.archives]
    given = {n for l in w.libs for n in l.exports()} | \
        {s.name for o in w.objs for s in o.syms if s.bind and s.defined}

    # what libraries that may not be needed want may not be needed either
    libs = Obj('libs')
    sure = Obj('libs')
    for l in w.libs:
        for s in l.syms:
            if not s.defined and s.bind == STB_GLOBAL and s.name not in given:
                libs.sym(s.name, STB_GLOBAL, 0, UND)
                if not l.as_needed:
                    sure.sym(s.name, STB_GLOBAL, 0, UND)

    def closure(ok, l):
        linked, todo = set(w.objs), list(w.objs) + [l]
        while todo:
            for s in todo.pop().syms:
                if s.bind == STB_GLOBAL and not s.defined and s.name not in given:
                    for d in definers:
                        m = d.get(s.name)
                        if m and m not in linked and ok(m, s.name):
                            linked.add(m)
                            todo.append(m)
        return linked
    most = closure(lambda m, n: True, libs)
    count = {}
    for o in most:
        for n in {s.name for s in o.syms if s.bind and s.defined}:
            count[n] = count.get(n, 0) + 1
    return closure(lambda m, n: count[n] == 1, sure) == most


def unambiguous(w, rng):
    want = set(w.linked)
    if any(set(x) != want for x in schedules(w, rng)):
        return False
    return len(want) < 40 or certain(w)


def obj(rng, name, kind):
    o = Obj(name)
    tag = rng.randbytes(12)
    # of any length, so that members end at odd offsets
    n = rng.choice([0, 0, 1, 2, 3, 30, 500])
    s = o.sec(kind, SHT_PROGBITS, {'.text': 6, '.data': 3, '.rodata': 2}[kind],
              rng.choice([1, 4, 16]), tag + rng.randbytes(n), tag=(0, tag))
    return o, s


def define(rng, o, s, n, bind):
    o.sym(n, bind, rng.choice([0, 1, 2]), s if rng.random() < 0.93 else ABS,
          rng.randrange(0, 12), rng.choice([0, 4]))


def refer(rng, o, s, n, bind=STB_GLOBAL):
    for y in o.syms:
        if y.bind and y.name == n:
            if not y.defined and bind == STB_GLOBAL:
                y.bind = bind
            return
    y = o.sym(n, bind, rng.choice([0, 0, 1, 2]), UND)
    if rng.random() < 0.6:
        s.relocs.append(Rel(len(s.data), R['R64'], y, 0))
        s.data += bytes(8)


def locals_(rng, o, s, names):
    for _ in range(rng.choice([0, 0, 1, 3])):
        o.sym(rng.choice(names), STB_LOCAL, rng.choice([0, 1, 2]), s, 0)


def member_name(rng, i):
    return rng.choice(['m%d.o', 'm.o', 'x%d', 'a_member_with_a_long_name_%d.o', 'sixteen_chars_%d',
                       'a name.o', 'fifteen.chars.o', 'sixteen.chars..o', 'm%d.o']).replace(
        '%d', str(i))


def random_world(rng):
    w = World()
    k = rng.choice(['random', 'random', 'random', 'random', 'chain', 'cycle', 'tree', 'many'])
    names = ['n%d' % i for i in range(rng.randrange(4, 40))] if rng.random() < 0.5 else list(NAMES)
    kinds = ['.text', '.data', '.rodata']
    info = {}

    def new(name):
        o, s = obj(rng, name, rng.choice(kinds))
        info[o] = s
        return o
    w.objs = [new('o%d.o' % i) for i in range(rng.choice([1, 1, 2, 3, 4]))]
    for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
        w.archives.append(Archive(rng.choice(['l%d.a', 'd%d/lib.a', 'libz%d.a']) % i,
                                  [new(member_name(rng, j)) for j in range(rng.choice(
                                      [0, 1, 2, 3, 5, 8, 12]))]))
    members = [m for a in w.archives for m in a.members]
    if k == 'many':
        n = rng.choice([150, 400, 1500]) if core.THOROUGH else rng.choice([100, 300])
        a = rng.choice(w.archives)
        a.members = [new(member_name(rng, j)) for j in range(n)]
        members = [m for a in w.archives for m in a.members]
        names = ['n%d' % i for i in range(2 * n)]
    if k in ('chain', 'cycle', 'tree', 'many') and members:
        ms = list(members)
        if rng.random() < 0.7:
            rng.shuffle(ms)
        for i, m in enumerate(ms):
            define(rng, m, info[m], 'c%d' % i, rng.choice([1, 1, 2]))
        for i, m in enumerate(ms):
            if k in ('chain', 'cycle') or (k == 'many' and rng.random() < 0.9):
                if i + 1 < len(ms):
                    refer(rng, m, info[m], 'c%d' % (i + 1))
                elif k == 'cycle':
                    refer(rng, m, info[m], 'c0')
            else:
                for j in (2 * i + 1, 2 * i + 2):
                    if j < len(ms) and rng.random() < 0.9:
                        refer(rng, m, info[m], 'c%d' % j)
        if k != 'many' or rng.random() < 0.8:
            o = rng.choice(w.objs)
            refer(rng, o, info[o], 'c%d' % rng.choice([0, 0, 0, rng.randrange(len(ms))]))
    # some names are the library's
    lib_names = []
    if rng.random() < 0.4:
        lib_names = names[:len(names) // 5 + 1]
        l = Lib('libs.so', [DynSym(n, rng.choice([STT_FUNC, STT_OBJECT]),
                                   rng.choice([STB_GLOBAL, STB_WEAK])) for n in lib_names])
        l.syms.append(DynSym('lib_wants', defined=False))
        own = [n for n in names if n not in lib_names]
        if rng.random() < 0.5 and own:
            # the members have it
            for n in rng.sample(own, min(len(own), rng.choice([1, 1, 2, 3]))):
                l.syms.append(DynSym(n, rng.choice([0, STT_FUNC, STT_OBJECT]), defined=False,
                                     bind=rng.choice([STB_GLOBAL, STB_GLOBAL, STB_WEAK])))
        w.libs = [l]
    own = [n for n in names if n not in lib_names]
    for o in w.objs + members:
        p = rng.choice([0.3, 0.6]) if k == 'random' else 0.1
        is_member = o in members
        have = set()
        for n in rng.sample(own, min(len(own), rng.randrange(0, 5 if is_member else 3))):
            if rng.random() < (0.9 if is_member else 0.4) and n not in have:
                have.add(n)
                define(rng, o, info[o], n, rng.choice([1, 1, 1, 2]))
        for n in rng.sample(names, min(len(names), rng.randrange(0, 5))):
            if rng.random() < p and n not in have:
                refer(rng, o, info[o], n, rng.choice([1, 1, 1, 2]))
        locals_(rng, o, info[o], names)
    if rng.random() < 0.3 and members:
        # a member that is wanted for nothing that the others want, and which wants what nobody has
        m = new('unwanted.o')
        rng.choice(w.archives).members.append(m)
        define(rng, m, info[m], 'unwanted', 1)
        refer(rng, m, info[m], 'nobody_has_this')
        if rng.random() < 0.5:
            o = rng.choice(w.objs)
            refer(rng, o, info[o], 'unwanted', STB_WEAK)
    start = rng.choice(w.objs)
    s = info[start]
    if s.flags != 6:
        tag = rng.randbytes(12)
        s = start.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
    if members and rng.random() < 0.15:
        # even the entry point may be a member's
        m = rng.choice(members)
        tag = rng.randbytes(12)
        s = m.sec('.text', SHT_PROGBITS, 6, 1, tag, tag=(0, tag))
        m.sym('_start', 1, 2, s, 0)
        refer(rng, start, info[start], '_start')
    else:
        start.sym('_start', 1, 2, s, 0)
    # make it complete
    for _ in range(12):
        w.resolve()
        for n in w.undefined:
            c = [o for o in w.objs + [m for a in w.archives for m in a.members]
                 if not any(y.name == n and y.bind for y in o.syms)]
            if not c:
                return None
            o = rng.choice(c)
            define(rng, o, info[o], n, rng.choice([1, 1, 2]))
        for n in w.duplicate:
            c = [y for o in w.linked for y in o.syms if y.name == n and y.bind == 1 and y.defined
                 and n != '_start']
            for y in c[1:]:
                y.bind = STB_WEAK
            if not c:
                return None
        if w.ok:
            break
    w.resolve()
    if not w.ok:
        return None
    return (w, k) if unambiguous(w, rng) else None


def case(rng, idx, d, rep):
    for _ in range(200):
        r = random_world(rng)
        if r:
            break
    else:
        raise AssertionError('no world')
    w, k = r
    cmd = [[x] for x in w.objs + w.libs]
    for i, a in enumerate(w.archives):
        base = os.path.basename(a.name)
        how = rng.choice(['path', 'path', './', '-l', 'twice', 'script', 'group'])
        if how == '-l' and not base.startswith('libz'):
            how = 'path'
        dirname = os.path.dirname(a.name) or '.'
        one = {'path': [a.name], './': ['./' + a.name], '-l': ['-l' + base[3:-2]],
               'script': ['s%d.txt' % i], 'twice': [a.name],
               'group': ['--start-group', a.name, '--end-group']}[how]
        if how == '-l':
            if dirname != '.' or rng.random() < 0.5:
                # a directory of its own, so that the name means this one
                dirname = 'dir%d' % i
                a.name = dirname + '/' + base
            one = ['-l' + base[3:-2]]
            if sum(os.path.basename(b.name) == base for b in w.archives) > 1:
                one = [a.name]
            else:
                cmd.append(['-L', dirname])
        if how == 'script':
            w.files['s%d.txt' % i] = 'GROUP ( %s )\n' % a.name
        cmd.append(one)
        if how == 'twice':
            cmd.append([rng.choice([a.name, './' + a.name])])
        rep.count('archives given as ' + how)
    rng.shuffle(cmd)
    # the order of archives as given
    first = []
    for c in cmd:
        for a in w.archives:
            b = os.path.basename(a.name)
            i = w.archives.index(a)
            if a not in first and (any(x in (a.name, './' + a.name, 's%d.txt' % i) for x in c) or
                                   c == ['-l' + b[3:-2]]):
                first.append(a)
    assert len(first) == len(w.archives), (cmd, [a.name for a in w.archives])
    w.archives = first
    w.objs = [c[0] for c in cmd if isinstance(c[0], Obj)]
    w.cmd = [x for c in cmd for x in c] + ['-o', 'out']
    w.resolve()
    if not w.ok or not unambiguous(w, rng):
        # the order of the archives matters: another world says more
        rep.count('ambiguous orders skipped')
        return
    w.emit(d, rng)
    if rng.random() < 0.15:
        real_ar(rng, w, d, rep)
    data = linked(w.link(d), d, rep)
    v = data and view(w, data, rep)
    if not v:
        return
    members = [m for a in w.archives for m in a.members]
    for m in members + w.objs:
        n = data.count(m.secs[0].tag[1])
        want = 1 if m in w.linked else 0
        if n != want:
            a = [a.name for a in w.archives if m in a.members]
            rep.bad('%s of %s (defines %s) is in the output %d times instead of %d' % (
                m.name, a, [s.name for s in m.syms if s.bind and s.defined], n, want))
    weak = {}
    for o in w.linked:
        for n in {s.name for s in o.syms if s.bind == STB_WEAK and s.defined}:
            weak.setdefault(n, []).append(o)
    if not any(len(x) > 1 and w.binding[n][1].bind == STB_WEAK and x[1] not in w.objs
               for n, x in weak.items()):
        # which of several weak definitions wins depends on when their members are linked
        judge(oracle_binding, v, rep)
    rep.count('links')
    rep.count('members linked', sum(m in w.linked for m in members))
    rep.count('members left out', sum(m not in w.linked for m in members))
    edges = sorted((i, j) for i, x in enumerate(w.linked) for j, y in enumerate(w.linked)
                   for s in x.syms if s.bind == 1 and not s.defined
                   for t in y.syms if t.bind and t.defined and t.name == s.name) \
        if len(w.linked) < 60 else [len(w.linked)]
    rep.shape(k, [len(a.members) for a in w.archives], edges)
    rep.sample({'command': ' '.join(w.args())[:200], 'archives': [
        '%s: %d members, linked %s' % (a.name, len(a.members), [
            m.name for m in a.members if m in w.linked][:6]) for a in w.archives]})


def real_ar(rng, w, d, rep):
    """The same archives, written by ar."""
    for i, a in enumerate(w.archives):
        names = [os.path.basename(m.name) for m in a.members]
        p = os.path.join(d, a.name)
        os.unlink(p)
        files = []
        for j, m in enumerate(a.members):
            sub = os.path.join(d, 'ar%d' % i, str(j))
            os.makedirs(sub)
            f = os.path.join(sub, names[j])
            with open(f, 'wb') as g:
                g.write(write_obj(m, rng))
            files.append(f)
        # q keeps members of equal names
        r = core.run(['ar', 'qcs', p] + files, d)
        if r.rc:
            raise core.Inconclusive('ar: ' + r.err)
        rep.count('archives written by ar')


def gnu_case(rng, idx, d, rep):
    """The model against GNU ld, which must agree before the linker is judged."""
    for _ in range(200):
        r = random_world(rng)
        if r and not r[0].libs:
            break
    else:
        return
    w, k = r
    w.cmd = ['-o', 'out'] + w.objs + w.archives
    w.emit(d, rng)
    real_ar(rng, w, d, rep)
    g = core.run(['ld', '-o', 'ref'] + [o.name for o in w.objs] + ['--start-group'] +
                 [a.name for a in w.archives] + ['--end-group'], d)
    if g.rc:
        rep.count('not for GNU ld')
        return
    ref = open(os.path.join(d, 'ref'), 'rb').read()
    data = linked(w.link(d), d, rep)
    if data is None:
        return
    for m in [m for a in w.archives for m in a.members]:
        x, y, z = m.secs[0].tag[1] in ref, m.secs[0].tag[1] in data, m in w.linked
        if x == z and y != x:
            rep.bad('%s is %sin the output, unlike that of GNU ld' % (m.name, '' if y else 'not '))
        rep.count('members compared' if x == z else 'members GNU ld judges differently')
    rep.shape('ld', k, len(w.linked), [len(a.members) for a in w.archives])


def main():
    c = core.Check('C11', rule='random graphs of objects, archive members and shared libraries '
                   '(chains, cycles, trees, duplicate definers, unneeded members, weak and local '
                   'symbols, odd sizes and names, archives of no members, archives given twice, '
                   'with -l or by scripts); every member carries a unique tag that is counted in '
                   'the output; only graphs where every order of applying the rule agrees are '
                   'used; distinct by sizes and the dependency graph')
    T = core.THOROUGH
    c.run(case, 40000 if T else 2000, 1500 if T else 60, 'a')
    c.run(gnu_case, 5000 if T else 150, 400 if T else 15, 'g')
    c.finish()
