"""Cases that several checks share."""
import os
import stat
import struct

from . import core
from .elfr import Elf, Malformed
from .gen import Gen
from .world import *

ORACLES = {'C02': oracle_relocs, 'C03': oracle_layout, 'C04': oracle_binding, 'C06': oracle_elf,
           'C07': oracle_symtab, 'C08': oracle_hash, 'C09': oracle_dynamic, 'C10': oracle_imports,
           'C17': oracle_arrays}


def read_output(d, name='out'):
    """The executable at the output path, or why there is none."""
    p = os.path.join(d, name)
    if not os.path.isfile(p):
        return None, 'there is nothing at the output path'
    m = os.stat(p).st_mode
    if m & 0o555 != 0o555:
        return None, 'the output has mode %o' % stat.S_IMODE(m)
    with open(p, 'rb') as f:
        return f.read(), None


def crashed(res):
    return res.rc < 0 and not res.timeout


def linked(res, d, rep, what='a link that has to succeed', out='out'):
    """The bytes of the output of a link that has to succeed, or None."""
    if res.timeout:
        rep.bad('%s does not end' % what)
        return None
    if res.rc != 0:
        rep.bad('%s ends with status %d: %s' % (what, res.rc, res.err.strip()[:600]))
        return None
    data, why = read_output(d, out)
    if data is None:
        rep.bad('%s succeeds, but %s' % (what, why))
    return data


def must_fail(res, d, rep, what, names=(), out='out'):
    """A link that has to fail: non-zero status, diagnostic, no executable."""
    if res.timeout:
        rep.bad('%s does not end' % what)
        return False
    if res.rc == 0:
        rep.bad('%s succeeds' % what)
        return False
    if res.rc < 0:
        rep.bad('%s ends with signal %d' % (what, -res.rc))
        return False
    if not res.err.strip():
        rep.bad('%s fails without a diagnostic' % what)
    for n in names:
        if n not in res.err:
            rep.bad('%s fails without naming %s: %s' % (what, n, res.err.strip()[:400]))
    p = os.path.join(d, out)
    if os.path.lexists(p) and os.path.isfile(p):
        rep.bad('%s leaves a file of %d bytes with mode %o at the output path' % (
            what, os.path.getsize(p), stat.S_IMODE(os.stat(p).st_mode)))
    return True


def judge(f, v, rep, *a):
    """Runs an oracle; an output that it cannot even read is a violation as well."""
    try:
        msgs = f(v, rep, *a)
    except (Malformed, struct.error, IndexError, KeyError, ValueError, TypeError,
            AttributeError) as x:
        import traceback
        msgs = ['the output cannot be interpreted: %s' % traceback.format_exc()]
    for m in msgs:
        rep.bad(m)
    return msgs


def view(w, data, rep):
    try:
        return View(w, data)
    except (Malformed, struct.error, IndexError, ValueError) as x:
        rep.bad('the output cannot be interpreted: %r' % x)
        return None


def world_shape(w):
    return (len(w.objs), len(w.archives), len(w.libs), w.hash_style,
            tuple(sorted({(s.name, s.type, s.flags) for o in w.linked for s in o.secs}))[:12],
            len(w.binding), sorted({r.type for o in w.linked for s in o.secs for r in s.relocs}))


def describe(w):
    return {'command': ' '.join(w.args())[:300],
            'objects': [[('%s align %d size %d relocations %d' % (s.name, s.align, s.size,
                                                                 len(s.relocs))) for s in o.secs][:6]
                        for o in w.linked][:4],
            'bindings': {n: b[0] for n, b in list(w.binding.items())[:8]}}


def world_case(oracles, profile, extra=None, shape=None):
    """A case that links a random world and judges the output."""
    def case(rng, idx, d, rep):
        prof = profile(rng) if callable(profile) else profile
        w = Gen(rng, **prof).build()
        w.emit(d, rng)
        data = linked(w.link(d), d, rep)
        rep.count('links')
        if data is None:
            return
        v = view(w, data, rep)
        if v is None:
            return
        for f in oracles:
            judge(f, v, rep)
        if extra:
            extra(rng, w, v, d, rep)
        rep.shape(*(shape(w, v) if shape else world_shape(w)))
        rep.sample(describe(w))
    return case
