#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
C = {}


def c(prop, technique, note, level='exploration'):
    C[prop] = dict(property=prop, quick_cmd='./check ' + prop,
                   thorough_cmd='./check %s --thorough' % prop,
                   evidence_file='evidence/%s.json' % prop, technique=technique, level=level,
                   level_note=note)


RW = 'Sampled executions: the property held on every output observed. '
TRUST = 'Trusts the checkers in vf/ (an ELF reader and writer of their own and a model of the ' \
        'psABI rules written independently of the linker).'
c('C02', 'monitoring of generated links: a psABI checker recomputes every relocated field of each '
  'output; overflow and unsupported types are probed at their exact limits', RW + TRUST)
c('C03', 'monitoring of generated links: placement checker over uniquely tagged section contents '
  'in the memory image of each output', RW + TRUST)
c('C04', 'monitoring of generated links plus an enumeration of all bindings of one name over up '
  'to three objects; the definition that was chosen is observed through the addresses in the '
  'output', RW + 'The enumeration is complete for its bound. ' + TRUST)
c('C05', 'fault-seeded links (missing and duplicate definitions in every kind of place) and '
  'complete ones, with a monitor of exit status, diagnostic and output path', RW + TRUST)
c('C06', 'monitoring of generated links with an independent ELF reader and checker; outputs are '
  'also started under the kernel and ld.so', RW + TRUST)
c('C07', 'monitoring of generated links: symbol-table checker against the input symbols', RW + TRUST)
c('C08', 'monitoring of generated links: the ABI lookup procedures are run over the hash tables '
  'of each output; ld.so and dlsym confirm on real ones', RW + TRUST)
c('C09', 'monitoring of generated links: dynamic-section checker against the tables of the '
  'output and the libraries given', RW + TRUST)
extra = os.path.join(V, 'tools', 'manifest_more.py')
if os.path.exists(extra):
    exec(open(extra).read())
out = dict(version=1, setup_cmd='./setup', checks=[C[k] for k in sorted(C)],
           not_applicable=[],
           notes='No hooks: everything is observed at the command line, in the output files and '
                 'in the running programs. See DESIGN.md.')
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p not in C:
        out['not_applicable'].append(dict(property=p, reason='check under construction'))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
