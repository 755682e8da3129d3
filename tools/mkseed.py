"""usage: mkseed.py ID PROPERTY NEEDS BREAKS < edits   (edits: python list of (file, old, new))"""
import json, os, subprocess, sys
R = '/tmp/mkseed-repo'
subprocess.run('rm -rf %s; git clone -q /repo %s' % (R, R), shell=True, check=True)
i, prop, needs, breaks = sys.argv[1:]
edits = eval(sys.stdin.read())
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
try:
    for f, a, b in edits:
        p = R + '/' + f
        s = open(p).read()
        assert s.count(a) == 1, (s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
finally:
    subprocess.run(['rm', '-rf', R])
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
