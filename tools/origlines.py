import re, subprocess, sys
repo = sys.argv[1]
f, n, bad = None, 0, 0
orig = {}
for l in sys.stdin:
    if l.startswith('--- a/'):
        f = l[6:].strip()
        p = subprocess.run(['git', 'blame', '-s', '513d14a..HEAD', '--', f], cwd=repo, capture_output=True, text=True)
        orig = {i: x.startswith('^') for i, x in enumerate(p.stdout.splitlines(), 1)}
    m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
    if m:
        a, c = int(m.group(1)), int(m.group(2) or 1)
        for i in range(a, a + c):
            n += orig.get(i, False)
            bad += not orig.get(i, False)
print('replaces %d original lines, %d of ours' % (n, bad))
sys.exit(0 if n else 1)
