#!/usr/bin/env python3
"""mkbug.py SPEC.py: write seeded/<id>/ from a spec file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)...], DEMO (shell text), FILES = {name: text}."""
import sys, os, json, subprocess, tempfile, pathlib
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = pathlib.Path('/verif/seeded') / spec['ID']
out.mkdir(parents=True, exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
    subprocess.run('git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x', shell=True, cwd=d, check=True)
    for path, old, new in spec['EDITS']:
        p = pathlib.Path(d) / path
        t = p.read_text()
        assert t.count(old) == 1, (path, t.count(old), old)
        p.write_text(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True, check=True).stdout
assert diff
(out / 'patch.diff').write_text(diff)
(out / 'demo.sh').write_text(spec['DEMO'])
os.chmod(out / 'demo.sh', 0o755)
for n, t in spec.get('FILES', {}).items():
    (out / n).write_text(t)
(out / 'meta.json').write_text(json.dumps({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
print(out)
