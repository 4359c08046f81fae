#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY: makes seeded/NAME/patch.diff from a list of replacements read from stdin (JSON: {needs, breaks, edits: [[file, old, new]...]})
in the scratch copy /tmp/sw/repo, and lays the script-running kit beside it when main.dm is there."""
import json, os, shutil, subprocess, sys
name, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
repo = '/tmp/sw/repo'
sh = lambda c: subprocess.run(c, shell=True, check=True, capture_output=True, text=True).stdout
sh(f'git -C {repo} checkout -q -- . && git -C {repo} fetch -q /repo HEAD && git -C {repo} reset -q --hard FETCH_HEAD')
for f, old, new in spec['edits']:
    p = f'{repo}/{f}'
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
d = f'/verif/seeded/{name}'
os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff', 'w').write(sh(f'git -C {repo} diff'))
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
sh(f'git -C {repo} checkout -q -- .')
if os.path.exists(f'{d}/main.dm'):
    k = '/verif/tools/demo-kit'
    shutil.rmtree(f'{d}/kit', ignore_errors=True)
    os.makedirs(f'{d}/kit')
    real = spec.get('interp')
    for f in ('main.rs', 'Cargo.toml'):
        shutil.copy(f'{k}/interp/{f}' if real else f'{k}/{f}', f'{d}/kit/{f}')
    if real:
        shutil.copy('/verif/sim/src/real.rs', f'{d}/kit/real.rs')
        for c in ('interp', 'interp-core'):
            shutil.copytree(f'/verif/{c}', f'{d}/kit/{c}', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            p = f'{d}/kit/{c}/Cargo.toml'
            t = open(p).read()
            open(p, 'w').write(t.replace('[workspace]\n', ''))
    for f in ('ast', 'library', 'prelude', 'rng', 'vm', 'world'):
        shutil.copy(f'/verif/sim/src/{f}.rs', f'{d}/kit/{f}.rs')
    shutil.copy('/verif/sim/Cargo.lock', f'{d}/kit/Cargo.lock')
    shutil.copy(f'{k}/demo.sh', f'{d}/demo.sh')
    os.chmod(f'{d}/demo.sh', 0o755)
