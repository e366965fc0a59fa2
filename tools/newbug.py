#!/usr/bin/env python3
"""newbug.py SPEC.py : write /verif/seeded/<id>/ from a spec with
id, prop, needs, breaks, edits=[(file, old, new[, nth])], demo (Go main)."""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in ns['bugs']:
    d = here + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    assert subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']) == b''
    try:
        for e in b['edits']:
            f = '/repo/' + e[0]
            s = open(f).read()
            n = s.count(e[1])
            if len(e) == 3:
                assert n == 1, (b['id'], e[0], n)
                s = s.replace(e[1], e[2])
            else:
                parts = s.split(e[1])
                k = e[3]
                s = e[1].join(parts[:k]) + e[2] + e[1].join(parts[k:])
            open(f, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.go.txt', 'w').write(b['demo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/demo.go"
echo "{\\"Replace\\":{\\"$PWD/v0/internal/zzdemo/main.go\\":\\"$t/demo.go\\"}}" > "$t/ov.json"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -overlay "$t/ov.json" -o "$t/demo" ./v0/internal/zzdemo || exit 3
timeout 60 "$t/demo"
''')
    print('wrote', b['id'])
