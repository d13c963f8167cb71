#!/usr/bin/env python3
"""mkbug.py SPEC.py - write /verif/seeded/<id>/ from a list BUGS of dicts with
id, property, edits=[(file, old, new)], needs, breaks, demo (body of the shell demonstration).
The demo body runs in a scratch directory with $CSVPP set; it calls `fail MSG` when it sees the bug."""
import json, os, re, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
HEAD = '''#!/bin/bash
# run with cwd = the repository, after it was built
CSVPP="$PWD/target/debug/csvpp"
[ -x "$CSVPP" ] || { echo "no csvpp binary"; exit 2; }
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export HOME="$W" NO_COLOR=1
fail() { echo "FAIL: $*"; exit 1; }
# same FILE EXPECTED: the file has exactly this text
same() { printf '%b' "$2" | cmp -s - "$1" || { echo "--- got:"; cat "$1"; fail "$3"; }; }
'''
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    for f, old, new in b['edits']:
        p = os.path.join('/repo', f); s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f"/verif/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    for f in {f for f, _, _ in b['edits']}:
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--', f], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    # the removed lines must be the original repository's
    cur = None; ln = 0
    for line in diff.splitlines():
        if line.startswith('--- a/'): cur = line[6:]
        elif m := re.match(r'@@ -(\d+)', line): ln = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{ln},{ln}', '--', cur], capture_output=True, text=True).stdout
            if not o.startswith('^'): print(f"WARNING {b['id']}: not original: {o.strip()}")
            ln += 1
        elif line.startswith(' '): ln += 1
    open(d + '/demo.sh', 'w').write(HEAD + b['demo'].strip('\n') + '\nexit 0\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', b['id'])
