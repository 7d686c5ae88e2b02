#!/usr/bin/env python3
"""mkseed.py SPEC.py: create and confirm planted bugs (SEEDS = [dict(id, prop, file, edits, srcs, demo, needs, breaks)]).
Applies each to /repo only while confirming it, and restores /repo afterwards."""
import json, os, subprocess, sys
R, V = '/repo', '/verif'
SH = '''#!/bin/bash
# run with cwd = the repository; compiles the demonstration against its sources
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/embc"; sed -e 's/@EMBC_PLATFORM@/STDLIB/;s/@PROJECT_PREFIX@/EMBC/;s/@PROJECT_VERSION_[A-Z]*@/0/' src/config.h.in > "$t/embc/config.h"
gcc -std=gnu99 -w -g %s -I. -Iinclude -I"$t" -Ithird-party/uthash/src %s -o "$t/demo" "$d/demo.c" %s -lm || exit 2
timeout 60 "$t/demo"
'''
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = '%s/seeded/%s' % (V, s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.c', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SH % (s.get('cflags', ''), s.get('inc', ''), ' '.join(s['srcs']))); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        before = sh('cd /repo && bash %s/demo.sh' % d)
        fs = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
        try:
            for f, ed in fs.items():
                p = R + '/' + f; t = open(p).read()
                for a, b in ed:
                    assert t.count(a) == 1, (s['id'], t.count(a), a); t = t.replace(a, b)
                open(p, 'w').write(t)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            after = sh('cd /repo && bash %s/demo.sh' % d); st = sh('%s/tools/stable.sh' % V).stdout.strip().splitlines()[-1:]
        finally: sh('git -C /repo checkout -- .')
        print(s['id'], s['prop'], 'before', before.returncode, before.stderr[-300:] if before.returncode else '', 'after', after.returncode, st)
    sh('%s/tools/stable.sh' % V)
main()
