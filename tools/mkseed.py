#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS file<<<'old===new' : writes seeded/ID/{patch.diff,meta.json,demo.sh}; demo.cc is written by hand"""
import sys, subprocess, json, os, tempfile
def mk(id, prop, needs, breaks, edits, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    patch = ''
    by = {}
    for f, old, new in edits:
        by.setdefault(f, open('/repo/' + f).read())
        assert by[f].count(old) == 1, (id, f, by[f].count(old), old)
        by[f] = by[f].replace(old, new)
    for f, t in by.items():
        p = tempfile.mktemp()
        open(p, 'w').write(t)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-color', '/repo/' + f, p], stdout=subprocess.PIPE).stdout.decode()
        out = []
        for l in r.split('\n'):
            if l.startswith('diff --git'): l = 'diff --git a/%s b/%s' % (f, f)
            elif l.startswith('--- '): l = '--- a/' + f
            elif l.startswith('+++ '): l = '+++ b/' + f
            elif l.startswith('index '): continue
            out.append(l)
        patch += '\n'.join(out)
        os.unlink(p)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -w -I. -I_build/googleapis "$d/demo.cc" -o "$t/demo" _build/libservice_control_client_lib.a _build/libdistribution_helper_lib.a _build/libgoogleapis.a -lprotobuf -lcrypto -lpthread || exit 2
cd "$t" && timeout 120 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
