"""helper to write a planted bug:  from mkseed import seed
seed(id, prop, file, old, new, needs, breaks, demo_cpp)"""
import os, json, subprocess
SH = r'''#!/bin/bash
# cwd: /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w -fopenmp -I src "$D/demo.cpp" agama.so -Wl,-rpath,"$PWD" -o "$T/demo" || exit 2
"$T/demo"
'''


def seed(id, prop, file, old, new, needs, breaks, demo, cnt=1, sh=SH):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    p = '/repo/' + file
    s = open(p).read()
    assert s.count(old) == cnt, (id, s.count(old))
    open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(sh)
    if demo:
        open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
