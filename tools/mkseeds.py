#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) for every planted bug below.

Each entry is a textual edit of one or more files of /repo (as committed) and a small program that
shows the broken behaviour. Nothing in run_check.py reads this file or /verif/seeded."""
import difflib, json, os, subprocess, sys

REPO, OUT = '/repo', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SEEDS = []


def seed(sid, prop, edits, needs, breaks, demo, src='', libs='', flags='-O1 -DNDEBUG', so=False, run='./demo', files={}):
    SEEDS.append(dict(sid=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, src=src, libs=libs, flags=flags, so=so, run=run, files=files))


# the Wigner symbols, for demonstrations that compile sources which need them
def wigner():
    t = open(os.path.join(os.path.dirname(OUT), 'harness', 'AtomModel.h')).read()
    a, b = t.index('static const double *factorials'), t.index('double WignerSymbols::wigner3j')
    body = t[a:b]
    return {'wignerSymbols/wignerSymbols-cpp.h': '''// Racah's formulas, as the library is not installed
#pragma once
#include <cmath>
namespace WignerSymbols {
''' + body + '''inline double wigner3j(double a, double b, double c, double d, double e, double f) { return exact3j(a, b, c, d, e, f); }
inline double wigner6j(double a, double b, double c, double d, double e, double f) { return exact6j(a, b, c, d, e, f); }
} // namespace WignerSymbols
'''}


ATOMS = dict(src='pairinteraction/State.cpp pairinteraction/MatrixElementCache.cpp', files=wigner(), so=True, libs='-lstdc++fs')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.txt')).read())

SH = '''#!/bin/bash
# Run with cwd /repo after build.sh: exit 0 when the property holds, nonzero otherwise.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 %(flags)s -DWITH_GSL -DFMT_HEADER_ONLY -I"$here" -Ipairinteraction -I_build/pairinteraction \\
    -isystem /usr/include/eigen3 "$here/demo.cpp" %(src)s -o "$t/demo" %(libs)s
cd "$t"
timeout 200 %(run)s
'''


def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s['sid'] not in only:
            continue
        d = os.path.join(OUT, s['sid'])
        os.makedirs(d, exist_ok=True)
        patch = ''
        files = {}
        for f, old, new in s['edits']:
            path = 'pairinteraction/' + f if not f.startswith('/') else f[1:]
            if path not in files:
                text = subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + path], capture_output=True, text=True, check=True).stdout
                files[path] = [text, text]
            cur = files[path][1]
            if cur.count(old) != 1:
                sys.exit(f"{s['sid']}: {cur.count(old)} matches in {path}")
            files[path][1] = cur.replace(old, new)
        for path, (a, b) in files.items():
            patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + path, 'b/' + path))
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
        for f, text in s['files'].items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), 'w').write(text)
        libs = s['libs']
        if s['so']:
            libs = '-L_build/pairinteraction -lpairinteraction -Wl,-rpath,"$PWD/_build/pairinteraction" -lsqlite3 -lgsl -lgslcblas ' + libs
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % dict(flags=s['flags'], src=s['src'], libs=libs, run=s['run']))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


main()
