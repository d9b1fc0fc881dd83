"""Writes seeded/ID from a description: edits (file, old, new), a C++ or Python demonstration, meta."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/waymo_open_dataset/'
CC_SH = '''#!/bin/bash
# Compiles demo.cc against the built objects and runs it; exit 0 when the property holds.
. /opt/vp/env.sh
R=$PWD; H=$(cd "$(dirname "$0")" && pwd); WB=${WOD_BUILD:-/opt/wod/build}; TF=/opt/wod/tf/tensorflow
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
OBJ=$(find $WB/obj -name '*.o' ! -name '*_test.o' ! -name '*_main.o' ! -name '*_ops.o' ! -name 'create_submission.o' ! -name 'test_utils.o' ! -path '*/ops/*')
F="-std=c++17 -O1 -DNDEBUG -w -pthread -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 -I$R/src -I$WB/gen -isystem $TF/include"
g++ $F "$H/demo.cc" $OBJ -L$TF -Wl,-rpath,$TF -l:libtensorflow_framework.so.2 -lglog -lz -lrt -lm -o "$T/demo" || exit 3
timeout 200 "$T/demo"
'''
PY_SH = '''#!/bin/bash
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/src MPLBACKEND=Agg timeout 250 $PY "$H/demo.py"
'''


def bug(i, prop, edits, needs, breaks, cc=None, py=None):
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    out = []
    for f, reps in edits.items():
        a = open('/repo/' + SRC + f).read()
        b = a
        for old, new in reps:
            assert b.count(old) == 1, (i, f, b.count(old), old)
            b = b.replace(old, new)
        diff = ''.join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/' + SRC + f, 'b/' + SRC + f))
        out.append(diff)
    open(d + '/patch.diff', 'w').write(''.join(out))
    open(d + '/demo.sh', 'w').write(CC_SH if cc else PY_SH)
    open(d + '/demo.' + ('cc' if cc else 'py'), 'w').write((cc or py).lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
