#!/usr/bin/env python3
"""mkseed.py <spec.py>: creates seeded/<id>/ from (file, old, new) edits; validates that the edit applies"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaviour correct, non-zero: broken
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
I=""; for m in core disruptor serialiser majordomo zmq; do I="$I -I$PWD/src/$m/include"; done
g++-14 -std=c++23 -O1 -w -D_GLIBCXX_ASSERTIONS %s -I"$d" $I "$d/demo.cpp" -o "$t/demo" -lpthread || exit 2
timeout 120 "$t/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, flags='', stubs=False):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/w'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(t, 'w', f); s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/w', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    if stubs: shutil.copytree(V + '/stubs', d, dirs_exist_ok=True)      # stand-ins for third-party headers that are not installed
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % flags); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
URI = 'src/core/include/URI.hpp'; B64 = 'src/majordomo/include/majordomo/base64pp.hpp'
LOCK = 'src/core/include/ReaderWriterLock.hpp'; SPIN = 'src/core/include/SpinWait.hpp'; AFF = 'src/core/include/ThreadAffinity.hpp'; SET = 'src/disruptor/include/BasicSetting.hpp'; CLAIM = 'src/disruptor/include/disruptor/ClaimStrategy.hpp'; RING = 'src/disruptor/include/disruptor/RingBuffer.hpp'; SEQ = 'src/disruptor/include/disruptor/Sequence.hpp'
exec(open(sys.argv[1]).read())
