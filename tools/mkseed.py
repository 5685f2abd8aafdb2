#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what' DEMOCMD FILE OLD NEW [FILE OLD NEW ...] : writes seeded/ID from a textual edit of /repo HEAD"""
import sys, os, json, subprocess, shutil, tempfile
def mk(id, prop, needs, what, demo, edits, files=('lib.sh',)):
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, a, b in edits:
        p = f'{w}/r/{f}'; s = open(p).read(); n = None
        if isinstance(a, tuple): a, n = a   # (text, occurrence index)
        if n is None:
            assert s.count(a) == 1, (id, f, a, s.count(a)); s = s.replace(a, b)
        else:
            parts = s.split(a); assert len(parts) > n + 1; s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
        open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w + '/r', 'diff'], check=True, capture_output=True, text=True).stdout)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + demo + '\n'); os.chmod(d + '/demo.sh', 0o755)
    for f in set(files) | {'lib.sh'}: shutil.copy(f'{V}/tools/demo/{f}', d)
