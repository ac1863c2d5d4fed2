#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py   development aid, not used by any check.
SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new[, occurrence])], demo (C++ source text), jni (bool).
Writes /verif/seeded/<id>/ and refuses edits which touch lines added by fix commits."""
import sys, os, subprocess, json, tempfile, shutil
BASE = '0b0cf9f'
def run(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
spec = {}; exec(open(sys.argv[1]).read(), spec)
out = '/verif/seeded/' + spec['id']
w = tempfile.mkdtemp(prefix='mkseed'); run('git', 'clone', '-q', '/repo', w + '/r'); r = w + '/r'
try:
    for e in spec['edits']:
        f, old, new = e[:3]; p = os.path.join(r, f); t = open(p).read()
        n = t.count(old); k = e[3] if len(e) > 3 else None
        if n == 0 or (n > 1 and k is None): raise SystemExit('%s: %d matches for %r' % (f, n, old))
        i = -1
        for _ in range((k or 0) + 1): i = t.index(old, i + 1)
        open(p, 'w').write(t[:i] + new + t[i + len(old):])
    d = run('git', '-C', r, 'diff'); assert d
    # the removed lines must come from the original repository
    import re
    removed = 0; orig = 0
    for f in set(e[0] for e in spec['edits']):
        bl = run('git', '-C', r, 'blame', '-s', '-l', 'HEAD', '--', f).split('\n')
        fd = run('git', '-C', r, 'diff', '-U0', '--', f)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
            a, c = int(m[1]), int(m[2] or 1)
            for ln in range(a, a + c):
                removed += 1
                same = run('git', '-C', r, 'merge-base', 'HEAD', BASE).strip()
                sha = bl[ln - 1].split()[0].lstrip('^')
                ok = subprocess.run(['git', '-C', r, 'merge-base', '--is-ancestor', sha, BASE], capture_output=True).returncode == 0
                orig += ok
                if not ok: print('WARNING line added by a fix:', bl[ln - 1])
    print('%s: %d removed lines, %d original' % (spec['id'], removed, orig))
    if orig == 0: raise SystemExit('no original line is changed')
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/demo.cpp', 'w').write((open('/tmp/seedgen/prelude.h').read() if spec.get('prelude', True) else '') + spec['demo'])
    if spec.get('java'):   # demo is the text of Demo.java, run on a VM with the stand-ins of the BoofCV classes and the library
        os.remove(out + '/demo.cpp'); open(out + '/Demo.java', 'w').write(spec['demo'])
        if os.path.exists(out + '/stubs'): shutil.rmtree(out + '/stubs')
        shutil.copytree('/verif/java/stubs', out + '/stubs')
        open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository's top directory
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r -- "$T"' EXIT
J=/usr/lib/jvm/java-17-openjdk-amd64
mkdir "$T/lib" "$T/tmp" "$T/cp" "$T/empty"
javac -nowarn -Xlint:none -d "$T/cp" $(find boofcpp-jni/src/main/java "$H/stubs" -name '*.java') "$H/Demo.java" || exit 3
for f in boofcpp/src/boofcv/*.cpp boofcpp-jni/src/main/cpp/*.cpp; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -O1 -w -fPIC -I$2/include -I$2/include/linux -Iboofcpp/src/boofcv -Iboofcpp-jni/src/main/cpp -c $1 -o $3/$(basename $1).o' sh {} $J "$T/tmp" || exit 3
g++ -shared -o "$T/lib/libJNIBoofCPP.so" "$T"/tmp/*.o || exit 3
rm "$T"/tmp/*.o
JAVAC="$J/bin/java -XX:+UseSerialGC -Xmx256m -Djava.io.tmpdir=$T/tmp -cp $T/cp"
%s
''' % spec.get('run', 'timeout 120 $JAVAC -Djava.library.path="$T/lib" Demo'))
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        raise SystemExit(0)
    jni = spec.get('jni', False)
    if jni and not spec.get('nofake'): shutil.copy('/verif/pbt/fake_jni.h', out + '/fake_jni.h')
    srcs = 'boofcpp/src/boofcv/*.cpp' + (' %s' % jni if jni else '')
    inc = '-Iboofcpp/src/boofcv' + (' -I$J/include -I$J/include/linux ' + spec.get('jniinc', '') if jni else '')
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository's top directory
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r -- "$T"' EXIT
%sg++ -std=gnu++11 -O1 -g -w -fsanitize=%s %s -I"$H" "$H/demo.cpp" %s -o "$T/demo" || exit 3
for i in %s; do ASAN_OPTIONS=detect_leaks=%d timeout 60 "$T/demo" || exit 1; done
''' % ('J=/usr/lib/jvm/java-17-openjdk-amd64\n' if jni else '', 'thread -pthread' if spec.get('threads') else 'address', inc, srcs, '1 2 3 4 5' if spec.get('threads') else '1', 1 if spec.get('leak') else 0))
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(w)
