#!/usr/bin/env python3
"""seed.py <definition.py>...: plants the bugs of the definition files (see tools/seedlib): makes the patch in a
scratch copy of /repo, checks that it builds, that the stable tests pass, that the demonstration
succeeds without and fails with it, and writes seeded/<id>/."""
import shlex, sys, os, subprocess, shutil, json, tempfile
V = '/verif'; LIB = V + '/tools/seedlib'
def sh(c, cwd, t=150):
    p = subprocess.run('timeout -k 5 %d bash -c %s' % (t, shlex.quote(c)), cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')
BASE = json.load(open('/opt/vp/BASELINE.json'))
def bug(id, *a):
    if not bug1(id, *a) and (not ONLY or id in ONLY): shutil.rmtree('%s/seeded/%s' % (V, id), ignore_errors=True)
def bug1(id, prop, edits, needs, breaks, main):
    if ONLY and id not in ONLY: return
    S = '/tmp/seedrepo'
    if not os.path.exists(S): subprocess.check_call(['cp', '-a', '/repo', S])
    sh('git checkout -q -- .', S)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
    out = '%s/seeded/%s' % (V, id)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/main.rs', 'w').write('mod h;\n#[allow(unused_imports)] use h::*;\n#[allow(unused_imports)] use cosmian_findex::*;\n#[allow(unused_imports)] use std::collections::{HashMap, HashSet};\n' + main)
    shutil.copy(LIB + '/h.rs', out); shutil.copy(V + '/monitor/Cargo.lock', out + '/Cargo.lock.txt'); shutil.copy(LIB + '/demo.sh', out)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
    rc, o = sh('bash %s/demo.sh' % out, S)
    if rc: print(id, 'BAD: demo fails on the unchanged tree', rc, o[-1500:]); return
    for f, a, b in edits:
        p = S + '/src/' + f; s = open(p).read()
        if s.count(a) != 1: print(id, 'BAD: pattern occurs', s.count(a), 'times', f, a); return
        open(p, 'w').write(s.replace(a, b))
    rc, o = sh('git diff', S); open(out + '/patch.diff', 'w').write(o)
    rc, o = sh('cargo test --offline --features in_memory -q 2>&1', S) 
    if rc: print(id, 'BAD: tests or build fail', o[-1500:]); sh('git checkout -q -- .', S); return
    rc, o = sh('bash %s/demo.sh' % out, S)
    sh('git checkout -q -- .', S)
    if rc == 0 or rc == 3: print(id, 'BAD: demo does not fail', rc, o[-800:]); return
    ok = print(id, 'ok:', o.strip().split('\n')[-1][:200] if 'panicked' not in o else [l for l in o.split('\n') if 'panicked' in l or 'assert' in l][:2], flush=True)
    return True
args = sys.argv[1:]
ONLY = [a[1:] for a in args if a.startswith('=')]
for a in args:
    if not a.startswith('='): exec(open(a).read())
shutil.rmtree('/tmp/seedrepo', ignore_errors=True)
