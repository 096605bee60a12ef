#!/usr/bin/env python3
"""Vacuity guard: `assert(false)` is put before the end of every verified function, then at the start
of every function and of every loop body, then at the start of every lemma; the verifier has to refuse each one (a function whose
hypotheses are contradictory would accept it). Prints what it accepted, and exits 1 if that is not
expected."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPECTED = {'ax_authentic', 'ax_float_literals',         # axioms: no body
            'ChainTable::upsert'}   # its precondition, `upserts()`, is false for the chain table: it always fails
def ext():
    ids = [l.split('\t')[0].strip() for l in open(V + '/verus/unproved.txt') if l.strip() and not l.startswith('#')]
    return '--external=' + ';;'.join(ids)
def verus(d, f):
    p = subprocess.run(['timeout', '800', 'verus', f, '--rlimit', '60', '--triggers-mode', 'silent', '--multiple-errors', '8'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.stdout.decode(errors='replace')
def run():
    d = tempfile.mkdtemp(prefix='vacuity-')
    bad, total = [], 0
    try:
        subprocess.run([V + '/extract/target/debug/extract', '/repo/src', V + '/verus', d + '/vac.rs', ext(), '--vacuity'], check=True)
        src = open(d + '/vac.rs').read().split('\n')
        a, b, cur = [], [], None
        for l in src:
            m = re.search(r'//@FN (.*)', l)
            if m: cur = m.group(1)
            if '//@END' in l: cur = None
            a.append(l)
            l = re.sub(r'proof \{ assert\(false\); /\*VAC.*?\*/ \}', '', l)
            if cur and l.strip() == 'broadcast use all_axioms;': l += ' proof { assert(false); /*VAC ' + cur + '*/ }'
            b.append(l)
        c, lem = [], None
        for l in src:
            l = re.sub(r'proof \{ assert\(false\); /\*VAC.*?\*/ \}', '', l)
            m = re.match(r'(?:pub )?(?:broadcast )?proof fn (\w+)', l)
            if m: lem = m.group(1)
            if lem and c and c[-1] == '{' and 'hide(' in l: l, lem = l + ' assert(false); /*VAC ' + lem + '*/', None
            elif lem and l.rstrip() == '{': pass
            elif lem and c and c[-1] == '{': l, lem = 'assert(false); /*VAC ' + lem + '*/ ' + l, None
            elif lem and l.startswith('{'): l, lem = '{ assert(false); /*VAC ' + lem + '*/ ' + l[1:], None
            elif lem and l == '}': lem = None
            c.append(l)
        if os.environ.get('KEEP'): open(os.environ['KEEP'], 'w').write('\n'.join(c))
        for name, t in (('a.rs', a), ('b.rs', b), ('c.rs', c)):
            open(d + '/' + name, 'w').write('\n'.join(t))
            log = verus(d, name)
            if 'verified' not in log:
                return ['the verifier gave no answer: ' + log[-300:]], 0
            hit = {int(x) for x in re.findall(r'--> %s:(\d+):' % re.escape(name), log)}
            # a function on which the verifier gave up has not been accepted either
            gave_up, own, cur = set(), {}, None
            for i, l in enumerate(t, 1):
                m = re.search(r'//@FN (.*)', l)
                if m: cur = m.group(1)
                if name == 'c.rs':
                    m = re.match(r'(?:pub )?(?:broadcast )?proof fn (\w+)', l)
                    if m: cur = m.group(1)
                own[i] = cur
                if '//@END' in l: cur = None
            for m in re.finditer(r'Resource limit[^\n]*\n\s*--> %s:(\d+):' % re.escape(name), log):
                gave_up.add(own.get(int(m.group(1))))
            for i, l in enumerate(t, 1):
                m = re.search(r'/\*VAC (.*?)\*/', l)
                if m:
                    total += 1
                    if i not in hit and m.group(1) not in gave_up: bad.append('%s (%s)' % (m.group(1), dict(a='end', b='start or loop', c='lemma')[name[0]]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, total
if __name__ == '__main__':
    bad, total = run()
    print(total, 'places, accepted:', bad)
    sys.exit(any(x.rsplit(' (', 1)[0] not in EXPECTED for x in bad))
