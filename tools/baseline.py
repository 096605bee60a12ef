#!/usr/bin/env python3
# Records the functions known to the contracts with a hash of their source (verus/baseline.json).
# Used by check.py only to tell (a) helpers added since from functions the contracts know, and
# (b) an unchanged tree from a changed one. Run it when a contract milestone is committed.
import json, subprocess, tempfile, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
ext = [l.split('\t')[0].strip() for l in open(V + '/verus/unproved.txt') if l.strip() and not l.startswith('#')]
subprocess.check_call([V + '/extract/target/debug/extract', '/repo/src', V + '/verus', d + '/o.rs'] + (['--external=' + ';;'.join(ext)] if ext else []))
r = json.load(open(d + '/o.json'))
json.dump({'functions': {f['id']: f['hash'] for f in r['functions']},
           'shapes': {f['id']: [f['loops'], f['closures'], f['chains']] for f in r['functions'] if f['loops'] + f['closures'] + f['chains']}}, open(V + '/verus/baseline.json', 'w'), indent=0, sort_keys=True)
print(len(r['functions']), 'functions')
