#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

1. proof   - extract the real functions of /repo/src mechanically (extract/), splice the contracts of
             verus/contracts, and let Verus discharge every obligation;
2. monitor - in parallel, the bounded search for a concrete failing input on the real crate
             (monitor/): it supplies the replay of a violation, and it is the bounded stand-in for
             the functions which no contract covers on this tree.
See DESIGN.md, "Outcome of a check"."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PROP = sys.argv[1]
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.setdefault('HOME', '/root')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV.get('PATH', '')
for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS'):
    ENV.pop(k, None)
BATCHED = ('C05', 'C06', 'C07', 'C18')   # also run on a copy with a tiny compaction batch
PROOF_S = 500                            # the proof gets that long, all rounds together
MON_QUICK = dict(C02=15, C05=15, C07=15)

def log(*a):
    print(*a, flush=True)

def sh(cmd, cwd=None, timeout=800, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)     # the solvers it started included
        except ProcessLookupError:
            pass
        p.communicate()
        return 124, '', 'timeout'

TMP = tempfile.mkdtemp(prefix='findex-check-')

# ------------------------------------------------------------------------------------------ proof
def extract(external):
    out = os.path.join(TMP, 'out.rs')
    cmd = [V + '/extract/target/debug/extract', REPO + '/src', V + '/verus', out]
    if external:
        cmd.append('--external=' + ';;'.join(sorted(external)))
    rc, o, e = sh(cmd)
    if rc:
        return None, (o + e).strip()
    return json.load(open(os.path.join(TMP, 'out.json'))), ''

def verus(extra=()):
    cmd = ['verus', 'out.rs', '--rlimit', '60', '--triggers-mode', 'silent', '--multiple-errors', '3', '--num-threads', '8',
           '--error-format=json', '--output-json', '--time-expanded'] + list(extra)
    rc, o, e = sh(cmd, cwd=TMP, timeout=max(20, PROOF_S - (time.time() - T0)))
    try:
        res = json.loads(o)
    except ValueError:
        res = {}
    errs = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                errs.append(d)
    return ' '.join(cmd), rc, res, errs, e

# messages of the verifier that say an obligation was refuted (anything else: not decided)
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic', 'possible division', 'fails to satisfy', 'loop invariant', 'unable to prove',
            'loop ensures', 'not satisfied', 'possible bit shift')
UNDECIDED = ('resource limit', 'rlimit', 'timed out', 'decreases')

def owner(err, ranges):
    """The function whose obligation failed."""
    spans = [s for s in err['spans'] if s['file_name'].endswith('out.rs')]
    sec = [s for s in spans if s.get('label') and ('function body' in s['label'] or 'loop' in s['label'] or 'exit' in s['label'])]
    rest = [s for s in spans if not (s.get('label') or '').startswith('failed')]
    for s in sec + [s for s in rest if s['is_primary']] + rest + spans:
        best = None
        for (i, a, b) in ranges:
            if a <= s['line_start'] <= b and (best is None or b - a < best[2] - best[1]):
                best = (i, a, b)
        if best:
            return best[0]
    return None

def clause(err, text):
    out = []
    for s in err['spans']:
        if s['file_name'].endswith('out.rs'):
            out.append(dict(line=s['line_start'], label=s.get('label') or '', text=text[s['line_start'] - 1].strip()))
    return out

def proof():
    r = dict(ok=False, failed=[], undecided=[], lost=[], verified=0, errors=0, functions=[], notes=[], solver_ms=0, runs=0)
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=V + '/extract')
    if rc:
        r['notes'].append('the extractor does not build: ' + e[-400:])
        return r
    assumed = {}
    p = V + '/verus/unproved.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                i, _, why = l.partition('\t')
                assumed[i] = why
    base = {}
    p = V + '/verus/baseline.json'
    if os.path.exists(p):
        base = json.load(open(p))
    external = set(assumed)
    lost = {}
    for rnd in range(7):
        if time.time() - T0 > PROOF_S:
            break
        rep, err = extract(external)
        if rep is None:
            r['notes'].append('extraction failed: ' + err[-600:])
            return r
        fns = {f['id']: f for f in rep['functions']}
        # anchors that no longer fit: the body is not verified on this tree
        new = {f['id'] for f in rep['functions'] if f['lost']} - external
        for i in new:
            lost[i] = 'anchors lost: ' + ', '.join(fns[i]['lost'])
        if new and rnd == 0:
            external |= new
            continue
        cmd, rc, res, errs, raw = verus()
        r['runs'] += 1
        r['cmd'] = cmd
        if rc == 124:
            r['notes'].append('the verifier did not answer in time')
            return r
        vr = res.get('verification-results') or {}
        text = open(os.path.join(TMP, 'out.rs')).read().split('\n')
        ranges = [x for x in rep['ranges'] if not x[0].startswith('@gen')]
        if not vr or vr.get('encountered-vir-error') or (vr.get('encountered-error') and not vr.get('verified')):
            # does not compile: take the functions the errors are in out of the verification
            bad = set()
            for d in errs:
                i = owner(d, ranges)
                if i and not i.startswith('@') and i in fns:
                    bad.add(i)
                    lost[i] = 'outside the supported subset: ' + d['message'][:200]
            if not bad - external:
                r['notes'].append('the extracted code is not accepted: ' + '; '.join(d['message'][:160] for d in errs[:3]) + raw[-300:] * (not errs))
                return r
            external |= bad
            continue
        r['verified'], r['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        r['solver_ms'] = ((res.get('times-ms') or {}).get('smt') or {}).get('total', 0)
        failed, und = {}, {}
        for d in errs:
            if d['message'].startswith('aborting'):
                continue
            i = owner(d, ranges) or '?'
            m = d['message']
            item = dict(function=i, message=m, where=clause(d, text), rendered=d.get('rendered', '')[:1500])
            if any(u in m for u in UNDECIDED) or not any(x in m for x in DEFINITE):
                und.setdefault(i, []).append(item)
            else:
                failed.setdefault(i, []).append(item)
        r['rep'], r['fns'] = rep, fns
        # A failing function without a contract of its own has nothing to prove for the properties:
        # its body is left out and only callers that rely on `true` of it remain.
        unann = {i for i in failed if i in fns and not fns[i]['annotated']}
        if unann - external:
            for i in unann:
                lost[i] = 'no contract: safety obligations of the body not proved'
            external |= unann
            continue
        # Helpers that the contracts do not know: a caller's proof says nothing then.
        known = set(base.get('functions', {}))
        helpers = {i for i in fns if known and i not in known}
        names = {i.split('::')[-1] for i in helpers}
        for i in list(failed):
            if i in fns and names & set(fns[i]['calls']):
                und.setdefault(i, []).extend(failed.pop(i))
                lost[i] = 'calls a function without contract: ' + ', '.join(sorted(names & set(fns[i]['calls'])))
        # Loops, closures or iterator chains added or removed: the invariants, which are attached to
        # them by number, may no longer be those of this function.
        shape = base.get('shapes', {})
        for i in list(failed):
            if i in fns and i in known and [fns[i][x] for x in ('loops', 'closures', 'chains')] != shape.get(i, [0, 0, 0]):
                und.setdefault(i, []).extend(failed.pop(i))
                lost[i] = 'loops, closures or iterator chains changed: the invariants no longer fit'
        same = bool(base) and all(base['functions'].get(i) == f['hash'] for i, f in fns.items()) and len(fns) == len(base['functions'])
        r['unchanged_sources'] = same
        if same and (failed or und):
            r['notes'].append('proof not reproduced on the unchanged sources (solver instability)')
            for i, x in failed.items():
                und.setdefault(i, []).extend(x)
            failed = {}
        r['failed'] = [x for v in failed.values() for x in v]
        r['undecided'] = [x for v in und.values() for x in v]
        r['lost'] = [dict(function=i, why=w) for i, w in lost.items()]
        r['lost'] += [dict(function=i, why='contract without function (renamed or removed)') for i in rep['unused_annotations']]
        r['assumed'] = assumed
        r['ok'] = True
        r['text'] = text
        return r
    r['notes'].append('no stable set of verifiable functions found')
    return r

def tags_of(i, r):
    if i.startswith('@'):
        return [PROP]          # a lemma: belongs to every property
    f = r['fns'].get(i)
    return f['tags'] if f else [PROP]

# ---------------------------------------------------------------------------------------- monitor
def build_monitor():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=V + '/monitor')
    return rc == 0, e[-800:]

def build_variant():
    """A copy of the crate with a tiny compaction batch, so that several batches are met."""
    root = os.path.join(TMP, 'variant')
    os.makedirs(root)
    shutil.copytree(REPO + '/src', root + '/repo/src')
    shutil.copy(REPO + '/Cargo.toml', root + '/repo/Cargo.toml')
    toml = open(root + '/repo/Cargo.toml').read()
    toml = re.sub(r'(?ms)^\[\[(bench|test|example)\]\].*?(?=^\[|\Z)', '', toml)
    open(root + '/repo/Cargo.toml', 'w').write(toml)
    n = 0
    for d, _, fs in os.walk(root + '/repo/src'):
        for f in fs:
            s = open(os.path.join(d, f)).read()
            t, k = re.subn(r'(const\s+COMPACT_BATCH_SIZE\s*:\s*usize\s*=\s*)[0-9_]+', r'\g<1>3', s)
            n += k
            if k:
                open(os.path.join(d, f), 'w').write(t)
    if n != 1:
        return False, 'the batch size constant was not found'
    shutil.copytree(V + '/monitor/src', root + '/monitor/src')
    shutil.copy(V + '/monitor/Cargo.lock', root + '/monitor/Cargo.lock')
    t = open(V + '/monitor/Cargo.toml').read().replace('../../repo', '../repo')
    open(root + '/monitor/Cargo.toml', 'w').write(t)
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=root + '/monitor', env=dict(ENV, CARGO_TARGET_DIR=V + '/monitor/target/variant'))
    return rc == 0, e[-800:]

def run_monitor(secs, variant=False, seed=None):
    exe = V + '/monitor/target/' + ('variant/' if variant else '') + 'debug/monitor'
    out = os.path.join(TMP, 'mon%d%d.json' % (variant, int(time.time() * 1000)))
    env = dict(ENV)
    env.pop('SMALL_BATCH', None)
    if variant:
        env['SMALL_BATCH'] = '1'
    rc, o, e = sh([exe, PROP, str(SEED if seed is None else seed), TIER, str(secs), out], timeout=secs + 120, env=env)
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        d['variant'] = variant
        return d
    # abort, stack overflow or endless loop: a crash of the code under test
    return dict(evaluations=0, distinct_nontrivial=0, samples=[], variant=variant,
                crash='monitor ended with %s: %s' % ('no answer in time' if rc == 124 else rc, e[-400:]))

def monitors():
    r = dict(runs=[], notes=[])
    ok, e = build_monitor()
    if not ok:
        r['notes'].append('the monitor does not build against this tree: ' + e)
        return r
    secs = MON_QUICK.get(PROP, 12) if TIER == 'quick' else 240
    r['runs'].append(run_monitor(secs))
    if PROP in BATCHED:
        ok, e = build_variant()
        if ok:
            r['runs'].append(run_monitor(max(6, secs // 2), True))
        else:
            r['notes'].append('small-batch variant not built: ' + e)
    return r

# --------------------------------------------------------------------------------------- combine
def replay_file(kind, payload):
    d = V + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s.json' % (d, PROP, kind)
    json.dump(payload, open(p, 'w'), indent=1)
    return p

def known_findings():
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % PROP):
                out.append(l.strip()[len('finding: '):])
    return out

def main():
    props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
    with cf.ThreadPoolExecutor(2) as ex:
        fp, fm = ex.submit(proof), ex.submit(monitors)
        P, M = fp.result(), fm.result()
    # the proof side
    rel = lambda x: PROP in tags_of(x['function'], P) if P['ok'] else False
    failed = [x for x in P['failed'] if rel(x)]
    undecided = [x for x in P['undecided'] if rel(x)]
    # the monitor side
    bad = [m for m in M['runs'] if m.get('failure') or m.get('crash')]
    if (failed or undecided or P['lost'] or not P['ok'] or not P.get('unchanged_sources')) and not bad and M['runs']:
        # something is not proved on this tree, or the sources are not those of the last milestone:
        # search longer for a failing input
        extra = 40 if TIER == 'quick' else 300
        M['runs'].append(run_monitor(extra, seed=SEED + 1000))
        if PROP in BATCHED and len(M['runs']) > 2:
            M['runs'].append(run_monitor(extra // 3, True, seed=SEED + 1000))
        bad = [m for m in M['runs'] if m.get('failure') or m.get('crash')]
    code, viol = 0, 0
    if bad:
        m = bad[0]
        payload = dict(property=PROP, title=props[PROP]['title'], kind='failing input on the real crate',
                       compaction_batch=3 if m['variant'] else 'as in the source',
                       failure=m.get('failure') or dict(what=m['crash']),
                       how='cd /verif/monitor && cargo build --offline && target/debug/monitor %s replay %s' % (PROP, (m.get('failure') or {}).get('case', '?')),
                       failed_obligations=failed)
        path = replay_file('input', payload)
        f = m.get('failure')
        log('failing input: ' + (f['what'] if f else m['crash']))
        for h in (f or {}).get('history', [])[-12:]:
            log('   ' + h[:300])
        for x in failed[:5]:
            log('failed obligation: %s: %s' % (x['function'], x['message']))
        log('VIOLATION property=%s replay=%s' % (PROP, path))
        code, viol = 1, 1
    elif failed:
        path = replay_file('obligation', dict(property=PROP, title=props[PROP]['title'], kind='failed proof obligation, no failing input found',
                                              failed_obligations=failed, searched=[m['evaluations'] for m in M['runs']], checker_cmd=P.get('cmd')))
        for x in failed[:5]:
            log('failed obligation: %s: %s' % (x['function'], x['message']))
            for w in x['where'][:3]:
                log('   %s %s' % (w['label'], w['text'][:160]))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, path))
        code, viol = 1, 1
    for k in known_findings():
        log('KNOWN-FINDING: ' + k)
    evidence(P, M, failed, undecided, viol)
    n = sum(m['evaluations'] for m in M['runs'])
    log('%s: %s; %d obligations discharged, %d not; %d bounded cases; %.0f s' % (
        PROP, 'violated' if code else 'holds', P['verified'], P['errors'], n, time.time() - T0))
    for x in P['notes'] + M['notes']:
        log('note: ' + x)
    for x in P['lost']:
        log('not verified on this tree: %s (%s)' % (x['function'], x['why']))
    return code

def scan_trusted():
    out = []
    for f in sorted(os.listdir(V + '/verus')):
        if f.endswith('.rs'):
            s = open(V + '/verus/' + f).read()
            for kw in ('external_body', 'axiom fn', 'assume_specification', 'assume(', 'admit('):
                k = s.count(kw)
                if k:
                    out.append('verus/%s: %d x %s' % (f, k, kw))
    return out

def evidence(P, M, failed, undecided, viol):
    mine = []
    if P['ok']:
        for i, f in P['fns'].items():
            if f['annotated'] and PROP in f['tags'] and not f['external']:
                mine.append('%s (%s:%s)' % (i, f['file'], f['line']))
    lvl = json.load(open(V + '/tools/levels.json')).get(PROP, {})
    trusted = list(lvl.get('trusted', []))
    trusted += ['the extraction rules of /verif/extract (DESIGN.md)', 'Verus 0.2026.09.13 and Z3', 'trusted specifications: ' + '; '.join(scan_trusted())]
    if P['ok']:
        trusted += ['not verified, contract assumed: %s (%s)' % (i, w) for i, w in P['assumed'].items()]
        trusted += ['not verified on this tree: %s (%s)' % (x['function'], x['why']) for x in P['lost']]
    cov = dict(
        obligations=P['verified'] + P['errors'], discharged=P['verified'],
        checker_cmd='extract /repo/src /verif/verus out.rs && ' + (P.get('cmd') or 'verus out.rs'),
        trusted_base=trusted,
        back_end='Z3 (bundled with Verus)', solver_ms=P['solver_ms'], verifier_runs=P['runs'],
        functions_under_contract=mine,
        theorems=lvl.get('theorems', []),
        functions_extracted=len(P['fns']) if P['ok'] else 0,
        failed_obligations=[dict(function=x['function'], message=x['message']) for x in failed],
        undecided_obligations=[dict(function=x['function'], message=x['message']) for x in undecided],
        bounded=dict(note='bounded search for failing inputs on the real crate; never counted as proved',
                     runs=[{k: m[k] for k in ('evaluations', 'distinct_nontrivial', 'variant')} for m in M['runs']]),
        evaluations=sum(m['evaluations'] for m in M['runs']),
        distinct_nontrivial=sum(m['distinct_nontrivial'] for m in M['runs']),
        rule='seeded random histories, inputs, schedules and faults run against the real crate by /verif/monitor; distinct by hash of the executed history',
        samples=[s for m in M['runs'] for s in m.get('samples', [])][:8],
        explanation=lvl.get('explanation', ''),
        notes=P['notes'] + M['notes'])
    level = lvl.get('level', 'other')
    if level == 'proof' and (not P['ok'] or P['lost'] or P['errors'] or undecided):
        level = 'other'
        cov['explanation'] = 'On this tree the proof is incomplete (see trusted_base, failed and undecided obligations). ' + cov['explanation']
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=lvl.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=viol)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % PROP, 'w'), indent=1)

try:
    code = main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
sys.exit(code)
