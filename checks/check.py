#!/usr/bin/env python3
"""One check: contracts on the code of /repo (Verus) and the bounded stand-in (engine) for one property.
usage: check.py PROPERTY        (VERIF_SEED, VERIF_TIER from the environment)"""
import json, os, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
PROP = sys.argv[1]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
T0 = time.time()
SCRATCH = tempfile.mkdtemp(prefix='ncas-' + PROP + '-')
REPLAY = os.path.join(ROOT, 'replay')
os.makedirs(REPLAY, exist_ok=True)
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
JOBS = 8
sys.path.insert(0, HERE)

def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'

def build(crate):
    d = os.path.join(ROOT, crate)
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '-q'], 600, cwd=d, env={'CARGO_TARGET_DIR': os.path.join(d, 'target'), 'RUSTFLAGS': '-Awarnings'})
    return rc == 0, e

def engine(secs, seed):
    exe = os.path.join(ROOT, 'engine/target/release/engine')
    rc, o, e = sh([exe, 'run', PROP, '--secs', str(secs), '--seed', str(seed), '--jobs', str(JOBS), '--dir', os.path.join(SCRATCH, 'eng'), '--src', REPO + '/src'], secs + 200)
    r = dict(n=0, ok=0, distinct=0, bad=[], samples=[], panics=[], crashes=[], exhausted=True, done=0)
    for l in o.splitlines():
        f = l.split('\t')
        if f[0] == 'BAD': r['bad'].append((f[1], f[2] if len(f) > 2 else ''))
        elif f[0] == 'SAMPLE': r['samples'].append(f[1])
        elif f[0] == 'PANIC': r['panics'].append(f[1])
        elif f[0] == 'CRASH': r['crashes'].append(f[1])
        elif f[0] == 'DONE':
            r['done'] += 1; r['n'] += int(f[1]); r['ok'] += int(f[2]); r['distinct'] += int(f[3]); r['exhausted'] &= f[4] == 'true'
    return r

def known():
    """entries 'known: property=<id> case=<case text> | ...' of KNOWN_FINDINGS"""
    r = {}
    for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        if l.startswith('known: property=' + PROP + ' case='):
            c = l.split(' case=', 1)[1].split(' | ')
            r[c[0].strip()] = c[1].strip() if len(c) > 1 else ''
    return r

def write_replay(name, text):
    p = os.path.join(REPLAY, '%s-%s.txt' % (PROP, name))
    open(p, 'w').write(text)
    return p

def main():
    cfg = json.load(open(os.path.join(HERE, 'properties_cfg.json')))[PROP]
    ok, err = build('engine')
    proof = None
    if cfg.get('families'):
        import prove
        proof = prove.run(PROP, cfg, TIER, SCRATCH, sh, build)
    undecided = proof is not None and bool(proof['undecided'] or proof['failed'])
    secs = cfg.get('secs', 15) if TIER == 'quick' else 300
    if undecided: secs = max(secs, 120 if TIER == 'quick' else 300)
    eng = engine(secs, SEED) if ok else None
    kn = known()
    viol, kf = [], []
    if eng:
        seen = set()
        for c, m in eng['bad']:
            if c in seen: continue
            seen.add(c)
            (kf if c in kn else viol).append((c, m))
    lines = []
    for c, m in kf: print('KNOWN-FINDING: property=%s %s %s' % (PROP, c, kn[c]))
    for i, (c, m) in enumerate(viol[:5]):
        p = write_replay(str(i), 'property: %s\ncase: %s\nobserved: %s\nreplay: cd %s/engine && cargo run --release --offline -q -- case %s "%s"\n' % (PROP, c, m, ROOT, PROP, c)
            + ('\nfailed obligations of the same run:\n' + '\n'.join(proof['failed_text']) if proof and proof['failed'] else ''))
        lines.append('VIOLATION property=%s replay=%s' % (PROP, p))
    if not viol and proof and proof['failed']:
        p = write_replay('obligation', 'property: %s\nno input was found that breaks the property; these obligations, accepted on the tree the checks were made for, are refused now:\n\n%s\n' % (PROP, '\n\n'.join(proof['failed_text'])))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, p))
    level = cfg['level']
    cov = {}
    if eng:
        stand = dict(evaluations=eng['n'], distinct_nontrivial=eng['distinct'], rule=cfg['rule'], samples=eng['samples'][:12],
                     small_scope_exhausted=eng['exhausted'] and eng['done'] == JOBS, seconds=secs, processes=JOBS, cases_that_panicked=len(eng['panics']), cases_that_ended_the_process=len(eng['crashes']))
    else:
        stand = dict(evaluations=0, distinct_nontrivial=0, rule=cfg['rule'], samples=['the crate or the engine did not build: ' + err[-300:]])
    if level == 'proof' and proof:
        cov.update(proof['coverage'])
        cov['bounded_stand_in'] = stand
    else:
        cov.update(stand)
        if proof: cov['contracts'] = proof['coverage']
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=cfg.get('assumptions', []) + (proof['assumptions'] if proof else []), wall_s=round(time.time() - T0, 2), violations=len(lines))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', PROP + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s %s: %d cases tried, %s%s' % (PROP, 'violated' if lines else 'held', eng['n'] if eng else 0, proof['summary'] if proof else 'no contracts', ''))
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(1 if lines else 0)

main()
