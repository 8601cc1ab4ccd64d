#!/usr/bin/env python3
"""Contracts: translate /repo's functions, run Verus, drop candidate loop invariants that do not hold (Houdini), report per function.
as a program: prove.py FAMILY [-v] [verus args]"""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TOOL = ('not supported', 'unsupported', 'The verifier does not yet support')

class Fam:
    def __init__(self, name, scratch, repo='/repo', deadline=None, extra=None, log=None):
        self.name, self.scratch, self.repo = name, scratch, repo
        self.deadline = deadline or time.time() + 800
        self.extra = list(extra or [])
        for l in open(os.path.join(ROOT, 'contracts', name + '.con')):
            if l.startswith('@verus '): self.extra += l.split()[1:]
        self.log = log or (lambda s: None)
        self.drop, self.ext = set(), {}
        self.rs = os.path.join(scratch, name + '.rs'); self.meta = os.path.join(scratch, name + '.json')
        self.runs = 0; self.solver_ms = 0

    def translate(self):
        d, e = os.path.join(self.scratch, self.name + '.drop'), os.path.join(self.scratch, self.name + '.ext')
        open(d, 'w').write('\n'.join(sorted(self.drop))); open(e, 'w').write('\n'.join(sorted(self.ext)))
        p = subprocess.run([os.path.join(ROOT, 'translator/target/release/translator'), '--family', self.name, '--src', self.repo + '/src', '--contracts', os.path.join(ROOT, 'contracts'),
                            '--out', self.rs, '--meta', self.meta, '--drop', d, '--external', e], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
        if p.returncode != 0: raise RuntimeError('translator: ' + p.stdout[-500:])
        self.m = json.load(open(self.meta)); self.text = open(self.rs).read().split('\n')

    def verus(self, more=()):
        self.runs += 1
        left = max(20, self.deadline - time.time())
        try:
            p = subprocess.run(['verus', self.rs, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '12', '--num-threads', '8'] + self.extra + list(more),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=left)
        except subprocess.TimeoutExpired:
            return None, [], 'timeout'
        ds = []
        for l in p.stderr.splitlines():
            if l.startswith('{'):
                try: ds.append(json.loads(l))
                except ValueError: pass
        try: j = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError: j = {}
        try: self.solver_ms = j['times-ms']['smt']['smt-run']; self.total_ms = j['times-ms']['total']
        except (KeyError, TypeError): pass
        return j, ds, p.stderr

    def at(self, line):
        for f in self.m['fns']:
            if f['start'] and f['start'] <= line <= f['end']: return f['key']
        for i in range(min(line, len(self.text)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:open )?(?:proof|spec|exec )?\s*fn (\w+)', self.text[i])
            if m: return 'lemma ' + m.group(1)
        return '?'

    def solve(self):
        """-> dict(status, failed: {key: [text]}, tool: {key: reason}, ok: [keys], j)"""
        first = True
        tries = 0
        while True:
            self.translate()
            j, ds, err = self.verus()
            if j is None: return dict(status='timeout', failed={}, tool={'*': 'the verifier ran out of time'}, notes={}, verified=0)
            vr = j.get('verification-results', {})
            errs = [d for d in ds if d.get('level') == 'error' and d.get('spans')]
            if not vr.get('encountered-vir-error', True) is False or 'verified' not in vr or any(d.get('code') for d in errs):
                # not accepted as a program: leave out the functions it complains of
                new = {}
                for d in errs:
                    for s in d['spans']:
                        if s.get('is_primary'):
                            k = self.at(s['line_start'])
                            if not k.startswith('lemma') and k != '?' and k not in self.ext: new[k] = 'the verifier does not take it: ' + d['message'][:200]
                tries += 1
                self.log('not accepted: %.1500s' % str(new or [(d['message'][:300], [(s['line_start'], s['text'][0]['text'].strip()[:160] if s['text'] else '') for s in d['spans']]) for d in errs[:8]]))
                if not new or tries > 12: return dict(status='broken', failed={}, tool={'*': 'the verifier does not take the translated file: ' + '; '.join(d['message'][:160] for d in errs[:4])}, notes={}, verified=0, errs=errs)
                self.ext.update(new)
                continue
            drop, failed, tool = set(), {}, {}
            for d in errs:
                cand = None; prim = None
                for s in d['spans']:
                    for t in s.get('text', []):
                        m = re.search(r'/\*cand:(.*?)\*/', t['text'])
                        if m: cand = m.group(1)
                    if s.get('is_primary') and prim is None: prim = s
                if cand: drop.add(cand); continue
                prim = prim or d['spans'][0]
                k = self.at(prim['line_start'])
                if k.startswith('lemma') or k == '?':
                    # a clause stated in a trait: the function is where it fails
                    for s in d['spans']:
                        q = self.at(s['line_start'])
                        if any(m['key'] == q for m in self.m['fns']): k = q; break
                msg = d['message']
                txt = msg + '\n' + '\n'.join('    %s:%d %s' % (s.get('label') or '', s['line_start'], ' '.join(x['text'].strip() for x in s.get('text', [])[:3])[:400]) for s in d['spans'])
                if 'rlimit' in msg or 'Resource limit' in msg: tool.setdefault(k, []).append(msg)
                else: failed.setdefault(k, []).append(txt)
            fresh = drop - self.drop
            if fresh and time.time() < self.deadline - 20:
                self.drop |= fresh
                self.log('dropped %d candidates' % len(fresh))
                continue
            return dict(status='done', failed=failed, tool=tool, j=j, verified=vr.get('verified', 0), nerr=vr.get('errors', 0), notes={f['key']: f['notes'] for f in self.m['fns']})

def again(f, r, secs=100):
    """a refusal may be the solver's search going astray: the same obligations, function by function, from other seeds. What one of these runs accepts is proved."""
    names = [k for k in list(r['failed']) + list(r['tool']) if not k.startswith('lemma vacuity') and k not in ('*', '?')]
    if not names or len(names) > 6: return []
    end = time.time() + secs
    files = [f.rs]
    if f.drop != load_hints(f.name):
        d = os.path.join(f.scratch, 'again'); os.makedirs(d, exist_ok=True)
        g = Fam(f.name, d, repo=f.repo); g.drop, g.ext = load_hints(f.name), dict(f.ext)
        g.translate(); files.insert(0, g.rs)
    def one(a):
        k, seed, rs = a
        try:
            p = subprocess.run(['verus', rs, '--output-json', '--verify-root', '--verify-function', k[6:] if k.startswith('lemma ') else k, '--smt-option', 'smt.random_seed=%d' % seed, '--rlimit', '25', '--num-threads', '1'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=max(5, end - time.time()))
            v = json.loads(p.stdout[p.stdout.index('{'):])['verification-results']
            return k, p.returncode == 0 and v.get('encountered-error') is False and v.get('encountered-vir-error') is False and v.get('verified', 0) >= 1 and v.get('errors', 1) == 0
        except (subprocess.TimeoutExpired, ValueError, KeyError): return k, False
    from concurrent.futures import ThreadPoolExecutor
    won = set()
    with ThreadPoolExecutor(6) as ex:
        for k, ok in ex.map(one, [(k, s, rs) for s in (3, 11, 29) for rs in files for k in names]):
            if ok: won.add(k)
    for k in won:
        r['failed'].pop(k, None); r['tool'].pop(k, None); r['verified'] += 1
    return sorted(won)

def breakdown(j):
    r = []
    try:
        for m in j['times-ms']['smt']['smt-run-module-times']:
            for f in m.get('function-breakdown', []): r.append((f['function'], f['time-micros'] / 1e3, f.get('rlimit', 0), f['success']))
    except (KeyError, TypeError): pass
    return r

def load_hints(name):
    p = os.path.join(ROOT, 'contracts', name + '.drop')
    return set(l.strip() for l in open(p) if l.strip()) if os.path.exists(p) else set()

def calls_bare(f, key):
    """functions without any contract that the text of `key` calls"""
    me = [m for m in f.m['fns'] if m['key'] == key]
    if not me or not me[0]['start']: return []
    t = '\n'.join(f.text[me[0]['exec'] - 1:me[0]['end']])
    r = []
    for m in f.m['fns']:
        if m['key'] != key and (m['class'] == 'None' or (m['external'] and m['error'])):
            n = re.sub(r'.*::', '', m['key'])
            if re.match(r'^\w+$', n) and re.search(r'\b' + n + r'\(', t) and (re.search(r'::' + n + r'\(', t) or m['key'] == n or True): r.append(m['key'])
    return r

def run(prop, cfg, tier, scratch, sh, build):
    ok, err = build('translator')
    res = dict(undecided=[], failed=[], failed_text=[], assumptions=[], coverage={}, summary='')
    cov = dict(obligations=0, discharged=0, checker_cmd='', trusted_base=[], functions_under_contract=[], clauses=0, solver='z3 (shipped with Verus 0.2026.09.13)', solver_s=0.0, families=[])
    if not ok:
        res['undecided'].append('the translator did not build'); res['coverage'] = cov; return res
    own_ok, own_n = 0, 0
    from concurrent.futures import ThreadPoolExecutor
    def work(fc):
        name, own = fc['family'], fc['own']
        t = time.time()
        f = Fam(name, scratch, deadline=t + fc.get('secs', 300))
        f.drop = load_hints(name)
        try: r = f.solve()
        except Exception as x: r = dict(status='broken', failed={}, tool={'*': str(x)[:300]}, verified=0, notes={}); f.m = dict(fns=[], lost=[], errors=[]); f.text = []
        if r['status'] == 'done' and f.drop and any(k in own for k in r['failed']):
            # invariants put aside in advance may be needed by the code as it is now
            g = Fam(name, scratch, deadline=time.time() + fc.get('secs', 300))
            try:
                q = g.solve()
                if q['status'] == 'done' and len([k for k in q['failed'] if k in own]) < len([k for k in r['failed'] if k in own]): f, r = g, q
            except Exception: pass
        f.again = again(f, r) if r['status'] == 'done' else []
        return f, r, time.time() - t
    with ThreadPoolExecutor(4) as ex: worked = list(ex.map(work, cfg['families']))
    for fc, (f, r, took) in zip(cfg['families'], worked):
        name, own = fc['family'], fc['own']
        meta = {m['key']: m for m in f.m['fns']}
        vac = [k for k in r['failed'] if k.startswith('lemma vacuity')]
        want = sum(1 for l in f.text if 'fn vacuity_' in l)
        if r['status'] == 'done' and len(vac) != want: res['undecided'].append('%s: the vacuity guard was proved: the assumptions contradict each other' % name); r['status'] = 'vacuous'
        fam = dict(family=name, status=r['status'], verified=r['verified'], verus_runs=f.runs, wall_s=round(took, 1), candidate_invariants_kept=sum(m['candidates'] for m in f.m['fns']), candidate_invariants_dropped=len(f.drop), vacuity_guards_refused=len(vac))
        other = {k: v for k, v in r['failed'].items() if not k.startswith('lemma vacuity')}
        if getattr(f, 'again', None): fam['accepted_from_another_seed'] = f.again
        fam['not_discharged'] = sorted(other) + sorted(r['tool'])
        cov['obligations'] += r['verified'] + len(set(other) | set(r['tool'])); cov['discharged'] += r['verified']
        cov['checker_cmd'] += ('; ' if cov['checker_cmd'] else '') + 'translator --family %s --src /repo/src && verus %s.rs %s' % (name, name, ' '.join(f.extra))
        cov['solver_s'] = round(cov['solver_s'] + f.solver_ms / 1000.0, 2)
        if r['status'] != 'done': res['undecided'].append('%s: %s' % (name, '; '.join(map(str, r['tool'].values())) or r['status']))
        for k in own:
            own_n += 1
            m = meta.get(k)
            if r['status'] != 'done': continue
            if k.startswith('lemma '):
                n = k[6:]
                if not any(re.search(r'proof fn %s\b' % n, l) for l in f.text): res['undecided'].append('%s: no %s' % (name, k))
                elif k in other: res['failed'].append(k); res['failed_text'].append('family %s, %s\n' % (name, k) + '\n'.join(other[k]))
                elif k in r['tool']: res['undecided'].append('%s: %s: %s' % (name, k, r['tool'][k]))
                else: own_ok += 1
                continue
            if m is None: res['undecided'].append('%s: there is no function %s any more' % (name, k)); continue
            if m['external']: res['undecided'].append('%s: %s is not verified (%s)' % (name, k, (m['error'] or f.ext.get(k) or 'taken on trust')[:200])); continue
            if k in other:
                bare = calls_bare(f, k)
                if bare: res['undecided'].append('%s: %s calls %s, which has no contract' % (name, k, ', '.join(bare)))
                else:
                    res['failed'].append(k)
                    res['failed_text'].append('family %s, function %s (%s)\n' % (name, k, m['file']) + '\n'.join(other[k]))
                continue
            if k in r['tool']: res['undecided'].append('%s: %s: %s' % (name, k, r['tool'][k])); continue
            own_ok += 1
        deps = [k for k in list(other) + list(r['tool']) if k not in own and k != '*']
        if deps and r['status'] == 'done': res['undecided'].append('%s: contracts used by these functions are not verified: %s' % (name, ', '.join(deps)))
        con = [m['key'] for m in f.m['fns'] if m['class'] == 'Contract' and not m['external']]
        fam['functions_with_written_contracts'] = con
        fam['functions_with_derived_specifications'] = sum(1 for m in f.m['fns'] if m['class'] in ('Pure', 'Rel') and not m['external'])
        fam['functions_on_trust'] = [m['key'] for m in f.m['fns'] if m['external']]
        fam['functions_without_contract'] = [m['key'] for m in f.m['fns'] if m['class'] == 'None']
        fam['own_functions'] = own
        cov['functions_under_contract'] += [k for k in own if k in meta]
        cov.setdefault('lemmas', []).extend(k[6:] for k in own if k.startswith('lemma '))
        cov['clauses'] += sum(len(m['ensures']) for m in f.m['fns'])
        cov['families'].append(fam)
        tb = [l.strip() for l in f.text if ('external_body' in l and 'proof fn' in l)]
        cov['trusted_base'] += [re.sub(r'\s+', ' ', re.sub(r'#\[[^\]]*\]', '', x))[:260] for x in tb]
        dr = [x for x in f.m.get('dropped', []) if not re.search(r'test module|statement without effect', x)]
        res['assumptions'] += ['family %s leaves out: %s' % (name, x) for x in dr]
        if fam['functions_on_trust']: res['assumptions'].append('family %s takes these functions on their contract, proved in other families: %s' % (name, ', '.join(fam['functions_on_trust'])))
    cov['trusted_base'] = sorted(set(cov['trusted_base'])) + ['contracts/common.rs: the behaviour of std, num and f64 operations as stated there; f64 is read as a mathematical real', 'the translator, Verus and z3']
    res['assumptions'] += ['test modules (cfg(test)) are not translated', 'f64 arithmetic is read as arithmetic of real numbers except in family K; isize, usize and BigInt arithmetic as arithmetic of integers', 'the std, num and f64 operations behave as contracts/common.rs states (bounded: the engine runs the real ones)']
    cov['own_functions_discharged'] = '%d of %d' % (own_ok, own_n)
    if res['undecided']: cov['undecided'] = res['undecided']
    if res['failed']: cov['refused'] = res['failed']
    res['coverage'] = cov
    res['summary'] = 'contracts of %d of %d functions discharged%s' % (own_ok, own_n, '; undecided: ' + ' | '.join(res['undecided'])[:600] if res['undecided'] else '')
    return res

if __name__ == '__main__':
    name = sys.argv[1]
    os.makedirs('/tmp/v', exist_ok=True)
    f = Fam(name, os.environ.get('OUT', '/tmp/v'), repo=os.environ.get('REPO', '/repo'), deadline=time.time() + float(os.environ.get('SECS', '900')), extra=[a for a in sys.argv[2:] if a not in ('-v', '-w')], log=lambda s: print('#', s, flush=True))
    t = time.time()
    if '-n' in sys.argv: f.extra.remove('-n'); f.drop = load_hints(name)
    r = f.solve()
    if '-a' in sys.argv or os.environ.get('AGAIN'): print('again:', again(f, r))
    if '-w' in sys.argv: open(os.path.join(ROOT, 'contracts', name + '.drop'), 'w').write('\n'.join(sorted(f.drop)) + '\n')
    print('status', r['status'], 'verified', r['verified'], 'runs', f.runs, '%.1fs' % (time.time() - t))
    for k, v in r['tool'].items(): print('TOOL', k, v)
    for k, v in r['failed'].items():
        if not k.startswith('lemma vacuity'):
            print('FAILED', k)
            for x in v: print('  ', x[:900])
    for m in f.m['fns'][:400]:
        if m['external'] and len(f.ext) < 10: print('EXT', m['key'], m['error'], f.ext.get(m['key']))
        elif m['class'] == 'None' and '-v' in sys.argv: print('NONE', m['key'], m['notes'][-1:])
    print('lost', f.m['lost'], 'errors', f.m['errors'])
    if '-v' in sys.argv or os.environ.get('TIMES'):
        for x in sorted(breakdown(r.get('j', {})), key=lambda x: -x[1])[:12]: print('  %-60s %8.0f ms rlimit %d %s' % x)
