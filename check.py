#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.

1. govc generates the proof obligations of the property's contracts from the
   current source and discharges them (the deciding step).
2. the in-package harness runs the real code against the executable form of the
   same top-level contracts: it supplies the replayed failing input for a
   violation and is the labelled *bounded* stand-in for functions out of reach.
"""
import json, os, subprocess, sys, time, shutil, tempfile, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROPS = json.load(open(os.path.join(HERE, 'props.json')))

def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GOWORK='off')
    return e

def build_govc():
    out = os.path.join(HERE, 'build', 'govc')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    src = os.path.join(HERE, 'govc')
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=goenv(), check=True)
    os.replace(tmp, out)
    return out

def known(prop):
    fs = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) (key|obligation)=(.*?) \| (.*)', l)
            if m and m.group(1) == prop:
                fs.append(dict(kind=m.group(2), id=m.group(3), text=m.group(4), seen=False))
    return fs

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.chmod(tmp, 0o755)  # C08 runs its attacks as an unprivileged user
    known_list = known(prop)
    evdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rdir, f))
    concrete, undecided, notes = [], [], []
    rep, res = None, None
    try:
        # --- deductive part ---
        govc = build_govc()
        tmo = cfg.get('timeout', 30) * (3 if tier == 'thorough' else 1)
        cmd = [govc, '-prop', prop, '-repo', REPO, '-specs', os.path.join(HERE, 'contracts'),
               '-t', str(tmo), '-out', os.path.join(tmp, 'govc.json')]
        env = goenv(); env['TMPDIR'] = tmp
        lim = 3000 if tier == 'thorough' else 480
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=lim, cwd=HERE)
            gout = p.stdout
        except subprocess.TimeoutExpired as e:
            gout = 'govc did not finish within %d s' % lim
            undecided.append(dict(id='govc', text=gout))
        if os.path.exists(os.path.join(tmp, 'govc.json')):
            rep = json.load(open(os.path.join(tmp, 'govc.json')))
            for o in rep['obligations']:
                if not o['ok']:
                    undecided.append(dict(id=o['fn'] + '/' + o['name'], text='obligation %s of %s (%s) at %s: solver answers %s\n%s' % (o['name'], o['fn'], o['kind'], o.get('pos', ''), o['result'], o.get('model', ''))))
            for f, e in rep['errors'].items():
                undecided.append(dict(id=f + '/generation', text='no obligations could be generated for %s: %s' % (f, e)))
            if rep['total'] == 0:
                undecided.append(dict(id='vacuous', text='no obligation was generated'))
        elif not undecided:
            undecided.append(dict(id='govc', text='govc gave no report:\n' + gout[-3000:]))
        # --- harness ---
        if cfg.get('harness', True):
            budget = cfg.get('budget', 40) * (10 if tier == 'thorough' else 1)
            hdir = os.path.join(tmp, 'h')
            p = subprocess.run([os.path.join(HERE, 'run_harness.sh'), prop, hdir, tier, str(seed), str(budget)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=REPO, TMPDIR=tmp))
            rj = os.path.join(hdir, 'result.json')
            if os.path.exists(rj):
                res = json.load(open(rj))
                for x in res['violations'] or []:
                    concrete.append(dict(id=x['key'], text=x['msg'], replay=x['replay']))
            elif p.returncode == 4:
                notes.append('the harness does not build against this tree: ' + p.stdout[-800:])
            else:
                cur = ''
                try: cur = open(os.path.join(hdir, 'current')).read()
                except OSError: pass
                log = ''
                try: log = open(os.path.join(hdir, 'stdout.log'), errors='replace').read()
                except OSError: pass
                k = log.find('fatal error'); k = k if k >= 0 else log.find('panic:')
                tail = log[k:k+3000] if k >= 0 else log[-3000:]
                if cur:
                    concrete.append(dict(id='process-death', text='the process died while running this case\n' + tail, replay=cur))
                else:
                    notes.append('the harness ended without a result: ' + tail)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    def match(kind, x):
        for f in known_list:
            if f['kind'] == kind and f['id'] == x['id']:
                f['seen'] = True
                return True
        return False
    nfound = len(concrete)
    concrete = [x for x in concrete if not match('key', x)]
    undecided = [x for x in undecided if not match('obligation', x)]
    for f in known_list:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, f['text'], '' if f['seen'] else ' (not reproduced by this run)'))
    rc = 0
    if concrete or undecided:
        rc = 1
        path = os.path.join(rdir, '%s-%d.txt' % (prop, seed))
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (prop, cfg['title']))
            for x in concrete:
                f.write('\n== failing input (key %s)\n%s\n-- input --\n%s\n' % (x['id'], x['text'], x.get('replay', '')))
            for x in undecided:
                f.write('\n== failed obligation %s\n%s\n' % (x['id'], x['text']))
            if not concrete:
                f.write('\nThe harness found no failing input for these obligations.\n')
        for x in (concrete[:5] or undecided[:5]):
            print('%s: %s' % (x['id'], x['text'].split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))

    cov = {}
    if rep:
        cov.update(obligations=rep['total'], discharged=rep['discharged'], covers=rep['covers'],
                   checker_cmd='build/govc -prop %s -repo %s -specs contracts -t %d' % (prop, REPO, tmo),
                   by_solver=rep['by_solver'], solver_seconds=round(rep['solver_secs'], 1),
                   functions_under_contract=rep['functions'], lemmas=rep['lemmas'] or [],
                   inlined_bodies=rep['inlined'] or [], externals=rep['externs'] or [],
                   trusted_base=(rep['trusted'] or []) + ['govc (obligation generator), go/ssa, z3, cvc5'] + cfg.get('trusted', []))
    if res:
        cov['bounded_standin'] = dict(evaluations=res['evaluations'], distinct_nontrivial=res['distinct_nontrivial'], rule=res['rule'],
                                      samples=res['samples'] or [], counts=res['counts'], bounded_for=cfg.get('bounded_for', []))
    cov['explanation'] = cfg.get('explanation', '')
    if notes: cov['notes'] = notes
    cov['known_findings'] = [f['text'] for f in known_list]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
              assumptions=(rep['assumptions'] if rep and rep['assumptions'] else []) + cfg.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(concrete) + len(undecided))
    if cfg['level'] == 'exploration' and res:
        cov.update(evaluations=res['evaluations'], distinct_nontrivial=res['distinct_nontrivial'], rule=res['rule'], samples=res['samples'] or [])
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print('%s: %s; obligations %s/%s, bounded cases %s, %.1fs' % (prop, 'violated or undecided' if rc else 'held', rep and rep['discharged'], rep and rep['total'], res and res['evaluations'], time.time() - t0))
    sys.exit(rc)

main()
