#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. builds govc (the contract verifier in /verif/govc) and runs it on /repo's current source for every contract tagged
   with the property: each obligation must be discharged by an SMT solver;
2. builds and runs the property's bounded component / replay driver (harness/<id>), compiled against /repo's current
   source through `go test -overlay`.

A failing input found by (2) is a violation with that input as replay. A failed obligation of (1) for which (2) finds no
failing input is a violation ending in no-failing-input-found; its replay file names the obligations.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['GOTOOLCHAIN'] = 'local'; e['GOPROXY'] = 'off'; e['GOFLAGS'] = '-mod=mod'
    e.setdefault('GOPATH', '/root/go'); e.setdefault('GOCACHE', '/root/.cache/go-build')
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    for k in ('PG_HOST', 'VAULT_ADDRESS', 'DYDB_ENDPOINT_URL', 'ESDB_IP_ADDR'):
        e.pop(k, None)
    return e

def build_govc(dst):
    exe = os.path.join(VERIF, 'bin', 'govc')
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(os.path.join(VERIF, 'govc', f)) for f in os.listdir(os.path.join(VERIF, 'govc'))):
        return exe
    out = os.path.join(dst, 'govc')
    r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'govc'), env=env(), capture_output=True, text=True)
    if r.returncode:
        print(r.stdout, r.stderr)
        sys.exit(2)
    return out

def overlay(tmp):
    """Every file under harness/<dir> appears as /repo/verifharness/<dir>/…; harness/inpkg/<path> lands in <path>."""
    rep = {}
    root = os.path.join(VERIF, 'harness')
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith('.go'):
                continue
            rel = os.path.relpath(os.path.join(d, f), root)
            dst = os.path.join(REPO, rel[6:]) if rel.startswith('inpkg/') else os.path.join(REPO, 'verifharness', rel)
            rep[dst] = os.path.join(d, f)
    p = os.path.join(tmp, 'overlay.json')
    json.dump({'Replace': rep}, open(p, 'w'))
    return p

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(os.path.join(VERIF, 'checks.json')))[prop]
    tmp = tempfile.mkdtemp(prefix='verif-' + prop + '-')
    try:
        return run(prop, tier, seed, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, tier, seed, cfg, tmp):
    res = {}
    def proof():
        if not cfg.get('proof', True):
            return
        try:
            exe = build_govc(tmp)
            out = os.path.join(tmp, 'govc.json')
            cmd = [exe, '-repo', REPO, '-specs', os.path.join(VERIF, 'contracts'), '-prop', prop, '-json', out, '-t', '120s' if tier == 'thorough' else '40s']
            r = subprocess.run(cmd, env=env(), capture_output=True, text=True, timeout=700)
            res['proof_out'] = r.stdout[-20000:] + r.stderr[-6000:]
            res['proof'] = json.load(open(out)) if os.path.exists(out) else None
        except Exception as e:  # the verifier itself could not run
            res['proof_out'] = res.get('proof_out', '') + repr(e)
            res['proof'] = None
    def harness():
        pk = cfg.get('harness')
        if not pk:
            return
        e = env()
        hout = os.path.join(tmp, 'h'); os.mkdir(hout)
        work = os.path.join(tmp, 'w'); os.mkdir(work)
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=hout, TMPDIR=work, VERIF_KNOWN=os.path.join(VERIF, 'KNOWN_FINDINGS.txt'))
        ov = overlay(tmp)
        bdir = os.path.join(tmp, 'b'); os.mkdir(bdir)
        cmd = ['go', 'test', '-c', '-overlay', ov, '-vet=off', '-o', bdir + '/'] + (['-race'] if cfg.get('race') else []) + pk
        res['harness_cmd'] = ' '.join(cmd) + ' && run each test binary -test.run ' + cfg.get('run', '.')
        res['stats'], res['fails'] = [], []
        res['harness_rc'], res['harness_out'] = 0, ''
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, timeout=600, errors='replace')
        if r.returncode:
            res['harness_rc'], res['harness_out'] = 1, r.stdout + r.stderr
            res['harness_built'] = False
            return
        limit = 600 if tier == 'thorough' else 400
        procs = []
        for i, b in enumerate(sorted(os.listdir(bdir))):
            e2 = dict(e); e2['VERIF_OUT'] = os.path.join(hout, str(i)); os.mkdir(e2['VERIF_OUT'])
            wd = os.path.join(work, str(i)); os.mkdir(wd); e2['TMPDIR'] = wd
            lf = open(os.path.join(tmp, 'log%d' % i), 'w+', errors='replace')
            procs.append((subprocess.Popen([os.path.join(bdir, b), '-test.count=1', '-test.timeout=%ds' % limit, '-test.run', cfg.get('run', '.')], cwd=wd, env=e2, stdout=lf, stderr=subprocess.STDOUT), lf, e2['VERIF_OUT']))
        for p, lf, od in procs:
            try:
                rc = p.wait(timeout=limit + 60)
            except subprocess.TimeoutExpired:
                p.kill(); rc = 1
            lf.seek(0)
            if rc:
                res['harness_rc'] = rc
            res['harness_out'] += lf.read()
            for f in sorted(os.listdir(od)):
                d = json.load(open(os.path.join(od, f)))
                res['fails' if f.startswith('fail') else 'stats'].append(d)
    ts = [threading.Thread(target=f) for f in (proof, harness)]
    for t in ts: t.start()
    for t in ts: t.join()

    viol = None
    replay = None
    rdir = os.path.join(VERIF, 'replay')
    known = []
    out = res.get('harness_out', '')
    for m in re.finditer(r'KNOWN-FINDING: .*', out):
        if m.group(0) not in known:
            known.append(m.group(0))
    harness_ok = True
    if cfg.get('harness'):
        if res['fails']:
            viol = res['fails'][0]
        elif res['harness_rc'] != 0:
            if res.get('harness_built') is False:
                harness_ok = False
                print('NOTE: the bounded component did not compile against this tree; the proof alone decides')
                print(out[-3000:])
            else:
                viol = {'what': 'the run of the real code crashed or hung', 'output': out[-8000:]}
    pr = res.get('proof')
    weak = None
    if cfg.get('proof', True):
        if pr is None:
            weak = {'obligations': ['the verifier gave no result'], 'output': res.get('proof_out', '')}
        elif pr['failed']:
            names = []
            for f in pr['functions'] or []:
                for x in f.get('failed') or []:
                    names.append('%s: [%s] %s %s (%s) %s' % (f['key'], x['kind'], x['name'], x.get('pos', ''), x['status'], x.get('detail', '')))
            for u in pr.get('unbound') or []:
                names.append('%s: function under contract not found' % u)
            weak = {'obligations': names, 'output': res['proof_out']}
    n_viol = 0
    if viol or weak:
        n_viol = 1
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s-%d.json' % (prop, os.getpid()))
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'failing_input': viol, 'failed_obligations': weak and weak['obligations'],
                   'verifier_output': weak and weak['output'], 'harness_cmd': res.get('harness_cmd')}, open(replay, 'w'), indent=1)
    cov = {}
    assumptions = list(cfg.get('assumptions', []))
    if pr:
        cov.update(obligations=pr['obligations'], discharged=pr['discharged'],
                   checker_cmd='govc -repo %s -specs contracts -prop %s' % (REPO, prop),
                   trusted_base=['govc (verification-condition generator for go/ssa, /verif/govc)', 'z3 4.8.12, z3-new, cvc5 1.1.2', 'go/ssa translation of the source', 'sequential consistency; Go type safety; lengths below 2^62'] + (pr.get('trusted') or []),
                   functions_under_contract=[{'function': f['key'], 'at': f['pos'], 'obligations': f['obligations'], 'discharged': f['discharged'], 'paths': f['paths'], 'loops': f['loops'], 'loop_invariants': f['invariants'], 'ms': f['ms'], 'inlined': f.get('inlined') or []} for f in pr['functions'] or []],
                   by_back_end=pr['solver_results'], solver_ms=pr['solver_ms'], solver_queries=pr['queries'])
        for f in pr['functions'] or []:
            pass
        if pr.get('axioms'):
            cov['axioms'] = pr['axioms']
    if cfg.get('harness'):
        st = res.get('stats') or []
        cov['evaluations'] = sum(s['evaluations'] for s in st)
        cov['distinct_nontrivial'] = sum(s['distinct'] for s in st)
        cov['rule'] = ' | '.join('%s: %s' % (s['test'], s['rule']) for s in st)[:4000]
        cov['samples'] = [x for s in st for x in (s.get('samples') or [])[:2]][:12]
        cov['bounded_component'] = {'ran': harness_ok, 'cmd': res.get('harness_cmd'), 'bound': cfg.get('bound', ''), 'stands_in_for': cfg.get('bounded_for', '')}
    level = cfg['level']
    if not cov:
        cov = {'explanation': 'nothing ran'}
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=n_viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        print(k)
    if pr:
        print('%s: %d functions under contract, %d of %d obligations discharged' % (prop, len(pr['functions'] or []), pr['discharged'], pr['obligations']))
    if cfg.get('harness'):
        print('%s: bounded component: %d evaluations, %d distinct' % (prop, cov['evaluations'], cov['distinct_nontrivial']))
    if viol:
        print('failing input:', json.dumps(viol)[:3000])
    if weak:
        print('failed obligations:')
        for n in weak['obligations'][:20]:
            print('  ', n[:600])
        if pr is None:
            print(weak['output'][-3000:])
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if weak:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    print('%s: held (%.1fs)' % (prop, time.time() - T0))
    return 0

sys.exit(main())
