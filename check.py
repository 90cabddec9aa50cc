#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current source:
 1. builds gocv (the contract verifier in /verif/gocv) and runs it on /repo: every obligation of the
    property's contracts must be discharged;
 2. builds the harness (an executable oracle, compiled into /repo's module by an overlay) and runs
    it: the bounded companion, and the search for a failing input when an obligation fails.
Exit 0: held.  Exit 1 with a line VIOLATION property=<id> replay=<path>: broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
GO = '/opt/veriftools/go1.27.3/bin'
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CFG = json.load(open(os.path.join(HERE, 'checks.json')))[PID]
T0 = time.time()
TMP = tempfile.mkdtemp(prefix='verif-%s-' % PID)
# total wall-clock the two parts may take
PROOF_BUDGET = 420 if TIER == 'quick' else 700


def env():
    e = dict(os.environ)
    e['PATH'] = GO + ':' + e.get('PATH', '/usr/bin:/bin')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOSUMDB='off')
    e.pop('GOFLAGS', None)
    e.setdefault('HOME', '/root')
    return e


def run(cmd, timeout, cwd=HERE, extra=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace') + '\ntimed out'


def proof():
    """run the verifier; returns its report, or a report with an error"""
    if not CFG.get('proof'):
        return None
    rc, o, e = run(['go', 'build', '-o', os.path.join(TMP, 'gocv'), '.'], 300, os.path.join(HERE, 'gocv'),
                   {'GOFLAGS': '-mod=mod'})
    if rc != 0:
        return {'ok': False, 'error': 'gocv does not build: ' + e[-2000:], 'units': [], 'obligations': 0, 'proved': 0}
    shutil.copy(os.path.join(HERE, 'tools', 'helium.mod'), TMP)
    shutil.copy(os.path.join(HERE, 'tools', 'helium.sum'), TMP)
    rep = os.path.join(TMP, 'proof.json')
    rc, o, e = run([os.path.join(TMP, 'gocv'), '-prop', PID, '-json', rep, '-budget', str(PROOF_BUDGET)],
                   PROOF_BUDGET + 60, HERE, {'GOFLAGS': '-mod=mod -modfile=' + os.path.join(TMP, 'helium.mod')})
    try:
        r = json.load(open(rep))
    except Exception:
        r = {'ok': False, 'units': [], 'obligations': 0, 'proved': 0}
        r['error'] = 'the verifier gave no report: rc=%d %s' % (rc, (o + e)[-3000:])
    r['output'] = (o + e)[-6000:]
    return r


def harness_build():
    d = os.path.join(TMP, 'h')
    os.makedirs(d, exist_ok=True)
    rc, o, e = run(['bash', os.path.join(HERE, 'harness', 'build.sh'), d], 300)
    ok = rc == 0 and os.path.exists(os.path.join(d, 'harness'))
    err = ''
    if os.path.exists(os.path.join(d, 'build.err')):
        err = open(os.path.join(d, 'build.err')).read()
    return ok, err + e


def harness_run(seed, cases, budget, tag):
    d = os.path.join(TMP, 'h')
    out = os.path.join(d, 'out-%s.json' % tag)
    crumbs = os.path.join(d, 'crumbs-' + tag)
    os.makedirs(crumbs, exist_ok=True)
    cmd = [os.path.join(d, 'harness'), '-prop', PID, '-seed', str(seed), '-cases', str(cases), '-budget', str(budget),
           '-out', out, '-crumbs', crumbs, '-j', '8']
    rc, o, e = run(cmd, budget + 240, TMP)
    if rc == 0 and os.path.exists(out):
        return json.load(open(out))
    # the process died (a stack overflow cannot be recovered): find the case among the breadcrumbs
    res = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [], 'families': {}, 'rule': '', 'died': True}
    for w in sorted(os.listdir(crumbs)):
        c = open(os.path.join(crumbs, w)).read().strip()
        if not c:
            continue
        rc2, o2, e2 = run([os.path.join(d, 'harness'), '-prop', PID, '-seed', str(seed), '-case', c], 60, TMP)
        if rc2 != 0:
            fam, n = c.rsplit(':', 1)
            res['failures'].append({'family': fam, 'case': int(n), 'input': o2[:4000],
                                    'fails': ['the process died: ' + (e2.strip().split('\n') or [''])[0][:400] + '\n' + e2[:3000]]})
    if not res['failures']:
        res['failures'].append({'family': '?', 'case': 0, 'input': '', 'unconfirmed': True,
                                'fails': ['the harness process died: rc=%d %s' % (rc, e[:3000])]})
    return res


def merge(a, b):
    if a is None:
        return b
    a['evaluations'] += b['evaluations']
    a['distinct_nontrivial'] += b['distinct_nontrivial']
    for k, v in (b.get('families') or {}).items():
        a['families'][k] = a['families'].get(k, 0) + v
    a['failures'] = (a.get('failures') or []) + (b.get('failures') or [])
    return a


def main():
    pr = proof()
    ok, berr = harness_build()
    hres = None
    herr = ''
    proof_failed = pr is not None and not pr.get('ok')
    if not ok:
        herr = berr
    else:
        h = CFG.get('harness', {})
        cases = h.get('cases', 60000)
        budget = h.get('budget', 12)
        if TIER == 'thorough':
            cases, budget = cases * 60, 240
        hres = harness_run(SEED, cases, budget, 'a')
        if proof_failed and not hres.get('failures'):
            # look longer for an input that shows the failed obligation
            for k in range(1, 4):
                hres = merge(hres, harness_run(SEED + 1000 * k, cases * 4, 25, 'x%d' % k))
                if hres.get('failures'):
                    break
    # known findings: recorded defects, each with its own probe in the harness
    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == PID]
    for k in known:
        if ok:
            rc, o, e = run([os.path.join(TMP, 'h', 'harness'), '-prop', 'known', '-seed', str(SEED), '-case', k['probe'] + ':0'], 60, TMP)
            if rc == 1:
                print('KNOWN-FINDING: property=%s %s' % (PID, k['what']))
    fails = (hres or {}).get('failures') or []
    violations = 0
    lines = []
    repdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    rp = os.path.join(repdir, PID + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    failed_obl = []
    if proof_failed:
        for u in pr.get('units') or []:
            for f in u.get('failed') or []:
                failed_obl.append((u['unit'], f))
    if fails or proof_failed or not ok:
        violations = max(1, len(fails))
        with open(rp, 'w') as f:
            f.write('property %s\n' % PID)
            for x in fails:
                f.write('\n== failing input (family %s, case %s, seed %d)\n%s\n' % (x['family'], x['case'], SEED, x['input']))
                for m in x['fails']:
                    f.write('-- %s\n' % m)
                f.write('to replay: bash %s/harness/build.sh DIR && DIR/harness -prop %s -seed %d -case %s:%s\n' % (HERE, PID, SEED, x['family'], x['case']))
            if proof_failed:
                f.write('\n== obligations the verifier did not discharge\n')
                if pr.get('error'):
                    f.write(pr['error'] + '\n')
                for u, o in failed_obl:
                    f.write('%s: %s\n' % (u, json.dumps(o)))
                f.write('\nverifier output:\n%s\n' % pr.get('output', ''))
            if not ok:
                f.write('\n== the harness does not compile against /repo\n%s\n' % herr)
        for u, o in failed_obl[:5]:
            print('obligation not discharged: %s: %s' % (u, o.get('name') or o))
        for x in fails[:2]:
            print('failing input (%s:%s): %s' % (x['family'], x['case'], x['input'][:400].replace('\n', ' | ')))
            for m in x['fails'][:2]:
                print('   ', m[:600])
        real = [x for x in fails if not x.get('unconfirmed')]
        lines.append('VIOLATION property=%s replay=%s%s' % (PID, rp, '' if real else ' no-failing-input-found'))
    # evidence
    cov = {}
    assumptions = list(CFG.get('assumptions', []))
    if pr is not None:
        cov.update({
            'obligations': pr.get('obligations', 0), 'discharged': pr.get('proved', 0),
            'checker_cmd': 'gocv -prop %s (z3, z3-new, cvc5)' % PID,
            'trusted_base': ['gocv: the verification-condition generator in /verif/gocv', 'golang.org/x/tools go/ssa', 'z3 / cvc5'] +
                            (pr.get('trusted_contracts') or []),
            'proved_by': pr.get('proved_by'), 'solver_seconds': pr.get('solver_seconds'),
            'functions_under_contract': pr.get('functions_under_contract'), 'functions_inlined': pr.get('functions_inlined'),
            'lemmas': pr.get('lemmas'), 'theory_axioms': pr.get('theory_axioms'),
            'units': [{k: u[k] for k in ('unit', 'obligations', 'proved', 'seconds') if k in u} for u in pr.get('units') or []],
        })
        assumptions += pr.get('assumptions') or []
    cov['bounded_functions'] = CFG.get('bounded', [])
    if hres is not None:
        cov.update({'evaluations': hres['evaluations'], 'distinct_nontrivial': hres['distinct_nontrivial'],
                    'rule': 'bounded companion, not counted as proof. ' + (hres.get('rule') or '') +
                            ' (a case is non-trivial when it is not marked empty by its family; distinct by its input text)',
                    'samples': hres.get('samples') or [], 'families': hres.get('families')})
    cov['explanation'] = CFG.get('explanation', '')
    ev = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': CFG['level'], 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', PID + '.json'), 'w'), indent=1)
    if pr is not None:
        print('%s: %d of %d obligations discharged' % (PID, pr.get('proved', 0), pr.get('obligations', 0)))
    if hres is not None:
        print('%s: %d bounded cases, %d distinct' % (PID, hres['evaluations'], hres['distinct_nontrivial']))
    for l in lines:
        print(l)
    return 1 if lines else 0


try:
    rc = main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
sys.exit(rc)
