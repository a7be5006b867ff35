#!/usr/bin/env python3
"""check.py PROP [quick|thorough]

Decides one property of /repo's current working tree.

1. govc (built from /verif/govc when the binary is missing) loads /repo's
   current source, generates the proof obligations of every function whose
   contract in /verif/contracts names PROP and discharges them with SMT
   solvers.  This is the deciding step.
2. A Go test harness (in-package, added through `go test -overlay`, nothing is
   written into /repo) runs the real code against an executable reading of the
   same property.  It supplies failing inputs for violated obligations and is
   the bounded stand-in for what the verifier does not reach.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()


def base_env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; unset PKGS; env -0'], capture_output=True).stdout
    env = {}
    for kv in out.decode('utf8', 'replace').split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            env[k] = v
    env['PWD'] = REPO
    return env


def build_govc():
    src = os.path.join(VERIF, 'govc')
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith('.go') or f.startswith('go.'):
            h.update(open(os.path.join(src, f), 'rb').read())
    stamp = h.hexdigest()
    bindir = os.path.join(VERIF, 'bin')
    exe = os.path.join(bindir, 'govc')
    st = os.path.join(bindir, 'govc.stamp')
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == stamp:
        return exe
    os.makedirs(bindir, exist_ok=True)
    env = dict(os.environ)
    env.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GONOSUMDB='*', GOTOOLCHAIN='local', GOWORK='off')
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run(['/usr/local/bin/go', 'build', '-o', tmp, '.'], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        sys.exit(2)
    os.replace(tmp, exe)
    open(st, 'w').write(stamp)
    return exe


def known(prop):
    res = {}
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Harness:
    """one `go test` run of the property's harness in one package"""

    def __init__(self, prop, spec, scratch, env, tier, seed):
        self.prop, self.spec, self.env = prop, spec, dict(env)
        self.out = os.path.join(scratch, 'h_%s.json' % spec['pkg'].replace('/', '_').strip('._'))
        pkgname = spec['package']
        ov = {}
        d = os.path.join(scratch, 'src_' + os.path.basename(self.out))
        os.makedirs(d)
        dest = os.path.normpath(os.path.join(REPO, spec['pkg']))
        for f in spec['files']:
            data = open(os.path.join(VERIF, 'harness', f)).read()
            data = re.sub(r'^package PKG\b', 'package ' + pkgname, data, flags=re.M)
            n = 'zz_verif_' + os.path.basename(f)
            if not n.endswith('_test.go'):
                n = n[:-3] + '_test.go'
            p = os.path.join(d, n)
            open(p, 'w').write(data)
            ov[os.path.join(dest, n)] = p
        # the package's own tests are not needed here
        if os.path.isdir(dest):
            empty = os.path.join(d, 'empty_test.go')
            pk = {}
            for f in os.listdir(dest):
                if f.endswith('_test.go'):
                    e = os.path.join(d, 'e_' + f)
                    open(e, 'w').write('package ' + pkgname + '\n')
                    ov[os.path.join(dest, f)] = e
        ovf = os.path.join(d, 'overlay.json')
        json.dump({'Replace': ov}, open(ovf, 'w'))
        self.budget = spec.get('secs', 20) if tier == 'quick' else spec.get('secs_thorough', 240)
        self.env.update(VERIF_OUT=self.out, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SECS=str(self.budget), TMPDIR=scratch, GOTMPDIR=scratch)
        self.cmd = ['go', 'test', '-overlay', ovf, '-vet=off', '-count=1', '-timeout', '%ds' % (self.budget * 3 + 120), '-run', '^%s$' % spec['run'], spec['pkg']]
        if spec.get('race') and tier == 'thorough':
            self.cmd.insert(2, '-race')
        self.result, self.err = None, ''

    def run(self):
        try:
            r = subprocess.run(self.cmd, cwd=REPO, env=self.env, capture_output=True, text=True, timeout=self.budget * 3 + 200, errors='replace')
        except subprocess.TimeoutExpired:
            self.err = 'timeout'
            return
        txt = r.stdout + r.stderr
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
            except Exception as e:
                self.err = 'unreadable result: %s\n%s' % (e, txt[-4000:])
                return
            if r.returncode != 0 and not self.result.get('failures'):
                self.result.setdefault('failures', []).append({'key': 'harness-abort', 'input': None, 'message': txt[-4000:]})
        else:
            if '[build failed]' in txt or 'build failed' in txt or 'setup failed' in txt:
                self.err = 'does not build: ' + txt[-4000:]
            elif 'panic:' in txt or 'fatal error:' in txt or 'test timed out' in txt:
                self.result = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [{'key': 'harness-abort', 'input': None, 'message': txt[-6000:]}]}
            else:
                self.err = 'no result: ' + txt[-4000:]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = json.load(open(os.path.join(VERIF, 'checks.json')))[prop]
    evdir = os.environ.get('VERIF_EVDIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replays = os.path.join(VERIF, 'replays')
    os.makedirs(replays, exist_ok=True)
    govc = build_govc()
    env = base_env()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(prop, tier, seed, cfg, govc, env, scratch, evdir, replays)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', scratch], capture_output=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, cfg, govc, env, scratch, evdir, replays):
    hs = [Harness(prop, s, scratch, env, tier, seed) for s in cfg.get('harness', [])]
    threads = [threading.Thread(target=h.run) for h in hs]
    rep = None
    gerr = ''
    js = os.path.join(scratch, 'govc.json')
    gcmd = [govc, '-dir', REPO, '-contracts', os.path.join(VERIF, 'contracts'), '-prop', prop, '-json', js, '-tmp', scratch]
    if tier == 'thorough':
        gcmd += ['-slow', '60000', '-budget', '900', '-effort', '1500', '-deadline', '3400']
    else:
        gcmd += ['-deadline', '640']
    for t in threads:
        t.start()
    if not cfg.get('noproof'):
        try:
            with open(os.path.join(scratch, 'govc.out'), 'w+') as go:
                g = subprocess.Popen(gcmd, cwd=REPO, env=env, stdout=go, stderr=subprocess.STDOUT)
                limit = time.time() + (3600 if tier == 'thorough' else 780)
                soft = None
                while True:
                    try:
                        g.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    # a failing input decides; the proof gets some more time to name its obligations
                    if soft is None and any((h.result or {}).get('failures') for h in hs):
                        soft = time.time() + (60 if tier == 'quick' else 300)
                    if soft and time.time() > soft:
                        g.terminate()
                        soft = time.time() + 1e9
                        limit = min(limit, time.time() + 60)
                    if time.time() > limit:
                        g.kill()
                        g.wait()
                        raise subprocess.TimeoutExpired(gcmd, 0)
                go.seek(0)
                gout = go.read()
            if os.path.exists(js):
                rep = json.load(open(js))
            else:
                gerr = gout
        except subprocess.TimeoutExpired:
            gerr = 'verifier timed out'
    for t in threads:
        t.join()

    kn = known(prop)
    units = (rep or {}).get('units') or []
    failed, unatt = [], []
    nob = ndis = 0
    by = {}
    solver = 0.0
    assumed, inlined = set(), set()
    funcs = []
    expected = cfg.get('bounded_only', [])
    for u in units:
        obls = u.get('obligations') or []
        n = len(obls)
        d = sum(1 for o in obls if o['status'] == 'discharged')
        nob += n
        ndis += d
        solver += u.get('solver_secs', 0) or 0
        for k, v in (u.get('per_solver') or {}).items():
            by[k] = by.get(k, 0) + v
        for a in u.get('assumed') or []:
            assumed.add(a)
        for a in u.get('inlined') or []:
            inlined.add(a)
        funcs.append({'function': u['func'], 'status': u['status'], 'obligations': n, 'discharged': d, 'loops': u.get('loops', 0), 'pass': u.get('pass', ''), 'secs': round(u.get('secs', 0) or 0, 2), 'no_panic': u.get('nopanic', False), 'why': u.get('why', '')})
        u['open'] = [o for o in obls if o['status'] != 'discharged' and o.get('reason') != 'stopped']
        if u['status'] == 'timeout' and u['open'] and any((h.result or {}).get('failures') for h in hs):
            u['status'] = 'failed'  # the proof was stopped because a failing input is known
        if u['status'] == 'failed':
            failed.append(u)
        elif u['status'] != 'verified':
            unatt.append(u)
    evals = sum((h.result or {}).get('evaluations', 0) for h in hs)
    distinct = sum((h.result or {}).get('distinct_nontrivial', 0) for h in hs)
    samples = []
    for h in hs:
        samples += (h.result or {}).get('samples', [])[:3]
    fails, knownhit = [], {}
    for h in hs:
        for f in (h.result or {}).get('failures', []):
            f['package'] = h.spec['pkg']
            f['test'] = h.spec['run']
            if f.get('key') in kn:
                knownhit.setdefault(f['key'], f)
            else:
                fails.append(f)
    herr = [h.spec['pkg'] + ': ' + h.err for h in hs if h.err]

    # ---- verdict
    rc = 0
    lines = []
    for k in sorted(knownhit):
        lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kn[k]))
    replay = os.path.join(replays, '%s.json' % prop)
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'failing_inputs': fails[:10],
           'failed_obligations': [{'function': u['func'], 'obligations': u['open']} for u in failed],
           'rerun': 'VERIF_SEED=%d python3 check.py %s %s' % (seed, prop, tier)}
    violations = 0
    if fails:
        rc = 1
        violations = len(fails)
        f = fails[0]
        lines.append('failing input (%s): %s -- %s' % (f.get('key'), json.dumps(f.get('input'))[:600], str(f.get('message'))[:600]))
        for u in failed:
            lines.append('failed obligations of %s: %s' % (u['func'], ', '.join(o['name'] for o in u['open'])[:600]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
    elif failed:
        rc = 1
        violations = len(failed)
        for u in failed:
            for o in u['open']:
                lines.append('failed obligation %s / %s: %s' % (u['func'], o['name'], o.get('reason', '')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    if rc == 1:
        json.dump(doc, open(replay, 'w'), indent=1)
    for u in unatt:
        lines.append('note: %s is not proved on this tree (%s: %s); decided by the bounded run only' % (u['func'], u['status'], u.get('why', '')))
    for e in herr:
        lines.append('note: harness %s' % e)
    if rc == 0 and hs and not any(h.result for h in hs) and (unatt or not units):
        lines.append('cannot decide: neither proof nor harness available: ' + gerr[-2000:])
        rc = 2
    if rc == 0 and gerr and not hs:
        lines.append('verifier error: ' + gerr[-2000:])
        rc = 2
    elif gerr:
        lines.append('note: verifier error: ' + gerr[-1500:])

    level = cfg.get('level', 'proof')
    cov = {}
    if level == 'proof':
        cov.update(obligations=nob, discharged=ndis, checker_cmd=' '.join([gcmd[0], '-dir', REPO, '-contracts', '/verif/contracts', '-prop', prop]),
                   trusted_base=['govc (verification condition generator, /verif/govc)', 'Z3 4.8.12 / Z3 (newer release, z3-new) / cvc5 1.1.2', 'golang.org/x/tools go/ssa and the Go type checker'] + cfg.get('trusted', []))
    cov.update(functions_under_contract=funcs, discharged_by=by, solver_secs=round(solver, 2),
               bounded_standins=cfg.get('bounded', []),
               not_proved_on_this_tree=[u['func'] for u in unatt] + [u['func'] for u in failed],
               inlined_helpers=sorted(inlined))
    cov.update(evaluations=evals, distinct_nontrivial=distinct, rule='; '.join((h.result or {}).get('rule', '') for h in hs), samples=samples or ['none'])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumed) + cfg.get('assumptions', []) + ['machine integers treated as mathematical integers', 'strings treated as byte sequences; memory exhaustion, stack overflow and data races not modelled'],
          'wall_s': round(time.time() - T0, 2), 'violations': violations}
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged in %d functions (%s), solver %.1fs; bounded: %d cases (%d distinct); wall %.1fs' % (
        prop, tier, ndis, nob, len(units), ', '.join('%s %d' % kv for kv in sorted(by.items())), solver, evals, distinct, time.time() - T0))
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    main()
