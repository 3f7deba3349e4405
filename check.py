#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution of /repo's current code.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample that reproduces on the native build.
Exit 2: the check itself could not do its work (build failure, nothing explored)."""
import os, sys, json, re, subprocess, time, shutil, resource
from concurrent.futures import ThreadPoolExecutor
import build_all
from props import PROPS
ROOT = build_all.ROOT

def sh_limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def replay(binp, harness, cand, env, timeout, cwd):
    os.makedirs(cwd, exist_ok=True)
    try:
        r = subprocess.run([binp, harness, cand], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_CORE, (0, 0)), resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))))
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'').decode(errors='replace')

def run_harness(binp, h, tier, env0, out, workers, budget):
    d = os.path.join(out, h['name'] + h.get('suffix', '')); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    work = os.path.join(d, 'cwd'); os.makedirs(work)
    env = dict(env0); env.update(SYM_OUT=d, SYM_WORKERS=str(workers), SYM_DEADLINE_S=str(budget), SYM_TIMEOUT_MS=str(h.get('timeout_ms', 20000)), VERIF_TIER=tier)
    env.update({k: str(v) for k, v in h.get('env', {}).items()})
    t0 = time.time(); log = open(os.path.join(d, 'log'), 'w')
    try: rc = subprocess.run([binp, h['name']], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=log, timeout=budget + 120, preexec_fn=sh_limits).returncode
    except subprocess.TimeoutExpired: rc = 'timeout'
    st = {}
    try: st = json.load(open(os.path.join(d, 'stats.json')))
    except Exception: pass
    return dict(h=h, dir=d, rc=rc, stats=st, wall=time.time() - t0)

def demangle(names):
    try:
        o = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
        return [re.sub(r'\[[0-9a-f]{8,}\]', '', x) for x in o if x]
    except Exception: return names

def read_inputs(path):
    r = []
    for l in open(path):
        w = l.split()
        if w and w[0] == 'in': r.append(f'{w[2]}={w[5]}' + (f',{w[6]}' if w[1] == 'unit' else ''))
    return r

def known_findings(pid):
    k = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) harness=(\S+) inputs=(\S*) msg=/(.*)/ \| (.*)$', l.strip())
            if m and m.group(1) == pid: k.append(dict(harness=m.group(2), inputs=[x for x in m.group(3).split(',') if x], msg=m.group(4), what=m.group(5)))
    return k

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = PROPS[pid]; t0 = time.time()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_all.build_sym); b = ex.submit(build_all.build_native)
        try: symbin, devbin = a.result(), b.result()
        except (SystemExit, subprocess.CalledProcessError) as e: print(f'ERROR property={pid} {e}'); sys.exit(2)
    tb = time.time() - t0
    hs = [h for h in prop['harnesses'] if tier == 'thorough' or not h.get('thorough_only')]
    env = build_all.base_env(); env['VERIF_TIER'] = tier
    out = os.path.join(ROOT, 'build', 'out', pid); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    total_budget = 420 if tier == 'quick' else 780
    total_budget = int(os.environ.get('VERIF_BUDGET', total_budget))
    n = len(hs); par = min(n, 8)
    workers = max(4, (8 + par - 1) // par)
    deadline = time.time() + total_budget - min(tb, 120)
    results = []
    with ThreadPoolExecutor(par) as ex:
        def job(h):
            left = max(20, deadline - time.time())
            return run_harness(symbin, h, tier, env, out, h.get('workers', workers), min(left, h.get('budget', 10**6)))
        results = list(ex.map(job, hs))
    # ---- replay candidates
    known = known_findings(pid); viol = []; unconfirmed = []; knownhit = {}; errors = []; relbin = None
    for r in results:
        if r['rc'] != 0 or not r['stats']: errors.append(f"{r['h']['name']}: engine exit {r['rc']}: " + open(os.path.join(r['dir'], 'log')).read()[-300:].replace('\n', ' '))
        for c in sorted(f for f in os.listdir(r['dir']) if f.startswith('cand-')):
            if viol and (time.time() - t0 > 600 or any(v[0] == r['h']['name'] and v[3][0].startswith('exit hang') for v in viol)): continue   # enough is known
            p = os.path.join(r['dir'], c); env2 = dict(env); env2.update({k: str(v) for k, v in r['h'].get('env', {}).items()})
            msg = [l for l in open(p) if l.startswith('msg ')][0][4:].strip(); conf = None
            rc, txt = replay(devbin, r['h']['name'], p, env2, 30, os.path.join(r['dir'], 'replaycwd'))
            bad = lambda rc: rc in (1, 'hang') or (isinstance(rc, int) and (rc < 0 or rc in (101, 134)))
            if bad(rc): conf = ('dev', rc, txt)
            else:
                if relbin is None: relbin = build_all.build_native(True)
                rc2, txt2 = replay(relbin, r['h']['name'], p, env2, 30, os.path.join(r['dir'], 'replaycwd'))
                if bad(rc2): conf = ('release', rc2, txt2)
            inp = read_inputs(p)
            if conf:
                fail = [l[5:] for l in conf[2].split('\n') if l.startswith('FAIL ')] or ([f'exit {conf[1]}'])
                kf = next((k for k in known if k['harness'] == r['h']['name'] and all(i in inp for i in k['inputs']) and all(re.search(k['msg'], x) for x in fail)), None)
                if kf: knownhit.setdefault(kf['what'], 0); knownhit[kf['what']] += 1
                else: viol.append((r['h']['name'], p, msg, fail, inp, conf[0]))
            else: unconfirmed.append(dict(harness=r['h']['name'], msg=msg, native=txt.strip().split('\n')[-1][:200], inputs=inp[:40]))
    # ---- validate witnesses of explored paths against the native build
    ok = 0; mism = []
    def val(a):
        r, w = a; p = os.path.join(r['dir'], w)
        env2 = dict(env); env2.update({k: str(v) for k, v in r['h'].get('env', {}).items()})
        rc, txt = replay(devbin, r['h']['name'], p, env2, 30, os.path.join(r['dir'], 'wcwd-' + w))
        exp = [l.split() for l in open(p) if l.startswith('obs ')]; got = [l.split() for l in txt.split('\n') if l.startswith('obs ')]
        return r, w, p, rc, txt, exp, got
    todo = [(r, w) for r in results for w in sorted(os.listdir(r['dir'])) if w.startswith('wit-')]
    with ThreadPoolExecutor(8) as ex:
        for r, w, p, rc, txt, exp, got in ex.map(val, todo):
            if rc == 3: continue   # rounding of the rational model to doubles left the assumed region
            if any(l.startswith('FAIL panic') for l in txt.split('\n')) or rc == 'hang' or (isinstance(rc, int) and rc < 0):
                fail = [l[5:] for l in txt.split('\n') if l.startswith('FAIL ')] or [f'native run: {rc}']
                inp = read_inputs(p); kf = next((k for k in known if k['harness'] == r['h']['name'] and all(i in inp for i in k['inputs']) and all(re.search(k['msg'], x) for x in fail)), None)
                if kf: knownhit.setdefault(kf['what'], 0); knownhit[kf['what']] += 1
                else: viol.append((r['h']['name'], p, 'explored path fails on the native build', fail, inp, 'dev'))
                continue
            bad = rc != 0
            if rc == 0 and exp:
                if len(exp) != len(got): bad = True
                for e, g in zip(exp, got):
                    x, y = float(e[2]), float(g[2])
                    if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-6 * (1 + max(abs(x), abs(y)))): bad = True
            if bad: mism.append(dict(harness=r['h']['name'], witness=w, rc=str(rc), native=txt.strip().split('\n')[-3:]))
            else: ok += 1
    # ---- report
    S = lambda k: sum(r['stats'].get(k, 0) for r in results)
    for r in results:
        s = r['stats']
        if s and not s.get('paths') and not s.get('violations') and not any(e.startswith(r['h']['name']) for e in errors): errors.append(f"{r['h']['name']}: vacuous, no path completed")
        for k in range(r['h'].get('reach', 1)):
            if s and not s.get('violations') and not s['reach'][k] and not s.get('aborted_deadline'): errors.append(f"{r['h']['name']}: reachability label {k} not reached")
    ent = set()
    try:
        names = json.load(open(os.path.join(ROOT, 'build/reports/geom3d.json')))
        for r in results: ent |= {names['entered'][i] for i in r['stats'].get('entered', [])}
    except Exception: names = {'functions': {}}
    fn = sorted({x for x in demangle(sorted(ent)) if re.match(r'^(<)*(\[)?(alloc::boxed::Box<dyn )?geom3d', x) or ' as geom3d' in x})
    rewritten = len(names.get('functions', {}))
    sus = []
    for c in ('geom3d', 'glam', 'approx', 'grid'):
        try: sus += json.load(open(os.path.join(ROOT, f'build/reports/{c}.json')))['suspicious']
        except Exception: pass
    samples = []
    for r in results[:6]:
        for w in sorted(f for f in os.listdir(r['dir']) if f.startswith('wit-'))[:1]: samples.append(dict(harness=r['h']['name'], path_witness=read_inputs(os.path.join(r['dir'], w))[:30]))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viol),
        assumptions=prop.get('assumptions', []) + ['float arithmetic model per harness: ' + '; '.join(sorted({h.get('model', 'REAL: exact real arithmetic, rounding outside the claim') for h in hs}))],
        coverage=dict(states=S('paths'), transitions=S('forks') + S('branch_queries'), traces_validated_against_impl=ok, samples=samples or ['none'],
            exhaustive=not any(S(k) for k in ('aborted_deadline', 'aborted_ops', 'aborted_cpu', 'undecided', 'unknown_branches')) and not errors,
            bounds=prop['bounds'], harnesses=[dict(name=r['h']['name'] + r['h'].get('suffix', ''), wall_s=round(r['wall'], 1), **{k: r['stats'].get(k, 0) for k in ('paths', 'dead', 'obligations', 'discharged', 'trivially', 'undecided', 'queries', 'q_unknown', 'unknown_branches', 'violations', 'aborted_deadline', 'aborted_ops', 'aborted_cpu', 'inexact', 'concretised', 'opaque', 'to_bits', 'ops')}) for r in results],
            obligations=S('obligations'), obligations_discharged=S('discharged'), decided_by_normal_form=S('trivially'), undecided=S('undecided'), paths_cut_by_assumptions=S('dead'),
            solver=dict(name='z3 5.3.2', queries=S('queries'), sat=S('q_sat'), unsat=S('q_unsat'), unknown=S('q_unknown'), seconds=round(S('solver_us') / 1e6, 2), max_query_ms=max([r['stats'].get('max_query_ms', 0) for r in results] or [0])),
            functions_encoded=fn, ir_functions_rewritten=rewritten, unhandled_float_instructions=sus[:20], symbolic_float_operations=S('ops'),
            unconfirmed_counterexamples=unconfirmed, witness_mismatches=mism, known_findings_seen=knownhit, errors=errors, build_s=round(tb, 1)))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f"{pid} {tier}: paths={S('paths')} obligations={S('obligations')} discharged={S('discharged')} undecided={S('undecided')} queries={S('queries')} unknown={S('q_unknown')} validated={ok} wall={ev['wall_s']}s")
    for k in sorted(knownhit): print(f'KNOWN-FINDING: property={pid} {k}')
    for u in unconfirmed: print(f"NOTE unconfirmed counterexample (not reproduced natively) {u['harness']}: {u['msg']}")
    for m in mism: print(f"NOTE witness mismatch {m}")
    if viol:
        for h, p, msg, fail, inp, prof in viol[:10]:
            rd = os.path.join(ROOT, 'replays', pid); os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, f'{h}-{os.path.basename(p)}'); shutil.copy(p, dst)
            with open(dst, 'a') as f: f.write(f'# solver obligation: {msg}\n# native result ({prof}): {fail}\n# replay: VERIF_TIER={tier} {devbin} {h} {dst}\n')
            print(f'  {h}: {msg}; native: {fail[0][:300]}; inputs: {" ".join(inp)[:400]}')
            print(f'VIOLATION property={pid} replay={dst}')
        sys.exit(1)
    for e in errors: print('ERROR', e)
    sys.exit(2 if errors else 0)
main()
