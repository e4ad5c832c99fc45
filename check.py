#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of the LLVM IR
compiled from /repo's working tree (engine/), z3 deciding path conditions and assertions."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, COMMON
B = os.path.join(HERE, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'): ENV.pop(k, None)
T0 = time.time()

class Err(Exception): pass

def sh(cmd, cwd, what, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0: raise Err(f'{what} failed:\n{r.stdout[-2000:]}\n{r.stderr[-4000:]}')
    return r

def build_engine():
    sh(['cargo', 'build', '--release', '--offline', '--target-dir', f'{B}/engine'], f'{HERE}/engine', 'engine build')
    return f'{B}/engine/release/symex'

def build_ir(c):
    d = f'{HERE}/harness/{c}'
    t = f'{B}/ir-{c}'
    deps = f'{t}/release/deps'
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith('.ll'): os.remove(f'{deps}/{f}')
        # the IR file is not one of cargo's outputs: make sure the crate itself is compiled again
        subprocess.run(['cargo', 'clean', '--release', '--offline', '-p', f'h{c}', '--target-dir', t], cwd=d, env=ENV, capture_output=True)
    sh(['cargo', 'rustc', '--release', '--offline', '--lib', '--target-dir', t, '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], d, f'IR build of {c}')
    fs = [f for f in os.listdir(deps) if f.startswith(f'h{c}') and f.endswith('.ll')]
    if len(fs) != 1: raise Err(f'IR of {c}: {fs}')
    return f'{deps}/{fs[0]}'

def build_native(c, prof):
    d = f'{HERE}/harness/{c}/native'
    t = f'{B}/nat-{c}'
    sh(['cargo', 'build', '--offline', '--target-dir', t] + (['--release'] if prof == 'release' else []), d, f'{prof} build of the replay binary of {c}')
    return f'{t}/{"release" if prof == "release" else "debug"}/h{c}-native'

def replay(binary, entry, path, tier):
    goal = re.search(r'^# goal (.*)$', open(path).read(), re.M)
    if goal:
        # nothing is said to lead there: try sampled inputs against the compiled code
        for k in range(1, 401):
            r = subprocess.run([binary, entry, path], env=dict(ENV, SYM_TIER=tier, SYM_RANDOM=str(k)), capture_output=True, text=True, errors='replace', timeout=60, cwd=B)
            if f'REACHED {goal.group(1)}' in r.stderr: return 'held', f'reached with sample {k}'
        return 'violated', f'400 native runs with sampled inputs did not reach it: {goal.group(1)}'
    probe = re.search(r'^# probe (\d+)$', open(path).read(), re.M)
    env = dict(ENV, SYM_TIER=tier)
    if probe: env.update(SYM_RANDOM=probe.group(1), SYM_PROBE='1')
    try:
        r = subprocess.run([binary, entry, path], env=env, capture_output=True, text=True, errors='replace', timeout=60, cwd=B)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    out = r.stderr[-3000:]
    if r.returncode == 10: return 'violated', out
    if r.returncode == 0: return 'held', out
    if r.returncode < 0: return 'violated', out + f'\nkilled by signal {-r.returncode}'
    return f'mismatch({r.returncode})', out

def known(prop):
    out = []
    p = f'{HERE}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) entry=(\S+) check="([^"]*)" choices=(\S+) (.*)', l)
                if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        os.makedirs(B, exist_ok=True)
        build_engine()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    jobs = []
    for j in P['jobs']:
        if j.get('tier') == 'thorough' and tier != 'thorough': continue
        n = j.get('shards', 1)
        for k in range(n): jobs.append((j, k, n))
    crates = sorted({j['crate'] for j, _, _ in jobs})
    os.makedirs(B, exist_ok=True)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {c: ex.submit(build_ir, c) for c in crates}
        fn = {c: ex.submit(build_native, c, 'release') for c in crates}
        eng = fe.result()
        ll = {c: f.result() for c, f in fi.items()}
        nat = {c: f.result() for c, f in fn.items()}
    tb = time.time() - T0
    budget = 600 if tier == 'thorough' else 300
    deadline = time.time() + budget
    ntr = 24 if tier == 'quick' else 60
    rd = f'{B}/replay-{prop}'
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd): os.remove(f'{rd}/{f}')
    kn = known(prop)
    def is_known(j, v):
        ch = ','.join(l.split()[1] for l in v['replay'].splitlines() if l.startswith('c '))
        return [k for k in kn if k[0] == j['entry'] and k[1] in v['id'] and re.fullmatch(k[2], ch or '-')]
    running, stop, late = [], [], []
    def run(a):
        j, k, n = a
        secs = max(10, deadline - time.time())
        secs = min(secs, j.get('secs', secs) if tier == 'quick' else j.get('secs_thorough', secs))
        cmd = [eng, ll[j['crate']], j['entry'], '--tier', tier, '--seed', str(seed), '--shard', f'{k}/{n}', '--secs', f'{secs:.0f}', '--traces', str(max(1, ntr // len(jobs)))]
        thin = j.get('thin_thorough', j.get('thin')) if tier == 'thorough' else j.get('thin')
        if thin is not None: cmd += ['--thin', str(thin)]
        if stop: return None
        pr = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        running.append(pr)
        if stop: pr.kill()
        try: out, er = pr.communicate(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            pr.kill(); pr.communicate()
            late.append(f'{j["entry"]} shard {k}/{n}: no result within {secs + 120:.0f} s')
            return None
        if stop and pr.returncode < 0: return None
        if pr.returncode != 0 or not out.startswith('{'): raise Err(f'engine failed on {j["entry"]} shard {k}/{n}: {out[-500:]} {er[-3000:]}')
        d = json.loads(out)
        # a violation that is confirmed natively ends the search
        for n2, v in enumerate(d['violations'][:2]):
            p = f'{rd}/first-{j["entry"]}-{k}-{n2}.txt'
            open(p, 'w').write(v['replay'])
            if replay(nat[j['crate']], j['entry'], p, tier)[0] == 'violated' and not is_known(j, v):
                stop.append(1)
                for x in running:
                    if x.poll() is None: x.kill()
                break
        return j, d
    with cf.ThreadPoolExecutor(8) as ex: res = [r for r in ex.map(run, jobs) if r]
    # ---- collect
    tot = {}
    def add(k, v): tot[k] = tot.get(k, 0) + v
    maps = {k: {} for k in ('check_ids', 'cuts', 'undecided', 'unsupported')}
    funcs, samples, viols, traces, probes = set(), [], [], [], []
    per = {}
    for j, d in res:
        e = per.setdefault(j['entry'], dict(paths=0, checks=0, returned=0, panicked=0))
        for k in ('paths', 'checks', 'returned', 'panicked'): e[k] += d[k]
        for k in ('paths', 'returned', 'panicked', 'infeasible', 'forks', 'concretisations', 'steps', 'checks', 'checks_bv_solver', 'checks_real', 'checks_real_normal_form', 'equality_cases', 'dropped'): add(k, d[k])
        for k in ('queries', 'sat', 'unsat', 'unknown', 'errors'): add('z3_bv_' + k, d['solver'][k]); add('z3_nra_' + k, d['nra'][k])
        add('solver_secs', d['solver']['secs'] + d['nra']['secs'] + d['confirm_secs'])
        for k, v in zip(('asked', 'unsat', 'unknown', 'sat'), d['confirmed']): add('z3_real_equalities_' + k, v)
        if d['confirmed'][3]: maps['undecided']['z3 contradicts the normal form'] = maps['undecided'].get('z3 contradicts the normal form', 0) + d['confirmed'][3]
        for k in maps:
            for x, v in d[k].items(): maps[k][x] = maps[k].get(x, 0) + v
        funcs |= set(d['functions'])
        samples += [f"{j['entry']}: {s}" for s in d['samples'][:2]]
        viols += [(j, v) for v in d['violations']]
        traces += [(j, t) for t in d['traces']]
        probes += [(j, t, k) for k, t in enumerate(d['probes']) if t['generic']]
    # ---- replay
    confirmed, knownhits, unreproduced = [], [], []
    seen = set()
    for n, (j, v) in enumerate(viols):
        if len(confirmed) >= 3: break
        p = f'{rd}/{j["entry"]}-{n}.txt'
        open(p, 'w').write(f'# property {prop} entry {j["entry"]} violated check: {v["id"]}\n# at {v["at"]}\n' + v['replay'])
        st, out = replay(nat[j['crate']], j['entry'], p, tier)
        hit = is_known(j, v)
        if st == 'violated' and hit: knownhits.append(hit[0]); continue
        (confirmed if st == 'violated' else unreproduced).append((j, v, p, st, out))
    val = dict(ok=0, bad=[])
    for n, (j, t) in enumerate(traces):
        p = f'{rd}/trace-{j["entry"]}-{n}.txt'
        open(p, 'w').write(t['replay'])
        st, out = replay(nat[j['crate']], j['entry'], p, tier)
        want_panic = t['panicked']
        ok = st == 'held' and (('ended by a' in out) == want_panic)
        if ok: val['ok'] += 1; os.remove(p)
        else:
            val['bad'].append(f'{j["entry"]}: {st} {out[-200:].strip()} (generic={t["generic"]})')
            if st == 'violated' and t['generic'] and not confirmed: confirmed.append((j, dict(id='native run of a symbolic path: ' + out.strip()[-120:], at='', replay=t['replay']), p, st, out))
    # paths the engine could not follow to their end: run natively from their inputs, what comes after is sampled
    probes = [(j, t) for j, t, _ in sorted(probes, key=lambda x: x[2])][:120 if tier == 'quick' else 600]
    def probe(a):
        n, (j, t) = a
        p = f'{rd}/probe-{j["entry"]}-{n}.txt'
        open(p, 'w').write(f'# probe {n + 1}\n' + t['replay'])
        st, out = replay(nat[j['crate']], j['entry'], p, tier)
        if st != 'violated': os.remove(p)
        return j, t, p, st, out
    tp = time.time()
    if not confirmed:
        with cf.ThreadPoolExecutor(8) as ex: pr = list(ex.map(probe, enumerate(probes)))
        tot['probes_held'] = sum(x[3] == 'held' for x in pr)
        for j, t, p, st, out in [x for x in pr if x[3] == 'violated'][:3]:
            confirmed.append((j, dict(id='native run from an unfinished symbolic path: ' + out.strip()[-120:], at='', replay=open(p).read()), p, st, out))
    # ---- report
    wall = time.time() - T0
    missing = [f'{e}: no result' for e in {j['entry'] for j, _, _ in jobs} - set(per)] if not stop else []
    missing += [f'{j["entry"]}: no check reached' for j, _ in res if per[j['entry']]['checks'] + per[j['entry']]['panicked'] == 0]
    miss_ids = [i for i in P.get('must_check', []) if i not in maps['check_ids']]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(confirmed),
        assumptions=COMMON + P.get('assumptions', []),
        coverage=dict(
            states=tot['paths'] + tot['forks'] + tot['concretisations'], transitions=tot['steps'], traces_validated_against_impl=val['ok'], traces_disagreeing=val['bad'][:10], unfinished_paths_run_natively=tot.get('probes_held', 0),
            samples=samples[:12], technique='symbolic execution of the LLVM IR of the code in /repo; z3 (QF_BV incremental, NRA) decides feasibility and assertions',
            bounds=P['bounds'], paths=tot['paths'], returned=tot['returned'], panicked_as_allowed=tot['panicked'], infeasible=tot['infeasible'], forks=tot['forks'], concretisations=tot['concretisations'],
            assertions=tot['checks'], assertions_by_id=maps['check_ids'], assertions_by_bv_query=tot['checks_bv_solver'], assertions_over_reals=tot['checks_real'], assertions_by_polynomial_normal_form=tot['checks_real_normal_form'], normal_form_verdicts_put_to_z3=tot['z3_real_equalities_asked'], normal_form_verdicts_agreed_by_z3=tot['z3_real_equalities_unsat'],
            equality_cases=tot['equality_cases'],
            solver={k: v for k, v in tot.items() if k.startswith('z3_') or k == 'solver_secs'}, build_s=round(tb, 2),
            functions_encoded=sorted(funcs), outside_the_claim=dict(cuts=maps['cuts'], undecided=maps['undecided'], unsupported=maps['unsupported'], paths_dropped_for_time=tot['dropped'], shards_without_result=late),
            known_findings=[k[3] for k in knownhits], not_reproduced=[f'{j["entry"]}: {v["id"]} at {v["at"]}: {st}' for j, v, p, st, out in unreproduced][:10], per_entry=per))
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {tot["paths"]} paths, {tot["steps"]} instructions, {tot["checks"]} assertions, {tot["z3_bv_queries"]}+{tot["z3_nra_queries"]}+{tot["z3_real_equalities_asked"]} z3 queries (bits, reals, real equalities) in {tot["solver_secs"]:.1f}s, {val["ok"]}/{len(traces)} paths validated natively, build {tb:.0f}s, wall {wall:.0f}s')
    for x in late: print('  outside the claim:', x)
    for k in ('cuts', 'undecided', 'unsupported'):
        for x, v in sorted(maps[k].items(), key=lambda y: -y[1])[:8]: print(f'  outside the claim: {k}: {v} x {x[:220]}')
    if tot['dropped']: print(f'  outside the claim: {tot["dropped"]} paths dropped for time')
    for b in val['bad'][:5]: print('  trace disagreement:', b[:300])
    for k in {k[3] for k in knownhits}: print(f'KNOWN-FINDING: property={prop} {k}')
    if confirmed:
        try: dev = build_native(confirmed[0][0]['crate'], 'dev')
        except Exception as e: dev = None
        for n, (j, v, p, st, out) in enumerate(confirmed):
            keep = f'{B}/violation-{prop}-{n}.txt'
            open(keep, 'w').write(open(p).read())
            d2 = replay(dev, j['entry'], keep, tier)[0] if dev else 'not built'
            print(f'  {j["entry"]}: {v["id"]} {v["at"]}; native replay: release {st}, dev {d2}: {out.strip()[-400:]}')
            print(f'VIOLATION property={prop} replay={keep}')
        return 1
    if unreproduced:
        for j, v, p, st, out in unreproduced[:5]: print(f'  NOT REPRODUCED {j["entry"]}: {v["id"]} at {v["at"]}: {st} {out[-300:]} ({p})')
        return 2
    if missing or miss_ids or tot['z3_bv_errors'] + tot['z3_nra_errors']:
        print('  vacuous or solver errors:', sorted(set(missing)), miss_ids)
        return 2
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Err as e:
        print(f'ERROR: {e}')
        sys.exit(2)
