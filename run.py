#!/usr/bin/env python3
"""Decides one property: builds bitcode of /repo's current sources with the harness and the MPI model, has vpsym
execute it symbolically and the solver decide every assertion, and replays counterexamples on natively compiled code.
usage: run.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep]"""
import sys, os, json, subprocess, tempfile, shutil, time, threading, re, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, V)
import jobs as JOBS

CLANG, LINK, OPT, NM = 'clang++-18', 'llvm-link-18', 'opt-18', 'llvm-nm-18'
INC = [f'-I{V}/model/fake', f'-I{V}/model', f'-I{V}/harness', f'-I{REPO}/src']
BASE = ['-std=gnu++17', '-Wno-everything', '-DFFT_MEMALIGN=64', '-fno-exceptions', '-fno-rtti', '-ffp-contract=off'] + INC
PASSES = 'function(sroa,instsimplify,early-cse,simplifycfg<no-switch-to-lookup;no-speculate-blocks>,lowerswitch,loop-simplify,lcssa)'
WRAP = '-Wl,' + ','.join('--wrap=' + w for w in 'malloc free realloc calloc posix_memalign aligned_alloc exit abort _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm'.split())
T0 = time.time()

class CheckError(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode: raise CheckError(' '.join(cmd)[:400] + '\n' + r.stderr[-3000:])
    return r.stdout

ORIG = 'error fft2d fft2d_wrap fft3d fft3d_wrap library memory remap2d remap2d_wrap remap3d remap3d_wrap'.split()
def repo_srcs(b): return [f'{REPO}/src/{s}' for s in b['repo']] + sorted(p for p in glob.glob(f'{REPO}/src/*.cpp') if os.path.basename(p)[:-4] not in ORIG)  # files that split off belong to every build
def vp_srcs(b): return [f'{V}/harness/{s}' for s in b['harness']] + [f'{V}/model/mpi_model.cpp']
def harness_defs(b): return b.get('hdefs', [])

def build_bc(b, wd):
    """bitcode of one build; also the names of the repository's functions in it"""
    d = f'{wd}/bc-{b["name"]}'; os.makedirs(d)
    def one(a):
        i, s, repo = a
        out = f'{d}/{i}.bc'
        sh([CLANG, '-O0', '-Xclang', '-disable-O0-optnone'] + BASE + b['defs'] + ([] if repo else harness_defs(b)) + (['-fno-builtin'] if 'libc.cpp' in s else []) + ['-emit-llvm', '-c', s, '-o', out]); return out, repo
    todo = [(i, s, r) for i, (s, r) in enumerate([(s, False) for s in vp_srcs(b) + [f'{V}/model/libc.cpp']] + [(s, True) for s in repo_srcs(b)])]
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, todo))
    sh([LINK] + [o for o, _ in outs] + ['-o', f'{d}/l.bc']); sh([OPT, '-passes=' + PASSES, f'{d}/l.bc', '-o', f'{d}/m.bc'])
    fns = set()
    for o, r in outs:
        if r:
            for l in sh([NM, '--defined-only', '--demangle', o]).splitlines():
                p = l.split(None, 2)
                if len(p) == 3 and p[1] in 'TtWwVv': fns.add(p[2].split('(')[0])
    return f'{d}/m.bc', fns

def build_native(b, wd, san):
    d = f'{wd}/nat-{b["name"]}-{san}'; os.makedirs(d, exist_ok=True); exe = f'{d}/replay'
    if os.path.exists(exe): return exe
    flags = ['-g', '-O1'] + (['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all'] if san == 'asan' else ['-fsanitize=memory', '-fno-omit-frame-pointer'])
    def one(a):
        i, s, repo = a
        sh([CLANG] + flags + BASE + b['defs'] + ([] if repo else harness_defs(b)) + ['-c', s, '-o', f'{d}/{i}.o']); return f'{d}/{i}.o'
    todo = [(i, s, r) for i, (s, r) in enumerate([(s, False) for s in vp_srcs(b) + [f'{V}/model/native.cpp']] + [(s, True) for s in repo_srcs(b)])]
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, todo))
    sh([CLANG] + flags + outs + [WRAP, '-lpthread', '-o', exe]); return exe

def inputs_text(params, inputs, reals):
    t = ''.join(f'param {k} {v}\n' for k, v in params.items())
    t += ''.join(f'input {k} {" ".join(map(str, v))}\n' for k, v in (inputs or {}).items())
    return t + ''.join(f'real {k} {v!r}\n' for k, v in (reals or {}).items())

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=101:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=102:print_stacktrace=1', MSAN_OPTIONS='exitcode=103')
def replay(exe, text, wd, name):
    f = f'{wd}/{name}.in'; open(f, 'w').write(text)
    try: r = subprocess.run([exe, f], capture_output=True, text=True, errors='replace', timeout=90, env=ENV, cwd=wd)
    except subprocess.TimeoutExpired: return 'timeout', ''
    if r.returncode == 0: return 'ok', r.stderr
    if r.returncode == 3: return 'assume', r.stderr
    if r.returncode < 0 or r.returncode in (1, 101, 102, 103): return 'violation', r.stderr
    return 'other', r.stderr

def run_job(j, bc, wd, jn, keepgoing=False):
    out = f'{wd}/{j["name"]}{"-k" if keepgoing else ""}.jsonl'
    left = JOBS.DEADLINE[TIER] - (time.time() - T0)
    res = dict(job=j['name'], leaves=[], errors=[], rc=None, wall=0.0, skipped=False)
    if left < 15: res['skipped'] = True; return res
    cmd = [f'{V}/build/vpsym', '-j', str(jn), '-o', out, '-t', str(int(min(left, j.get('t', 300))))] + (['-k'] if keepgoing else []) + j.get('flags', [])
    for k, v in j['params'].items(): cmd += ['-p', f'{k}={v}']
    t = time.time()
    p = subprocess.Popen(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try: so, se = p.communicate(timeout=min(left, j.get('wall', 100000)))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); so, se = p.communicate(); res['errors'].append('time budget of the job used up'); res['timeout'] = True
    res['rc'] = p.returncode; res['wall'] = time.time() - t
    res['errors'] += sorted(set(l for l in se.splitlines() if 'ENGINE-ERROR' in l))[:20]
    if os.path.exists(out):
        for l in open(out):
            try: res['leaves'].append(json.loads(l))
            except ValueError: res['errors'].append('bad result line')
    return res

def main():
    global TIER
    a = sys.argv[1:]; pid = a[0]; TIER = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: TIER = a[a.index('--tier') + 1]
    only = a[a.index('--job') + 1] if '--job' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    subprocess.run(['make', '-s', '-C', f'{V}/engine'], check=True, stdout=subprocess.DEVNULL)
    spec = JOBS.PROPS[pid]; todo = [j for j in spec['jobs'] if TIER == 'thorough' or j.get('tier', 'quick') == 'quick']
    if TIER == 'thorough': todo = [j for j in todo if not j.get('quick_only')]
    if only: todo = [j for j in todo if re.fullmatch(only, j['name'])]
    wd = tempfile.mkdtemp(prefix=f'vp-{pid}-'); rc = 2
    try: rc = decide(pid, spec, todo, wd, seed)
    except CheckError as e: print('CHECK-ERROR', e); rc = 2
    finally:
        if '--keep' in a: print('kept', wd)
        else: shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def decide(pid, spec, todo, wd, seed):
    builds = {j['build']: JOBS.BUILDS[j['build']] for j in todo}
    bcs, fnsof = {}, {}
    with ThreadPoolExecutor(4) as ex:
        for n, (bc, fns) in zip(builds, ex.map(lambda n: build_bc(dict(builds[n], name=n), wd), builds)): bcs[n], fnsof[n] = bc, fns
    conc = spec.get('conc', 2); jn = max(1, 8 // conc + 1) if conc > 1 else 8
    stop = threading.Event(); results = {}
    def go(j):
        if stop.is_set(): return
        r = run_job(j, bcs[j['build']], wd, jn); results[j['name']] = r
        if any(l['status'] == 'violated' for l in r['leaves']): stop.set()
    with ThreadPoolExecutor(conc) as ex: list(ex.map(go, todo))
    confirmed, unconfirmed, inconclusive, notes = [], [], 0, []
    known = [k for k in JOBS.known(V) if k['property'] == pid and not k.get('fixed')]
    # ---- replay counterexamples on the compiled code
    def try_replay(j, r, limit):
        seen = {}
        for n, l in enumerate([l for l in r['leaves'] if l['status'] == 'violated']):
            kinds = sorted(set(v['kind'] for v in l['violation'])); key = (l['violation'][0]['kind'], l['violation'][0]['msg'])
            if seen.get(key, 0) >= 3 or len(seen) > limit: continue
            seen[key] = seen.get(key, 0) + 1
            b = dict(builds[j['build']], name=j['build']); text = inputs_text(j['params'], l.get('inputs'), l.get('reals')); st = er = None
            for san in (['msan', 'asan'] if kinds == ['uninit'] else ['asan'] + (['msan'] if 'uninit' in kinds else [])):
                st, er = replay(build_native(b, wd, san), text, wd, f'{j["name"]}-{n}-{san}')
                if st == 'violation': break
            if st == 'violation':
                m = re.search(r'REPLAY-VIOLATION (.*)|(ERROR: AddressSanitizer: [^\n]*)|(runtime error: [^\n]*)|(WARNING: MemorySanitizer: [^\n]*)', er); what = m.group(0) if m else (er.strip().splitlines() or ['crash'])[-1]
                k = next((k for k in known if k['job'] == j['name'] and re.search(k['match'], what) and all((l.get('inputs') or {}).get(x) == y for x, y in k.get('inputs', {}).items())), None)
                if k: notes.append(('known', k)); continue
                d = f'{V}/replays/{pid}'; os.makedirs(d, exist_ok=True); p = f'{d}/{j["name"]}.in'; open(p, 'w').write(text)
                json.dump(dict(property=pid, job=j['name'], build=j['build'], sanitizer=san, solver=l['violation'], choices=l.get('choices'), inputs=l.get('inputs'), reals=l.get('reals'), native=what, log=er[-6000:]), open(f'{d}/{j["name"]}.json', 'w'), indent=1)
                confirmed.append((j, l, what, p)); return True
            unconfirmed.append(dict(job=j['name'], native=st, solver=l['violation'][:2], inputs=l.get('inputs'), log=(er or '')[-300:]))
        return False
    for j in todo:
        r = results.get(j['name'])
        if not r or not any(l['status'] == 'violated' for l in r['leaves']): continue
        if try_replay(j, r, 6): break
    if not confirmed and unconfirmed or (not confirmed and notes):
        # the solver's first counterexamples did not reproduce (or are known): look at all cases
        for j in todo:
            r = results.get(j['name'])
            if r is None or any(l['status'] == 'violated' for l in r['leaves']):
                r = run_job(j, bcs[j['build']], wd, 8, keepgoing=True); results[j['name']] = r
                if any(l['status'] == 'violated' for l in r['leaves']) and try_replay(j, r, 12): break
    # ---- tally
    tot, fns, cov, samples, undecided, nleaf, nholds, skipped = {}, {}, {}, [], [], 0, 0, []
    perjob = []
    for j in todo:
        r = results.get(j['name'])
        if r is None: continue
        if r['skipped']: skipped.append(j['name']); continue
        h = sum(l['status'] == 'holds' for l in r['leaves']); nholds += h; nleaf += len(r['leaves']); bad = [l for l in r['leaves'] if l['status'] in ('unknown', 'vacuous', 'error')]
        inconclusive += len(bad); jc = {}
        for l in r['leaves']:
            for k, v in l.items():
                if isinstance(v, (int, float)) and k not in ('wall_s', 'maxrss_mb'): tot[k] = tot.get(k, 0) + v
            for n, c in l['functions']:
                n = n.split('(')[0]
                if n in fnsof[j['build']]: fns[n] = fns.get(n, 0) + c
            for k, v in l['covers'].items():
                if isinstance(v, dict) and not isinstance(jc.get(k), dict): jc[k] = v
                else: jc.setdefault(k, None)
        if h == 0 and not any(l['status'] == 'violated' for l in r['leaves']): undecided.append((j['name'], r['errors'][:3]))
        for k, v in jc.items():
            if v is None and not confirmed and not r.get('timeout') and not r['errors'] and not any(l['status'] == 'violated' for l in r['leaves']): undecided.append((j['name'], ['never reached: ' + k]))
            if v is not None: cov.setdefault(k, (j, v))
        if r['errors']: notes.append(('errors', dict(job=j['name'], errors=r['errors'][:5])))
        perjob.append(dict(job=j['name'], build=j['build'], params=j['params'], cases=len(r['leaves']), decided=h, wall_s=round(r['wall'], 1), bounds=j.get('bounds', '')))
    # ---- validate the model against the compiled code on the solver's witnesses
    validated, vfail = 0, []
    if not confirmed and not os.environ.get('VP_NOVALIDATE'):
        byb = {}
        for k, (j, w) in cov.items(): byb.setdefault(j['build'], []).append((k, j, w))
        def val(it):
            bn, ws = it; exe = build_native(dict(builds[bn], name=bn), wd, 'asan'); o = []
            for q, (k, j, w) in enumerate(ws): o.append((k, j, w, replay(exe, inputs_text(j['params'], w, None), wd, f'cov-{bn}-{q}')))
            return o
        with ThreadPoolExecutor(4) as ex:
            for o in ex.map(val, byb.items()):
                for k, j, w, (st, er) in o:
                    if st == 'ok': validated += 1; samples.append(dict(witness_of=k, job=j['name'], inputs=w, replayed_on_compiled_code='ok'))
                    else: vfail.append(dict(cover=k, job=j['name'], native=st, log=er[-300:], inputs=w))
    ev = dict(property=pid, tier=TIER, seed=seed, level=JOBS.LEVEL, wall_s=round(time.time() - T0, 1), violations=len(confirmed), assumptions=JOBS.ASSUME + spec.get('assume', []),
      coverage=dict(states=nleaf, transitions=int(tot.get('steps', 0)), traces_validated_against_impl=validated, samples=samples[:6] or [p['job'] for p in perjob[:3]],
        technique='symbolic execution of LLVM IR compiled from /repo/src on this run; assertions decided by z3 (QF_FD/BV, QF_LRA)', functions_encoded={k: fns[k] for k in sorted(fns)},
        bounds=spec['bounds'], outside_bounds=spec['outside'], cases=nleaf, cases_decided=nholds, cases_undecided=inconclusive, assertions=int(tot.get('assertions', 0)), assertions_simplified_to_true=int(tot.get('assertions_by_folding', 0)), assertions_decided_by_solver=int(tot.get('assertions_by_solver', 0)),
        solver_queries=int(tot.get('queries', 0)), solver_unsat=int(tot.get('queries_unsat', 0)), solver_sat=int(tot.get('queries_sat', 0)), linear_arithmetic_queries=int(tot.get('lra_queries', 0)), solver_s=round(tot.get('solver_s', 0), 1), symbolic_variables=int(tot.get('symbolic_inputs', 0)), jobs=perjob,
        reached={k: j['name'] for k, (j, _) in cov.items()}, counterexamples_not_reproduced=unconfirmed[:5], witnesses_not_reproduced=vfail[:5], jobs_skipped_for_time=skipped, engine_notes=[n[1] for n in notes if n[0] == 'errors'][:10]))
    os.makedirs(f'{V}/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {TIER}: {len(perjob)} jobs, {nleaf} cases ({nholds} hold, {inconclusive} undecided), {ev["coverage"]["assertions"]} assertions ({ev["coverage"]["assertions_decided_by_solver"]} by solver), {ev["coverage"]["solver_queries"]} queries, solver {ev["coverage"]["solver_s"]} s, {validated} witnesses replayed, wall {ev["wall_s"]} s')
    for n in notes:
        if n[0] == 'errors': print('note:', json.dumps(n[1])[:600])
    done = set()
    for n in notes:
        if n[0] == 'known' and n[1]['what'] not in done: done.add(n[1]['what']); print(f'KNOWN-FINDING: property={pid} {n[1]["what"]}')
    for u in unconfirmed[:5]: print('counterexample not reproduced on the compiled code (not reported as a violation):', json.dumps(u)[:800])
    for u in vfail[:5]: print('witness not reproduced:', json.dumps(u)[:600])
    for s in skipped: print('skipped for time:', s)
    if confirmed:
        j, l, what, p = confirmed[0]
        print(f'counterexample (job {j["name"]}): {l["violation"][0]["kind"]}: {l["violation"][0]["msg"]} at {l["violation"][0]["where"]}'); print('inputs:', json.dumps(l.get('inputs'))); print('compiled code:', what)
        print(f'VIOLATION property={pid} replay={p}'); return 1
    if undecided:
        for u in undecided: print('UNDECIDED', u)
        return 2
    return 0
if __name__ == '__main__': main()
