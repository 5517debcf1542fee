#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property for /repo's current working tree.

1. every contract registered for the property is re-verified from the current source (LLVM IR of the real code, Z3);
2. the property's native driver (real code, sanitizers, executable oracle) looks for a failing input: it replays the
   verifier's counterexamples and stands in, labelled bounded, for functions the verifier cannot reach.
exit 0: held; exit 1 + VIOLATION line: broken."""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt'
NCPU = os.cpu_count() or 4
ALL = '''block.c codecs.c dict.c low.c log.c request.c request_parser.c response.c handler.c sessions.c sessions_mem.c ptr_list.c websocket.c
    listen_point.c poller.c onion.c url.c mime.c http.c https.c version.c random-gnutls.c shortcuts.c handlers/static.c'''.split()


def proofs_for(prop):
    """[(module, proof)] found by reading the spec files (no z3 in this process)"""
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', 's_*.py'))):
        t = open(f).read()
        for m in re.finditer(r"^@proof\(((?:[^()]|\([^()]*\))*)\)\s*\n(?:#.*\n)*def (\w+)", t, re.M):
            if "'%s'" % prop in m.group(1).split('[')[0] or ("'%s'" % prop) in m.group(1).split("'onion")[0]:
                ids = re.match(r"\s*(\[[^\]]*\]|'[A-Z0-9]+')", m.group(1)).group(1)
                if "'%s'" % prop not in ids:
                    continue
                b = re.search(r'budget=(\d+)', m.group(1))
                tier = re.search(r"tier='(\w+)'", m.group(1))
                fm = re.match(r"\s*(?:\[[^\]]*\]|'[A-Z0-9]+')\s*,\s*'([^']*)'", m.group(1))
                out.append((os.path.basename(f)[:-3], m.group(2), int(b.group(1)) if b else 150, tier.group(1) if tier else 'quick', fm.group(1)))
    return out


def run_proof(mod, name, budget):
    t = time.time()
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'engine', 'worker.py'), mod, name, str(budget)], capture_output=True, text=True,
                           timeout=budget + 90)
        lines = [x for x in r.stdout.splitlines() if x.startswith('{')]
        if lines:
            return json.loads(lines[-1])
        return dict(proof=name, status='unreachable', detail='worker died: ' + (r.stderr or '')[-500:], wall_s=time.time() - t)
    except subprocess.TimeoutExpired:
        return dict(proof=name, status='budget', detail='hard timeout', wall_s=time.time() - t)


# ---------------------------------------------------------------------------- native
def native_build(prop, scratch):
    src = os.path.join(HERE, 'native', prop + '.c')
    if not os.path.exists(src):
        return None, 'no native driver'
    txt = open(src).read()
    m = re.search(r'//\s*SOURCES:\s*(.*)', txt)
    libs = re.search(r'//\s*LIBS:\s*(.*)', txt)
    cxx = re.search(r'//\s*CFLAGS:\s*(.*)', txt)
    import front
    fl = front.flags() + ['-I' + os.path.join(HERE, 'native'), '-I' + os.path.join(REPO, 'src/onion'), '-DREPO="%s"' % REPO]
    fl += (cxx.group(1).split() if cxx else [])
    san = ['-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
           '-fno-sanitize=shift,alignment,nonnull-attribute,pointer-overflow,function,vptr', '-fno-sanitize-recover=all']
    jobs = [(src, os.path.join(scratch, 'driver.o'))]
    srcs = (m.group(1).split() if m else [])
    if '@all' in srcs:      # the whole server library, as configured here
        srcs = [x for x in srcs if x != '@all'] + ALL
    for s in srcs:
        jobs.append((os.path.join(REPO, 'src/onion', s), os.path.join(scratch, s.replace('/', '_') + '.o')))

    def comp(j):
        return subprocess.run(['clang-18', *san, *fl, '-c', j[0], '-o', j[1]], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(comp, jobs):
            if r.returncode:
                return None, 'compile: ' + r.stderr[-1500:]
    exe = os.path.join(scratch, 'driver')
    r = subprocess.run(['clang-18', *san, *[j[1] for j in jobs], '-o', exe, *(libs.group(1).split() if libs else []), '-lpthread', '-lm'],
                       capture_output=True, text=True)
    if r.returncode:
        return None, 'link: ' + r.stderr[-1500:]
    return exe, ''


def native_run(exe, scratch, ms, seed, hints=None, shards=NCPU):
    """run the driver in parallel shards; returns (ok, cases, output of the failing shard)"""
    def one(i):
        d = os.path.join(scratch, 'w%d' % i)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(seed), VF_SHARD=str(i), VF_SHARDS=str(shards), VF_MS=str(ms), VF_DIR=d,
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048',
                   UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        if hints:
            hf = os.path.join(d, 'hints')
            open(hf, 'w').write('\n'.join(hints) + '\n')
            env['VF_HINTS'] = hf
        try:
            r = subprocess.run([exe], capture_output=True, env=env, cwd=d, timeout=ms / 1000.0 + 60)
            return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
        except subprocess.TimeoutExpired as e:
            return 'hang', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')
    cases, samples = 0, []
    distinct = 0
    fail = None
    with cf.ThreadPoolExecutor(shards) as ex:
        for i, (rc, o, e) in enumerate(ex.map(one, range(shards))):
            m = re.search(r'^OK cases=(\d+) nontrivial=(\d+)', o, re.M)
            if m:
                cases += int(m.group(1))
                distinct += int(m.group(2))
            samples += re.findall(r'^SAMPLE (.*)$', o, re.M)[:2]
            if (rc != 0 or not m) and fail is None:
                fail = dict(rc=rc, shard=i, out=('\n'.join(re.findall(r'^FAIL: .*$', o, re.M))[:3000] + '\n' + o[-4000:]), err=e[-6000:])
    return fail, cases, distinct, samples[:6]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + '-replay.txt')
    scratch = tempfile.mkdtemp(prefix='vfn-')
    try:
        rc = decide(prop, tier, seed, t0, evdir, replay, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, evdir, replay, scratch):
    ps = [p for p in proofs_for(prop) if tier == 'thorough' or p[3] == 'quick']
    scale = 1.0 if tier == 'quick' else 3.0
    ms = 12000 if tier == 'quick' else 120000
    exe, why = native_build(prop, scratch)
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(run_proof, p[0], p[1], p[2] * scale) for p in sorted(ps, key=lambda p: -p[2])]
        for f in futs:
            results.append(f.result())
    by = {r['proof']: r for r in results}
    failed = [r for r in results if r['status'] == 'failed']
    noterm = [r for r in results if r['status'] == 'noterm']
    hints = []
    for r in failed:
        for f in r.get('failures', []):
            for k, v in f['counterexample'].items():
                if not k.startswith('_') and v not in hints:
                    hints.append(v)
    nat = None
    cases = distinct = 0
    samples = []
    if exe:
        nat, cases, distinct, samples = native_run(exe, scratch, ms, seed, hints)
        if nat is None and (failed or noterm):      # search harder for a failing input
            nat, c2, d2, s2 = native_run(exe, scratch, 60000 if tier == 'quick' else 300000, seed + 7919, hints)
            cases += c2
            distinct += d2
    violated = bool(nat or failed)
    ob = sum(r.get('stats', {}).get('obligations', 0) for r in results)
    di = sum(r.get('stats', {}).get('discharged', 0) for r in results)
    proved = [r for r in results if r['status'] == 'proved' and not r.get('bounded')]
    contracts = sorted({c for r in results for c in r.get('contracts_used', [])})
    lem = {}
    for r in results:
        lem.update(r.get('lemmas', {}))
    ass = ['libc / allocator / logging calls follow the contracts in engine/models.py: ' + ', '.join(contracts),
           'clang 18 -O0 + mem2reg lowers the C source faithfully; the engine (engine/sym.py) and Z3 are sound',
           'input sizes bounded as stated in each contract (strings < 2^28 bytes) so that the int-typed API cannot overflow',
           'allocation failure aborts the process (onion_low_* contract)', 'sequential execution inside one call (locks are no-ops in the proofs)']
    notes = os.path.join(HERE, 'specs', 'assumptions.json')
    if os.path.exists(notes):
        ass += json.load(open(notes)).get(prop, [])
    for r in results:
        if r['status'] not in ('proved', 'failed'):
            ass.append('NOT PROVED (%s: %s): %s decided only by the bounded native driver' % (r['status'], (r.get('detail') or '')[:200], r['proof']))
    ev = dict(property=prop, tier=tier, seed=seed, level=('proof' if proved else 'exploration'), wall_s=0.0, violations=1 if violated else 0, assumptions=ass,
              coverage=dict(
        obligations=ob, discharged=di, checker_cmd='%s engine/worker.py <spec> <proof> <budget>' % PY,
        trusted_base=['engine/ir.py, engine/sym.py (VC generator)', 'Z3 (python3-vt z3-solver)', 'clang-18, opt-18 mem2reg', 'engine/models.py contracts: ' + ', '.join(contracts)],
        back_end='Z3 (SMT, integers + bit-vectors + uninterpreted functions)',
        solver_s=round(sum(r.get('stats', {}).get('solver_s', 0) for r in results), 2),
        solver_queries=sum(r.get('stats', {}).get('queries', 0) for r in results),
        functions_under_contract=sorted({r['func'] for r in results if r.get('func') and r['status'] == 'proved'}),
        functions_inlined=sorted({f for r in results for f in r.get('inlined', [])}),
        proofs=[dict(proof=r['proof'], function=r.get('func'), status=r['status'], bounded=r.get('bounded'), detail=(r.get('detail') or '')[:300],
                     obligations=r.get('stats', {}).get('obligations'), discharged=r.get('stats', {}).get('discharged'), wall_s=r.get('wall_s'),
                     houdini_passes=r.get('stats', {}).get('passes'), kinds=r.get('obligation_kinds')) for r in results],
        lemmas=lem, contracts_assumed=contracts,
        evaluations=cases, distinct_nontrivial=distinct,
        rule='native driver native/%s.c: real code under ASan/UBSan against an executable oracle; bounded, never counted as proved; non-trivial = reaches the property\'s non-empty case%s' % (prop, '' if exe else ' (not run: %s)' % why[:300]),
        samples=samples))
    kf = os.path.join(HERE, 'known-findings.txt')
    for line in (open(kf).read().splitlines() if os.path.exists(kf) else []):
        m = re.match(r'KNOWN-FINDING: property=%s\b' % prop, line)
        if m:
            print(line)
    rc = 0
    if violated:
        with open(replay, 'w') as f:
            if nat:
                f.write('native driver failed (exit %s, shard %s): failing input below\n%s\n%s\n' % (nat['rc'], nat['shard'], nat['out'], nat['err']))
                f.write('reproduce: cd /verif && VERIF_SEED=%d python3 run.py %s %s\n' % (seed, prop, tier))
            for r in failed:
                f.write('\nproof %s of %s FAILED\n' % (r['proof'], r['func']))
                for x in r.get('failures', []):
                    f.write('  obligation "%s" in %s line %s: %s\n    counterexample: %s\n' % (x['obligation'], x['function'], x['line'], x['solver'], json.dumps(x['counterexample'])[:4000]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if nat else ' no-failing-input-found'))
        rc = 1
    else:
        if os.path.exists(replay):
            os.unlink(replay)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d proofs, %d/%d obligations discharged, native %d cases%s, %.1fs' % (
        prop, len(proved), len(results), di, ob, cases, '' if exe else ' (NOT RUN: %s)' % why[:200], time.time() - t0))
    for r in results:
        if r['status'] != 'proved':
            print('  %s %s: %s %s' % (r['proof'], r.get('func'), r['status'], (r.get('detail') or '')[:300]))
            for x in r.get('failures', [])[:4]:
                print('     obligation "%s" %s:%s %s' % (x['obligation'], x['function'], x['line'], x['solver']))
    if nat:
        print('  native: ' + (nat['out'][-600:] + nat['err'][:1200]))
    return rc


if __name__ == "__main__":
    main()
