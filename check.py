#!/usr/bin/env python3
"""Decides one property: compiles its harnesses against /repo's current sources to LLVM IR, executes the IR
symbolically (engine/kse.cpp, Z3), replays every counterexample natively, writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough] [--only harness] [--keep] [--verbose]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (an error of the check)."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KPSR_DEV_REPO', '/repo')    # development only: try a check on a scratch copy
B = os.path.join(V, '.build')
CLANG = '/usr/bin/clang++-18'
INC = ['-I' + V + '/rt', '-I' + V + '/stubs', '-I' + V + '/harness'] + ['-I%s/%s' % (REPO, d) for d in (
    'core/modules/core/include', 'core/modules/mem_mdlw/include', 'core/modules/socket_mdlw/include', 'core/modules/zmq_mdlw/include',
    'high_performance/modules/high_performance/include', 'state_machine/modules/state_machine/include',
    'state_machine/modules/json_conf/include', 'serialization/modules/serialization/include')]
# the thread sanitizer's attribute keeps the optimiser from speculating loads (they would look like races); it instruments nothing
CFLAGS = ['-std=c++17', '-fsanitize=thread'] + [x for k in ('memory-accesses', 'func-entry-exit', 'atomics', 'memintrinsics') for x in ('-mllvm', '-tsan-instrument-%s=0' % k)] + ['-O1', '-g', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-overflow', '-faligned-new', '-fno-stack-protector',
          '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_FORTIFY_SOURCE=0', '-DHAS_EPOLL', '-w', '-emit-llvm']

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)

def engine():
    """build the engine and the runtime models unless the ones built from these very files are there"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        files = sorted(glob.glob(V + '/engine/*') + glob.glob(V + '/rt/*'))
        for f in files:
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, 'rb').read())
        stamp = os.path.join(B, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        jobs = [['bash', V + '/engine/build.sh', B]]
        for m in ('support', 'support_exc', 'support_c', 'support_thr', 'support_str', 'support_fut', 'support_ios'):
            jobs.append([CLANG] + CFLAGS + ['-fno-builtin', '-I' + V + '/rt', '-c', V + '/rt/%s.cpp' % m, '-o', B + '/%s.bc' % m])
        jobs.append(['/usr/bin/clang++-18', '-std=c++17', '-O1', '-g', '-w', '-c', V + '/rt/replay_rt.cpp', '-o', B + '/replay_rt.o'])
        jobs.append(['/usr/bin/clang++-18', '-std=c++17', '-O1', '-g', '-w', '-DKSE_TSAN', '-c', V + '/rt/replay_rt.cpp', '-o', B + '/replay_tsan.o'])
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(run, jobs):
                if r.returncode:
                    print(r.stdout); print('ERROR: engine build failed'); sys.exit(2)
        open(stamp, 'w').write(h.hexdigest())

def parse(f):
    """harness metadata: '//! key: value' lines; those before the first harness marker are file-level"""
    filemeta, hs, cur = {}, [], None
    for line in open(f):
        m = re.match(r'\s*//!\s*([a-z-]+):\s*(.*)$', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'harness':
            cur = {'name': v, 'file': f}
            hs.append(cur)
        elif cur is None:
            filemeta[k] = (filemeta.get(k, '') + ' ' + v).strip()
        else:
            cur[k] = (cur.get(k, '') + ' ' + v).strip()
    for h in hs:
        h['meta'] = filemeta
    return hs

def all_harnesses():
    r = []
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        r += parse(f)
    return r

class BuildError(Exception):
    pass

def compile_file(f, meta, work, tier):
    base = os.path.join(work, os.path.basename(f)[:-4])
    flags = CFLAGS + meta.get('cflags', '').replace('$V', V).replace('$R', REPO).split() + INC + ['-DKSE_THOROUGH=%d' % (tier == 'thorough')]
    srcs = [f] + [s.replace('$R', REPO).replace('$V', V) for s in meta.get('src', '').split()]
    bcs = []
    def one(i):
        o = '%s.%d.bc' % (base, i)
        r = run([CLANG] + flags + ['-c', srcs[i], '-o', o], timeout=300)
        if r.returncode:
            raise BuildError('%s does not compile:\n%s' % (srcs[i], r.stdout[-3000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, range(len(srcs))))
    h = base + '.h.bc'
    r = run(['/usr/bin/llvm-link-18'] + bcs + ['-o', h])
    if r.returncode:
        raise BuildError('link: ' + r.stdout[-2000:])
    full = base + '.full.bc'
    r = run(['/usr/bin/llvm-link-18', h] + [B + '/%s.bc' % m for m in ['support', 'support_exc', 'support_c', 'support_thr', 'support_str', 'support_fut'] + meta.get('support', '').split()] + ['-o', full])
    if r.returncode:
        raise BuildError('link: ' + r.stdout[-2000:])
    return h, full

def run_harness(h, full, work, tier, verbose):
    out = os.path.join(work, h['name'] + '.json')
    opts = (h.get('thorough-opts') if tier == 'thorough' and 'thorough-opts' in h else h.get('opts', '')).split()
    tl = float((h.get('thorough-time') if tier == 'thorough' else None) or h.get('time') or (600 if tier == 'thorough' else 150))
    cmd = [B + '/kse', full, '--entry=kse_main_' + h['name'], '--out=' + out, '--time=%g' % tl] + opts
    if verbose:
        cmd.append('--verbose')
    try:
        r = run(cmd, timeout=tl + 120)
    except subprocess.TimeoutExpired:
        return {'error': 'engine did not stop within its time limit', 'harness': h}
    if verbose:
        print(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        return {'error': 'engine failed (%d): %s' % (r.returncode, r.stdout[-1500:]), 'harness': h}
    j = json.load(open(out))
    j['harness'] = h
    j['time_limit'] = tl
    j['opts'] = opts
    return j

REPLAY_SH = '''#!/bin/bash
# replays the counterexample against the natively compiled code; exit 77 = reproduced
cd "$(dirname "$0")"
KSE_REPLAY=inputs.txt ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0 timeout 60 ./replay
echo "exit status $?"
'''

def replay(h, viol, hbc, rdir):
    """compile the harness natively and run it with the counterexample; returns (reproduced, text)"""
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    with open(rdir + '/inputs.txt', 'w') as f:
        for n, w, v in viol['inputs']:
            f.write('input %s %d\n' % (n, v))
        f.write('sched ' + ' '.join(map(str, viol['sched'])) + '\n')
    json.dump(viol, open(rdir + '/violation.json', 'w'), indent=1)
    race = viol['kind'] == 'race'
    link = rdir + '/l.bc'
    mods = [hbc, B + '/support_thr.bc', B + '/support_fut.bc']
    r = run(['/usr/bin/llvm-link-18'] + mods + ['-o', link])
    if r.returncode: return False, r.stdout
    r = run([B + '/kse-instr', '--mode=' + ('tsan' if race else 'sched'), '--entry=kse_main_' + h['name'], link, rdir + '/r.bc'])
    if r.returncode: return False, r.stdout
    san = '-fsanitize=thread' if race else '-fsanitize=address'
    libs = h['meta'].get('libs', '').split()
    r = run([CLANG, '-O1', '-g', '-w', san, B + ('/replay_tsan.o' if race else '/replay_rt.o'), rdir + '/r.bc', '-o', rdir + '/replay', '-lpthread'] + libs)
    if r.returncode: return False, 'native build failed: ' + r.stdout[-2000:]
    for x in ('l.bc', 'r.bc'):
        os.remove(rdir + '/' + x)
    open(rdir + '/replay.sh', 'w').write(REPLAY_SH); os.chmod(rdir + '/replay.sh', 0o755)
    env = dict(os.environ, KSE_REPLAY=rdir + '/inputs.txt', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0', TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_thread_leaks=0 history_size=4')
    text = ''
    for attempt in range(2 if race else 1):
        try:
            r = run([rdir + '/replay'], timeout=40, env=env, cwd=rdir)
        except subprocess.TimeoutExpired:
            if viol['kind'] == 'deadlock':
                return True, 'the replay hangs'
            text = 'replay timed out'
            continue
        text = r.stdout[-3000:]
        rc = r.returncode
        open(rdir + '/output.txt', 'w').write(r.stdout)
        if race:
            if 'data race' in r.stdout or r.returncode == 77: return True, text
            continue
        if rc == 77: return True, text
        if rc in (78, 79): return False, 'diverged: ' + text
        if rc != 0: return True, text   # crash, sanitizer report, std::terminate
    return False, text

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    engine()
    if a.setup:
        print('engine built'); return 0
    tier = a.tier
    hs = [h for h in all_harnesses() if a.prop in h.get('prop', '').split() and (not a.only or h['name'] == a.only)]
    hs = [h for h in hs if tier == 'thorough' or h.get('tier') != 'thorough']
    if not hs:
        print('ERROR: no harness for', a.prop); return 2
    work = os.path.join(B, 'work', '%s-%s-%d' % (a.prop, tier, os.getpid()))
    os.makedirs(work, exist_ok=True)
    results, errors, bcs = [], [], {}
    files = {}
    for h in hs:
        files.setdefault(h['file'], h['meta'])
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            cfut = {f: ex.submit(compile_file, f, m, work, tier) for f, m in files.items()}
            for f, u in cfut.items():
                try:
                    bcs[f] = u.result()
                except (BuildError, subprocess.TimeoutExpired) as e:
                    errors.append(str(e))
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(run_harness, h, bcs[h['file']][1], work, tier, a.verbose) for h in hs if h['file'] in bcs]
            for u in futs:
                results.append(u.result())
        known = []
        kf = V + '/known_findings.json'
        if os.path.exists(kf):
            known = json.load(open(kf)).get('findings', [])
        rc = 0
        nviol = 0
        seen_known = set()
        incomplete = []
        samples = []
        for r in results:
            h = r['harness']
            if 'error' in r:
                errors.append(h['name'] + ': ' + r['error']); continue
            if r['unsupported']:
                errors.append('%s: not encodable: %s' % (h['name'], '; '.join(list(r['unsupported'])[:3])))
            if not r['complete']:
                incomplete.append('%s: %s' % (h['name'], ', '.join(r['truncation']) or 'stopped at the violation limit'))
            missing = [x for x in h.get('reach', '').split() if x not in r['reach']]
            vs = []
            for i, v in enumerate(r['violations']):
                k = [x for x in known if x.get('status') == 'open' and x['property'] == a.prop and x['harness'] == h['name'] and x['kind'] == v['kind'] and x['label'] == v['label'] and x.get('where', v['where']) == v['where']]
                if k:
                    if k[0]['id'] not in seen_known:
                        seen_known.add(k[0]['id'])
                        print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]['what']))
                    continue
                vs.append((i, v))
            if missing and not vs:
                errors.append('%s: vacuous: %s not reached' % (h['name'], ', '.join(missing)))
            unconf = []
            for i, v in sorted(vs, key=lambda x: x[1]['kind'] == 'race'):
                rdir = os.path.join(V, 'replays', a.prop, '%s-%d' % (h['name'], i)) if REPO == '/repo' else os.path.join(work, 'replay-%s-%d' % (h['name'], i))
                if nviol >= 3:
                    continue    # enough confirmed counterexamples
                ok, text = (True, '') if a.no_replay else replay(h, v, bcs[h['file']][0], rdir)
                what = '%s in %s: %s%s' % (v['kind'], h['name'], v['label'], ' at ' + v['where'] if v['where'] else '')
                ins = ', '.join('%s=%d' % (n, x if x < 1 << (w - 1) else x - (1 << w)) for n, w, x in v['inputs'][:24])
                if ok:
                    nviol += 1
                    rc = 1
                    print('VIOLATION property=%s replay=%s' % (a.prop, rdir))
                    print('   %s' % what)
                    print('   inputs: %s%s' % (ins, '  schedule: %s' % v['sched'] if v['sched'] else ''))
                    samples.append({'violation': what, 'inputs': ins, 'schedule': v['sched'][:200]})
                else:
                    unconf.append('%s: counterexample not reproduced natively: %s [%s] %s' % (h['name'], what, ins, text.strip()[-400:]))
            errors += unconf
        ok = [r for r in results if 'error' not in r]
        S = lambda k: sum(r[k] for r in ok)
        lines = {}
        for r in ok:
            for f, n in r['lines'].items():
                lines[f] = max(lines.get(f, 0), n)
        fns = sorted(set(x for r in ok for x in r['functions']))
        ev = {
            'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
            'coverage': {
                'states': S('states'), 'transitions': S('instructions'),
                'traces_validated_against_impl': nviol,
                'paths_completed': S('paths'), 'forks': S('forks'), 'scheduling_points': S('sched_points'), 'equivalent_schedules_pruned': S('pruned'),
                'queries_discharged': S('queries'), 'queries_answered_from_cache': S('cached_queries'), 'queries_decided_by_folding': S('folded_queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'),
                'solver_seconds': round(S('solver_s'), 3), 'slowest_query_s': max([r['max_query_s'] for r in ok] or [0]),
                'assertions_decided_by_solver': S('asserts_symbolic'), 'assertions_decided_by_folding': S('asserts_constant'),
                'functions_encoded': fns, 'source_lines_encoded': lines,
                'harnesses': [{'name': r['harness']['name'], 'complete': r['complete'], 'paths': r['paths'], 'queries': r['queries'], 'wall_s': r['wall_s'], 'options': r['opts'], 'reached': r['reach'], 'assertions': r['asserts'], 'bounds': r['harness'].get('bounds', ''), 'outside': r['harness'].get('outside', ''), 'truncation': r['truncation']} for r in ok],
                'exhaustive': bool(ok) and all(r['complete'] for r in ok) and not errors,
                'samples': samples or [{'harness': r['harness']['name'], 'reached': list(r['reach'])[:6]} for r in ok[:3]],
                'solver': 'z3 (libz3 4.8.12): QF_BV, and linear integer arithmetic over an exact integer reading of the same terms',
            },
            'assumptions': sorted(set(x.strip() for h in hs for x in (h.get('assume', '') + ';' + h['meta'].get('assume', '')).split(';') if x.strip())) + [
                'clang-18 -O1 lowering of the real sources; heap addresses are never reused; allocation never fails',
                'libstdc++ runtime functions without IR are modelled in /verif/rt'],
            'wall_s': round(time.time() - t0, 2), 'violations': nviol,
        }
        if incomplete: ev['coverage']['incomplete'] = incomplete
        if errors: ev['coverage']['errors'] = [e[:600] for e in errors]
        evdir = V + '/evidence' if REPO == '/repo' else work
        os.makedirs(evdir, exist_ok=True)
        json.dump(ev, open(evdir + '/%s.json' % a.prop, 'w'), indent=1)
        for x in incomplete: print('INCOMPLETE', x)
        for e in errors: print('ERROR', e)
        if rc == 0 and errors: rc = 2
        print('%s %s: %d harnesses, %d paths, %d queries, solver %.1fs, wall %.1fs -> %s' % (a.prop, tier, len(ok), S('paths'), S('queries'), S('solver_s'), time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'no answer'}[rc]))
        return rc
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
