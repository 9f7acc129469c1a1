#!/usr/bin/env python3
"""Runner: build the MIR dumper, dump /repo's current MIR, analyse it for one property.

  check.py C05 [--tier quick|thorough]     exit 0 / exit 1 + VIOLATION line
"""
import sys, os, json, time, subprocess, hashlib, shutil, tempfile, importlib, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
BUILD = os.path.join(HERE, 'build')
DRIVER = os.path.join(BUILD, 'driver', 'release', 'mirdump')

def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()

def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'src/main.rs', 'rust-toolchain.toml'):
        p = os.path.join(HERE, 'driver', f)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    stamp = os.path.join(BUILD, 'driver.stamp')
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'), CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], cwd=os.path.join(HERE, 'driver'), env=env)
    if r.returncode: raise SystemExit('cannot build the MIR driver')
    open(stamp, 'w').write(h.hexdigest())

def dump(out, tests=False):
    """compile /repo's crate with the dumper; returns None or the compiler's complaint"""
    s = sysroot(); tmp = tempfile.mkdtemp(prefix='mirdump')
    env = dict(os.environ, LD_LIBRARY_PATH=s + '/lib', MIRDUMP_OUT=out)
    cmd = [DRIVER, '--sysroot', s, '--edition', '2018', '--crate-name', 'rmath', '--crate-type', 'lib',
           '--cfg', 'rmath_avx2="support"', '--cfg', 'rmath_rdseed="support"', '--cfg', 'rmath_rdrand="support"',
           '--cap-lints', 'allow', '-Zmir-opt-level=0', '-C', 'overflow-checks=on', '-C', 'debug-assertions=off',
           os.path.join('src', 'lib.rs'), '--out-dir', tmp]
    try:
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode or not os.path.exists(out): return r.stderr[-2000:]
    return None

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()
MOD = None; LIM = 60
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
def work(spec):
    import lib, dom, gc
    from interp import Budget
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(LIM)
    t = time.time()
    try:
        dom.reset_atoms(); lib.WT[0] = 0; lib.DERIVE[0] = None; lib.PARTIAL.clear()
        r = MOD.job(spec)
    except Timeout: r = [x for l in lib.PARTIAL for x in l if x[1] == 'violated'] + [(str(spec)[:200], 'undecided', 'time limit of the analysis')]
    except MemoryError: r = [(str(spec)[:200], 'undecided', 'memory limit of the analysis')]
    except Budget: r = [(str(spec)[:200], 'undecided', 'step limit of the analysis')]
    except lib.Missing as e: r = [('missing:' + str(e), 'violated', 'the public operation %s does not exist any more' % e)]
    except (Exception, RecursionError) as e:
        r = [(str(spec)[:200], 'undecided', 'analysis error %s: %s' % (type(e).__name__, str(e)[:160]) + ' @' + traceback.format_exc().strip().splitlines()[-3].strip()[-80:])]
    finally: signal.alarm(0)
    return str(spec)[:160], r, time.time() - t

def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                a, k = l[len('finding: property='):].split(' ', 1)
                k, _, d = k.partition(' :: ')
                out[(a, k.strip())] = d.strip()
    return out

def main():
    global MOD, LIM
    a = sys.argv[1:]; prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in a
    t0 = time.time()
    if prop == '--setup': build_driver(); return 0
    build_driver()
    import registry
    reg = registry.PROPS[prop]
    work_dir = tempfile.mkdtemp(prefix='verif')
    try:
        out = os.path.join(work_dir, 'mir.json')
        err = dump(out)
        results = []
        if err: results.append(('build', 'violated', 'the crate does not compile: ' + err))
        else:
            from mir import Prog
            import lib
            lib.setprog(Prog(out)); lib.TIER = tier; lib.REPO = REPO
        timing = []; groups = {}
        if not err:
            from multiprocessing import Pool
            for modname, sel in reg['modules']:
                MOD = importlib.import_module(modname)
                LIM = getattr(MOD, 'QLIM', 40) if tier == 'quick' else 300
                try: specs = MOD.specs(sel)
                except lib.Missing as e:
                    results.append(('missing:' + str(e), 'violated', 'the public operation %s does not exist any more' % e)); continue
                n = min(8, max(1, len(specs) // 4))
                if n == 1: it = map(work, specs); pool = None
                else:
                    pool = Pool(n, initializer=limit, maxtasksperchild=60); it = pool.imap_unordered(work, specs, chunksize=1)
                for sp, r, t in it:
                    timing.append((t, sp)); results.extend(r)
                if pool: pool.close(); pool.join()
    finally: shutil.rmtree(work_dir, ignore_errors=True)
    return report(prop, tier, reg, results, timing, t0, verbose)

def report(prop, tier, reg, results, timing, t0, verbose):
    from collections import Counter
    cnt = Counter(r[1] for r in results)
    funcs = {r[0].split('|')[0] for r in results}
    viol = {}; und = []
    for r in results:
        if r[1] == 'violated': viol.setdefault(r[0], r[2])
        elif r[1] == 'undecided': und.append((r[0], r[2]))
    # coverage below the expected floor is reported, not alarmed: precision lost on rewritten code is no violation
    low = cnt['proved'] < reg.get('floor', 1)
    kn = known(); new = {}; seen = []
    for k, d in viol.items():
        if (prop, k) in kn: seen.append((k, d))
        else: new[k] = d
    timing.sort(reverse=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': reg['explanation'], 'rule': reg['rule'],
                       'obligations': len(results), 'discharged': cnt['proved'], 'undecided': cnt['undecided'],
                       'violated': len(viol), 'functions_analysed': len(funcs),
                       'analysis_units': len(timing), 'expected_at_least': reg.get('floor', 1), 'coverage_below_expected': low,
                       'samples': [list(map(str, r[:3])) for r in sorted(results, key=lambda r: hashlib.md5(str(r).encode()).hexdigest())[:8]],
                       'undecided_list': [list(map(str, u)) for u in und[:60]],
                       'known_findings': [k for k, _ in seen]},
          'wall_s': round(time.time() - t0, 2), 'violations': [{'key': k, 'detail': str(d)} for k, d in new.items()]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s (%s): %d obligations over %d functions: %d proved, %d undecided, %d violated; %.1fs' % (prop, tier, len(results), len(funcs), cnt['proved'], cnt['undecided'], len(viol), time.time() - t0))
    if low and not viol: print('note: only %d obligations decided on this tree, %d expected' % (cnt['proved'], reg.get('floor', 1)))
    if verbose:
        for k, d in und: print('  undecided', k, '--', d)
        for t, s in timing[:8]: print('  %.1fs %s' % (t, s))
    for k, d in seen: print('KNOWN-FINDING: property=%s %s -- %s' % (prop, k, d))
    if new:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            for k, d in new.items(): f.write('%s\n    %s\n' % (k, d))
            f.write('\nre-run: python3 /verif/check.py %s --tier %s -v\n' % (prop, tier))
        for k, d in list(new.items())[:40]: print('  violated: %s\n      %s' % (k, d))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

if __name__ == '__main__': sys.exit(main())
