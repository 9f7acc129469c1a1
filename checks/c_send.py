"""Compile-fail witnesses: numbers whose digit storage is shared without synchronisation must not cross threads.
The compiler decides whether `T: Send` / `T: Sync` holds; nothing is run."""
import json, os, re, shutil, subprocess, tempfile
import lib
QLIM = 300
TYPES = ['Nat', 'BigInt', 'Rat', 'Float']
def rustc(*a, cwd=None):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable')
    return subprocess.run(('rustc', '--edition', '2018', '--cap-lints', 'allow', '--error-format=json', '--emit=metadata') + a, cwd=cwd, env=env, capture_output=True, text=True, timeout=250)
def codes(r):
    out = []
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('level') == 'error' and m.get('code'): out.append(m['code']['code'])
    return out or ([] if r.returncode == 0 else ['?'])
def unsafe_impls(repo):
    """unsafe impl ... Send|Sync for T in the sources (comments stripped): [(type, trait, file, line)]"""
    out = []
    for dp, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            if not f.endswith('.rs') or f == 'tests.rs': continue
            s = open(os.path.join(dp, f), encoding='utf8', errors='replace').read()
            s = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), re.sub(r'//[^\n]*', '', s), flags=re.S)
            for m in re.finditer(r'\bunsafe\s+impl\b[^{;]*?\b(Send|Sync)\s+for\s+([^{]+?)\s*\{', s):
                out.append((m.group(2), m.group(1), os.path.relpath(os.path.join(dp, f), repo), s.count('\n', 0, m.start()) + 1))
    return out
def run_send(which):
    repo = lib.REPO; d = tempfile.mkdtemp(prefix='wit')
    try:
        cf = [x for n in ('avx2', 'rdseed', 'rdrand') for x in ('--cfg', 'rmath_%s="support"' % n)]
        r = rustc('--crate-name', 'rmath', '--crate-type', 'lib', *cf, 'src/lib.rs', '--out-dir', d, cwd=repo)
        meta = d + '/librmath.rmeta'
        if r.returncode or not os.path.exists(meta): return [('auto traits', 'undecided', 'the crate does not compile: %s' % codes(r))]
        errs = {}
        def w(n, body):
            f = '%s/%s.rs' % (d, n)
            open(f, 'w').write('#![allow(unused)]\nuse rmath::bigint::*;\n' + body)
            e = codes(rustc('--crate-name', n, '--crate-type', 'bin', '--extern', 'rmath=' + meta, f, '--out-dir', d))
            if e: errs[n] = e
        fn = {'Send': 'fn need<T: Send>() {}\n', 'Sync': 'fn need<T: Sync>() {}\n'}
        for t in TYPES:
            for tr in ('Send', 'Sync'): w('%s_%s' % (t.lower(), tr.lower()), fn[tr] + 'fn main() { need::<%s>(); }\n' % t)
            w('%s_ok' % t.lower(), 'fn need<T>() {}\nfn main() { need::<%s>(); }\n' % t)
        for tr in ('Send', 'Sync'): w('control_' + tr.lower(), fn[tr] + 'fn main() { need::<Vec<u32>>(); }\n')
    finally: shutil.rmtree(d, ignore_errors=True)
    res = []
    for c in ('control_send', 'control_sync'):
        if c in errs: return [('auto traits', 'undecided', 'control witness does not compile')]
    imp = unsafe_impls(repo)
    for t in TYPES:
        if '%s_ok' % t.lower() in errs: res.append((t, 'undecided', 'type not found')); continue
        for tr in ('Send', 'Sync'):
            e = errs.get('%s_%s' % (t.lower(), tr.lower())); key = 'rmath::bigint::%s|%s' % (t, tr)
            if e: res.append((key, 'proved' if set(e) <= {'E0277'} else 'undecided', 'rejected by the compiler')); continue
            at = [i for i in imp if i[1] == tr]
            # accepted: by derivation from synchronised parts (sound), or by an unsafe assertion
            if not at: res.append((key, 'proved', 'derived by the compiler from parts that are %s' % tr))
            else: res.append((key, 'violated', 'a program that needs %s: %s compiles: unsafe impl %s for %s at %s:%d' % (t, tr, tr, at[0][0], at[0][2], at[0][3])))
    return res
def specs(which): return [('send',)]
def job(spec): return run_send(*spec)
