#!/usr/bin/env python3
"""mkseed.py ID  (reads edits from seed spec file /tmp/seeds/ID.py: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
Builds /verif/seeded/ID and confirms it in a scratch copy: compiles, tests pass, demo 0 without / nonzero with."""
import sys, os, subprocess, json, shutil, tempfile, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
rmath = { path = "$PWD" }
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q 2>"$t/err"
rc=$?
tail -5 "$t/err" >&2
exit $rc
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for sid in sys.argv[1:]:
    sp = runpy.run_path('/tmp/seeds/%s.py' % sid)
    d = os.path.join(H, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='seed'); r = w + '/repo'
    try:
        sh('cp -a /repo %s' % r)
        for f, old, new in sp['EDITS']:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        assert diff
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(sp['DEMO'])
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': sp['PROP'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=r)
        t = sh('. /opt/vp/env.sh; cargo test --offline 2>&1 -- --skip bigint::nat::tests | grep -E "^test .*(FAILED|ok)$" | sort', cwd=r)
        t0 = sh('. /opt/vp/env.sh; cargo test --offline 2>&1 -- --skip bigint::nat::tests | grep -E "^test .*(FAILED|ok)$" | sort', cwd='/repo')
        import re
        okset = lambda x: {re.sub(r' \(line \d+\)', '', l) for l in x.splitlines() if l.endswith('ok')}
        same = okset(t0.stdout) <= okset(t.stdout) and len(okset(t.stdout)) > 20
        ok = a.returncode == 0 and b.returncode != 0 and same
        print(sid, 'OK' if ok else 'BAD', 'clean', a.returncode, 'bug', b.returncode, 'tests same', same, '|', [l for l in b.stderr.splitlines() if 'panicked' in l][:1])
        if not ok:
            print(a.stderr[-800:]); print(b.stderr[-500:]);
            if not same: print(okset(t0.stdout) - okset(t.stdout))
        # which checks catch it
        if ok and '--no' not in sys.argv:
            env = dict(os.environ, VERIF_REPO=r)
            for pr in [sp['PROP']] + sp.get('ALSO', []):
                c = sh('python3 %s/check.py %s' % (H, pr), env=env)
                print('   ', pr, 'exit', c.returncode, ' / '.join(c.stdout.strip().splitlines()[-3:])[:300], c.stderr[-200:])
    finally: shutil.rmtree(w, ignore_errors=True)
