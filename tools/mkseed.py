"""Confirms planted changes in a scratch clone of /repo and files them under /verif/seeded.
   python3 tools/mkseed.py SPEC.py [id ...]; SPEC.py holds S(id, property, edits, demo, needs, breaks)."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed'
BASE = 'aa61c53'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
DEMO = '''#!/bin/bash
# run with cwd in the repository, after build.sh; everything is done in a scratch copy of the sources
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
s=$(mktemp -d /tmp/rbdemo.XXXXXX) || exit 2
mkdir "$s/repo" "$s/run"
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$s/repo/"
printf '\\n#[cfg(test)]\\n#[path = "%s/demo.rs"]\\nmod planted_demo;\\n' "$here" >> "$s/repo/src/main.rs"
cd "$s/repo"
export CARGO_TARGET_DIR="$repo/target"
exe=$(cargo test --offline --no-run --message-format=json 2> "$s/err" | grep -o '"executable":"[^"]*/rust_bit-[^"]*"' | tail -n 1 | cut -d'"' -f4)
if [ -z "$exe" ]; then cat "$s/err"; rm -rf "$s"; exit 3; fi
cd "$s/run"
timeout 200 "$exe" planted_demo --test-threads 1 > "$s/out" 2>&1
rc=$?
tail -n 30 "$s/out"
grep -q 'test result: ok. [1-9]' "$s/out" || rc=1
rm -rf "$s" "$exe" "$exe.d"
exit $rc
'''
SPECS = []
def S(id, prop, edits, demo, needs, breaks): SPECS.append((id, prop, edits, demo, needs, breaks))
def sh(c, cwd=W, **k): return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(): sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd -e target')
def main():
    exec(open(sys.argv[1]).read(), globals())
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('stable_pass') or base['tests']
    for id, prop, edits, demo, needs, breaks in SPECS:
        if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
        d = '/tmp/seedwork/out/' + id
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.rs', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        reset()
        bad = []
        r = sh('bash %s/demo.sh' % d)
        if r.returncode != 0: bad.append('demo fails on the unchanged tree:\n' + r.stdout[-2500:])
        for f, old, new in edits:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1: bad.append('%d places for %r' % (s.count(old), old)); continue
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        # the lines taken away are lines of the original repository
        f = None
        for l in sh('git diff -U0').stdout.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: f = m[1]
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0: print('  note: pure insertion at %s:%d' % (f, a)); a -= 0; n = 1
                for x in sh('git blame -s -L %d,%d HEAD -- %s' % (a, a + n - 1, f)).stdout.splitlines():
                    if not x.lstrip('^').startswith(BASE[:7]): print('  NOT ORIGINAL:', x)
        if not bad:
            r = sh('cargo test --offline --workspace --no-fail-fast 2>&1', timeout=900)
            ok = set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok', r.stdout, re.M))
            missing = [t for t in stable if t.split('cargo:')[-1].split(' ')[-1].split('::',0)[-1] not in ok and not any(t.endswith(o) for o in ok)]
            if missing: bad.append('stable tests fail: %s\n%s' % (missing[:5], r.stdout[-1500:] if not ok else ''))
            r = sh('bash %s/demo.sh' % d)
            if r.returncode == 0: bad.append('demo passes with the change')
            elif r.returncode == 3: bad.append('demo does not build with the change\n' + r.stdout[-2000:])
        reset()
        if bad: print(id, 'REJECTED'); print('\n'.join(bad))
        else:
            t = os.path.join(V, 'seeded', id); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t); print(id, 'ok')
main()
