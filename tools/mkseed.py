#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.seed and confirms each one.

A .seed file:  header lines `key: value` (property, file, features, needs, breaks), then sections
`--- old`, `--- new` (repeatable, with optional `file`), `--- main` (the demonstration).
Steps per seed, all in a scratch copy of /repo: the patch applies and touches original lines only,
the stable tests pass with it, the demonstration exits 0 without it and nonzero with it.
usage: mkseed.py [--check] [id ...]
With --check the property's check is also run against the patch (applied to /repo and undone),
and the outcome is recorded in tools/seeded.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BASE = '431ae75'
DEMO = '''#!/bin/bash
# Builds main.rs (beside this script) against the repository in the current directory and runs it:
# its assertions hold on the unchanged code.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
imgproc-rs = {{ path = "$repo"{feat} }}
EOF
cd "$scratch" || exit 2
CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q 2> build.log || {{ cat build.log; exit 2; }}
cd "$scratch" && timeout 120 ./target/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def parse(p):
    meta, secs, cur = {}, [], None
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('--- '):
            cur = [l[4:].strip(), []]; secs.append(cur)
        elif cur is None:
            if l.strip():
                k, v = l.split(':', 1); meta[k.strip()] = v.strip()
        else: cur[1].append(l)
    return meta, [(n, '\n'.join(b).strip('\n')) for n, b in secs]
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '--check' in sys.argv
    ids = args or sorted(f[:-5] for f in os.listdir(HERE + '/seeds') if f.endswith('.seed'))
    scratch = '/tmp/mkseed-repo'
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', scratch], check=True)
    recf = HERE + '/seeded.json'
    rec = json.load(open(recf)) if os.path.exists(recf) else {}
    bad = []
    for i in ids:
        meta, secs = parse(f'{HERE}/seeds/{i}.seed')
        sh('git checkout -q -- .', cwd=scratch)
        cur, old, main_rs = meta['file'], None, None
        err = None
        for n, b in secs:
            if n.startswith('file'): cur = n.split()[1]
            elif n == 'old': old = b
            elif n == 'new':
                s = open(f'{scratch}/{cur}').read()
                if s.count(old) != 1: err = f'old text occurs {s.count(old)} times'; break
                open(f'{scratch}/{cur}', 'w').write(s.replace(old, b))
            elif n == 'main': main_rs = b
        if err: bad.append((i, err)); print(i, 'ERROR', err); continue
        patch = sh('git diff', cwd=scratch).stdout
        # removed lines must be original ones
        f = None; ln = 0; orig = 0; mine = 0
        for l in patch.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                c = sh(f'git blame -s -L{ln},{ln} HEAD -- {f}', cwd='/repo').stdout
                if c.startswith('^'): orig += 1
                elif l[1:].strip(): mine += 1
                ln += 1
            elif l.startswith(' '): ln += 1
        d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/main.rs', 'w').write(main_rs + '\n')
        feat = ', ' + meta['features'] if meta.get('features') else ''
        open(d + '/demo.sh', 'w').write(DEMO.format(feat=feat)); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        t = tempfile.mkdtemp()
        shutil.copytree(d, t + '/x')
        r1 = sh(f'bash {t}/x/demo.sh', cwd='/repo')
        r2 = sh(f'bash {t}/x/demo.sh', cwd=scratch)
        ts = sh('cargo test --offline 2>&1 | tail -60', cwd=scratch)
        shutil.rmtree(t)
        fails = [l for l in ts.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l or l.startswith('error')]
        ok = r1.returncode == 0 and r2.returncode not in (0, 2) and orig > 0 and not mine
        print(f'{i}: {meta["property"]} demo {r1.returncode}/{r2.returncode} orig={orig} mine={mine} testfails={fails}', 'ok' if ok else 'NOT OK', flush=True)
        if r1.returncode or r2.returncode == 2: print((r1.stdout + r1.stderr + r2.stdout)[-1500:])
        if not ok: bad.append((i, 'not ok'))
        if check:
            a = sh(f'git -C /repo apply {d}/patch.diff')
            try:
                r = sh(f'python3 {V}/check.py {meta["property"]} quick', timeout=900)
            finally:
                sh('git -C /repo checkout -- .')
            hit = r.returncode == 1 and f'VIOLATION property={meta["property"]}' in r.stdout
            rec[i] = [meta['property']] if hit else []
            print('   check:', 'CAUGHT' if hit else f'MISSED rc={r.returncode}', (r.stdout.strip().splitlines() or [''])[-1][:150], flush=True)
            if not hit: print(r.stdout[-800:], r.stderr[-800:])
            json.dump(rec, open(recf, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(scratch)
    print('bad:', bad)
main()
