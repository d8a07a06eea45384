#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a scratch copy of /repo and runs the checks on it: all must stay quiet.
tools/refactors/<group>.ref: repeated sections `--- file F`, `--- old`, `--- new`, `--- rest` (ignored comment)
usage: refactor.py GROUP[,GROUP] [P01 P02 ...]"""
import os, re, subprocess, sys, concurrent.futures as cf
V = '/verif'; S = '/tmp/rf'
def main():
    groups = sys.argv[1].split(','); props = sys.argv[2:] or ['P%02d' % i for i in range(1, 40)]
    subprocess.run(['rm', '-rf', S + '/repo']); os.makedirs(S, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', S + '/repo'], check=True)
    subprocess.run(['rm', '-rf', S + '/repo/target'])
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', '.build/replays', '--exclude', '.build/h-*', '--exclude', '.build/repo-par', V + '/', S + '/verif/'] if os.path.exists('/usr/bin/rsync') else ['bash', '-c', 'mkdir -p %s/verif/.build; cd /verif; tar c --exclude=.git --exclude=./.build --exclude=seeded . | tar x -C %s/verif; cp -a --update .build/engine %s/verif/.build/' % (S, S, S)], check=True)
    for h in ('harness', 'harness-dual', 'harness-real'):
        p = '%s/verif/%s/Cargo.toml' % (S, h); t = open(p).read().replace('"/repo"', '"%s/repo"' % S); open(p, 'w').write(t)
    n = 0
    for g in groups:
        f = None; cur = None; old = None
        secs = []
        for l in open('%s/tools/refactors/%s.ref' % (V, g)):
            l = l.rstrip('\n')
            if l.startswith('--- '): secs.append([l[4:].strip(), []])
            elif secs: secs[-1][1].append(l)
        for name, body in secs:
            b = '\n'.join(body).strip('\n')
            if name.startswith('file '): f = name[5:]
            elif name == 'old': old = b
            elif name == 'new':
                p = S + '/repo/' + f; t = open(p).read()
                if t.count(old) < 1: print('NOT FOUND in %s:\n%s' % (f, old)); return 2
                open(p, 'w').write(t.replace(old, b)); n += 1
    print(n, 'edits')
    r = subprocess.run('cd %s/repo && CARGO_TARGET_DIR=%s/target cargo test --offline 2>&1 | grep -E "^error|FAILED|panicked|test result: F|^  *-->" | head -30' % (S, S), shell=True, capture_output=True, text=True)
    print(r.stdout)
    if 'error' in r.stdout: return 2
    e = dict(os.environ, VF_REPO=S + '/repo', VERIF_SEED='1')
    bad = []
    for p in props:
        r = subprocess.run(['python3', S + '/verif/check.py', p, 'quick'], env=e, capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().split('\n')
        if r.returncode != 0:
            bad.append(p); print(p, 'rc', r.returncode); print('\n'.join('   ' + x[:300] for x in out[:6] + out[-2:]), flush=True)
        else: print(p, out[-1][:150], flush=True)
    print('BAD', bad)
main()
