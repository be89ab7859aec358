#!/usr/bin/env python3
"""Makes and validates planted bugs.  usage: seed.py SPECDIR ID...   (development only; no check uses it)
SPECDIR/ID/edits.json: {"property","needs","what_it_breaks","edits":[[file,old,new],...]}; SPECDIR/ID/demo.rs (and demo.sh, optional)."""
import json, os, shutil, subprocess, sys, tempfile, hashlib

REPO, OUT, W = '/repo', '/verif/seeded', '/tmp/seedw'
DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds for the crate in the current directory; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/tmp"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
granne = { path = "$repo", features = ["rw_granne"] }
ordered-float = "*"
rayon = "*"
%s
[profile.dev]
opt-level = 1
[workspace]
E
cd "$d" || exit 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" TMPDIR="$d/tmp"
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 8; }
%s timeout 150 "$d/target/demo" 2> "$d/log" || { r=$?; tail -n 5 "$d/log"; exit $r; }
'''.replace('$d/target/demo', '$d/target/debug/demo')

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def work():
    if not os.path.isdir(W):
        subprocess.check_call(['cp', '-a', REPO, W])
    subprocess.check_call(['git', '-C', W, 'fetch', '-q', REPO, 'HEAD'])
    subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'])

def tests():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, RAYON_NUM_THREADS='1')
    r = sh(f'. /opt/vp/env.sh; cd {W}; cargo test -p granne --features rw_granne --offline --no-fail-fast -- --test-threads 8 2>&1', W, env=env)
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... FAILED') and any(t.endswith(l.split()[1]) for t in stable)]
    ok = sum(1 for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok'))
    return ok, bad, r.stdout if ok < 50 else ''

def main():
    spec, ids = sys.argv[1], sys.argv[2:]
    for i in ids:
        e = json.load(open(f'{spec}/{i}/edits.json'))
        work()
        for f, old, new in e['edits']:
            t = open(f'{W}/{f}').read()
            if t.count(old) != 1:
                print(f'{i}: edit of {f} matches {t.count(old)} times: {old[:60]!r}'); break
            open(f'{W}/{f}', 'w').write(t.replace(old, new))
        else:
            patch = sh('git diff', W).stdout
            o = f'{OUT}/{i}'
            os.makedirs(o, exist_ok=True)
            open(f'{o}/patch.diff', 'w').write(patch)
            for f in os.listdir(f'{spec}/{i}'):
                if f != 'edits.json': shutil.copy(f'{spec}/{i}/{f}', o)
            if not os.path.exists(f'{spec}/{i}/demo.sh'):
                open(f'{o}/demo.sh', 'w').write(DEMO_SH % (e.get('deps', ''), e.get('run', '')))
            os.chmod(f'{o}/demo.sh', 0o755)
            json.dump({k: e[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{o}/meta.json', 'w'), indent=1)
            ok, bad, log = tests()
            d1 = sh(f'bash {o}/demo.sh', W)
            work()
            d0 = sh(f'bash {o}/demo.sh', W)
            orig = False
            f = None
            for l in patch.splitlines():
                if l.startswith('--- a/'):
                    b = sh(['git', 'blame', '-l', '134a09e..HEAD', '--', l[6:]], REPO).stdout.splitlines()
                    f = [x.split(') ', 1)[1] for x in b if x.startswith('^')]
                elif l.startswith('-') and l[1:].strip() and not l[1:].strip().startswith('//') and l[1:] in f: orig = True
            if not orig: print('   no line of the original repository is changed')
            good = orig and ok >= 76 and not bad and d0.returncode == 0 and d1.returncode not in (0, 8, 9)
            print(f'{i}: {"GOOD" if good else "BAD"} tests {ok} ok, failed {bad}; demo clean {d0.returncode}, patched {d1.returncode}')
            print('   patched says:', d1.stdout.strip()[-400:])
            if d0.returncode: print('   clean says:', d0.stdout.strip()[-800:])
            if log: print(log[-2000:])
main()
