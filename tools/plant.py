#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: make /verif/seeded/<id> from the entries of SPEC.py (development helper).
An entry: dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<rust main.rs body> or demo_files)."""
import sys, os, subprocess, json, shutil, importlib.util, tempfile
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour shown in main.rs is right, nonzero otherwise. Run in the repository's root.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)" || exit 99
trap 'find "$t" -delete' EXIT
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock" || exit 99
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
libronda = { path = "$repo/core" }
[workspace]
T
cd "$t" || exit 99
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS="--cfg verif_hooks" CARGO_INCREMENTAL=0
cargo build -q --offline >build.log 2>&1 || { cat build.log; exit 98; }
timeout 120 ./target/debug/demo "$t"
'''
PYDEMO = DEMO.replace('cp "$repo/Cargo.lock" "$t/Cargo.lock"', 'cp -r "$here/cpython" "$t/cpython" && mkdir "$t/py" && cp -r "$repo/python/src" "$t/py/src"').replace('libronda = { path = "$repo/core" }\n', 'rondapy = { path = "py" }\ncpython = { path = "cpython" }\n').replace("cd \"$t\" || exit 99", '''cat > "$t/py/Cargo.toml" <<T
[package]
name = "rondapy"
version = "0.1.0"
edition = "2018"
[dependencies]
libronda = { path = "$repo/core" }
cpython = { path = "$t/cpython" }
T
cp "$here/Cargo.lock.demo" "$t/Cargo.lock"
cd "$t" || exit 99''')
HEAD = '''#![allow(unused)]
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::*;
use std::convert::{TryFrom, TryInto};
fn v(s: &str) -> Version { s.parse().unwrap() }
fn tree(s: &str) -> VersionSpecOrConstraintTree { VersionSpecOrConstraintTree::try_from(s).unwrap() }
fn spec(s: &str) -> VersionSpec { VersionSpec::try_from(s).unwrap() }
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
'''
def main():
    sp = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want = set(sys.argv[2:])
    for b in m.BUGS:
        if want and b['id'] not in want: continue
        d = '/verif/seeded/' + b['id']
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
            for f, old, new in b['edits']:
                p = t + '/r/' + f; s = open(p).read()
                if s.count(old) != 1: print(b['id'], 'edit matches', s.count(old), 'times:', old[:60]); break
                open(p, 'w').write(s.replace(old, new))
            else:
                diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
                # at least one removed line must be of the original repository
                files = {f for f, _, _ in b['edits']}
                orig = 0
                for f in files:
                    base = set(subprocess.run(['git', '-C', t + '/r', 'show', '47628d2:' + f], capture_output=True, text=True).stdout.split('\n'))
                    for l in subprocess.run(['git', '-C', t + '/r', 'diff', '-U0', '--', f], capture_output=True, text=True).stdout.split('\n'):
                        if l.startswith('-') and not l.startswith('---') and l[1:] in base: orig += 1
                if not orig:
                    print(b['id'], 'changes no original line')
                    if not os.environ.get('ANY'): continue
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(diff)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                py = b.get('py')
                open(d + '/demo.sh', 'w').write(PYDEMO if py else DEMO); os.chmod(d + '/demo.sh', 0o755)
                if py:
                    shutil.copytree('/verif/pyharness/cpython', d + '/cpython', dirs_exist_ok=True)
                    shutil.copy('/verif/pyharness/Cargo.lock', d + '/Cargo.lock.demo')
                    open(d + '/main.rs', 'w').write(b['demo'])
                else:
                    body = b['demo']
                    open(d + '/main.rs', 'w').write(body if 'fn main' in body else HEAD + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n}\n')
                print(b['id'], 'written')
main()
