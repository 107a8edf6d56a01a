#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec: S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main=rust source of the demo)]"""
import sys, os, subprocess, json, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# cwd: the repository. exit 0: behaves as stated, otherwise: the property is broken
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nar20_1 = { path = "$R" }
parking_lot = "0.12"
rand = "0.8"
TOML
cd "$T" && export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 9; }
timeout 120 "$T/target/debug/demo"
'''
HEAD = '''#![allow(non_snake_case, unused_imports, unused_mut, unused_variables)]
use nar20_1::Nar::*; use nar20_1::NarSentence::*; use nar20_1::NarStamp::*; use nar20_1::NarWorkingCycle::*; use nar20_1::Term::*; use nar20_1::Tv::Tv;
use nar20_1::NarseseParser::parseNarsese; use nar20_1::NarMem; use nar20_1::NarUnify::*; use nar20_1::NarProc; use nar20_1::NarGoalSystem; use nar20_1::NarInputFacade;
use std::sync::Arc; use parking_lot::RwLock;
fn p(s: &str) -> Term { parseNarsese(&format!("{}.", s)).expect("parses").0 }
fn sen(s: &str, f: f64, c: f64, ids: &[i64]) -> Sentence { newEternalSentenceByTv(&p(s), EnumPunctation::JUGEMENT, &Tv { f, c }, newStamp(&ids.to_vec())) }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
'''
for s in ns['S']:
    d = '/verif/seeded/' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/mkseed'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['edits']:
        t = open(w + '/' + f).read(); n = t.count(old)
        assert n == 1, (s['id'], f, n, old)
        open(w + '/' + f, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO.replace('TOML\ncd', s.get('deps', '') + 'TOML\ncd')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(HEAD + s['main'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    print('wrote', s['id'])
