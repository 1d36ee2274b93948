#!/usr/bin/env python3
"""Development tool: (re)creates /verif/seeded/<id>/ from tools/seeds_list.py, and confirms each one in a scratch copy:
it builds, the stable tests pass, the demo passes without and fails with the change; reports which checks catch it.
usage: seed.py [id ...]"""
import glob, importlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = '/tmp/seed'
os.environ['BUMAGA_REPO'] = SCRATCH + '/repo'
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
import facts, rulelib, registry, known
SEEDS = []
PRELUDE = '''#![allow(unused)]
use bumaga::*;
use serde_json::{json, Value};
use std::time::Duration;

struct Mono;
impl Fonts for Mono {
    fn measure(&self, text: &str, face: &FontFace, _max: Option<f32>) -> [f32; 2] {
        [text.chars().count() as f32 * face.size, face.size]
    }
}
struct Plain;
impl RendererTranslator for Plain {
    fn translate(&self, s: String) -> String {
        s
    }
}
fn view(body: &str, css: &str) -> View {
    View::from_html(&format!("<html>{body}</html>"), css, "", Mono, Box::new(Plain)).unwrap()
}
fn at(event: InputEvent) -> Input {
    Input::new().event(event)
}
fn text(f: &Fragment) -> String {
    let own = f.text.as_ref().map(|t| t.to_string()).unwrap_or_default();
    own + &f.children().iter().map(|c| text(c)).collect::<Vec<_>>().join("")
}
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
if [ -e "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$dir/"; else cp /opt/vp/Cargo.lock "$dir/"; fi
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bumaga = { path = "$repo" }
serde_json = "1"
[profile.dev]
debug = false
END
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cd "$dir" && cargo build -q --offline && timeout 60 ./target/debug/demo
'''


def SEED(id, prop, needs, breaks, edits, demo, also=()):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=also))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def violations(d, pid):
    c = rulelib.Check(d, pid)
    for rule in registry.RULES[pid]:
        try:
            rule(c)
        except Exception as x:
            c.violate('crash', repr(x))
    return [v for v in c.violations if not known.is_known(pid, v['key'])]


def main():
    for p in sorted(glob.glob(VERIF + '/analysis/rules_*.py')):
        importlib.import_module(os.path.basename(p)[:-3])
    exec(open(os.path.join(HERE, 'seeds_list.py')).read(), globals())
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(stable.get('stable', stable) if isinstance(stable, dict) else stable)
    want = sys.argv[1:]
    bad = 0
    for s in SEEDS:
        if want and not any(w in s['id'] for w in want):
            continue
        if not os.path.exists(SCRATCH + '/repo'):
            os.makedirs(SCRATCH, exist_ok=True)
            sh(f'cp -a /repo {SCRATCH}/repo')
        r = SCRATCH + '/repo'
        sh(f'cd {r} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD')
        out = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/main.rs', 'w').write(PRELUDE + '\nfn main() {\n' + s['demo'].strip('\n') + '\n}\n')
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        notes = []
        clean = sh(f'bash {out}/demo.sh', cwd=r)
        if clean.returncode:
            notes.append('DEMO FAILS ON THE CLEAN TREE: ' + clean.stdout[-1500:])
        for file, old, new in s['edits']:
            t = open(f'{r}/{file}').read()
            if t.count(old) != 1:
                notes.append(f'text occurs {t.count(old)} times in {file}: {old[:60]!r}')
                continue
            open(f'{r}/{file}', 'w').write(t.replace(old, new))
        open(out + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout)
        t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=r)
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
        lost = {x for x in stable if x.split('lib.rs::')[-1] not in passed}
        if lost:
            notes.append(f'{len(lost)} stable tests lost: {sorted(lost)[:5]} {t.stdout[-800:] if len(passed) == 0 else ""}')
        broken = sh(f'bash {out}/demo.sh', cwd=r)
        if broken.returncode == 0:
            notes.append('THE DEMO PASSES WITH THE CHANGE')
        elif 'error[' in broken.stdout or 'could not compile' in broken.stdout:
            notes.append('does not compile: ' + broken.stdout[-600:])
        caught = []
        try:
            d, _ = facts.extract()
            for pid in sorted(registry.RULES):
                vs = violations(d, pid)
                if vs:
                    caught.append(pid)
                    if os.environ.get('V'):
                        print(pid, vs[0]['message'][:600])
        except facts.Broken as x:
            notes.append(str(x)[-500:])
        own = s['prop'] in caught
        bad += bool(notes) or not own
        print(f"{'ok  ' if own and not notes else 'FAIL'} {s['id']} ({s['prop']}): caught by {caught} {notes or ''}", flush=True)
    print('bad:', bad)


main()
