"""Builds and confirms planted bugs in a scratch copy: python3 tools/seed.py SPEC.py [id...]

SPEC.py defines S = {id: dict(prop, edits=[(file, old, new)], main=<body of fn main>, needs, breaks)}.
A bug is written to seeded/<id>/ only if it builds, passes the tests and its demo tells the two trees apart.
"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO = r'''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:/usr/local/bin:/usr/bin:/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
lib-ruby-parser = { path = "$repo" }
[profile.dev]
debug-assertions = false
[workspace]
T
cd "$w" && timeout 250 cargo run --offline -q --target-dir "$w/t"
'''
PRE = r'''#![allow(unused)]
use lib_ruby_parser::{Parser, ParserOptions, ParserResult, Node, Lexer, ErrorLevel, DiagnosticMessage, LocExt};
fn parse(src: &[u8]) -> ParserResult {
    Parser::new(src.to_vec(), ParserOptions { record_tokens: true, ..Default::default() }).do_parse()
}
fn errors(r: &ParserResult) -> usize { r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Error).count() }
fn ast(src: &str) -> String { format!("{:?}", parse(src.as_bytes()).ast) }
fn accepted(src: &str) -> bool { let r = parse(src.as_bytes()); errors(&r) == 0 && r.ast.is_some() }
fn main() {
'''


def run(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    if not os.path.exists(W):
        subprocess.run(['cp', '-a', '/repo', W], check=True)
        os.makedirs(W + '/.vp')
        for f in ('build.sh', 'test.sh', 'common.sh', 'results.py'):
            s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/common.sh', W + '/.vp/common.sh').replace('/opt/vp/results.py', W + '/.vp/results.py')
            open(W + '/.vp/' + f, 'w').write(s)
    run(['git', 'checkout', '-q', '--', '.'])
    h = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip()
    run(['git', 'fetch', '-q', '/repo', 'HEAD']); run(['git', 'checkout', '-q', h])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:] or list(ns['S'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    for sid in want:
        s = ns['S'][sid]
        scratch()
        d = '/tmp/seedout/' + sid
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/main.rs', 'w').write(PRE + s['main'] + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = run(['bash', '.vp/build.sh'])
        if r.returncode: print(sid, 'CLEAN BUILD FAILED', r.stdout[-800:]); continue
        r = run(['bash', d + '/demo.sh'])
        if r.returncode: print(sid, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:]); continue
        for f, a, b in s['edits']:
            t = open(W + '/' + f).read()
            n = t.count(a)
            if n != 1: print(sid, 'edit matches', n, repr(a[:60])); break
            open(W + '/' + f, 'w').write(t.replace(a, b))
        else:
            diff = run(['git', 'diff']).stdout
            open(d + '/patch.diff', 'w').write(diff)
            r = run(['bash', '.vp/build.sh'])
            if r.returncode: print(sid, 'BUILD FAILED', r.stdout[-1500:]); continue
            r = run(['bash', '.vp/test.sh', '/tmp/seedtests.json'])
            t = r.stdout
            import re
            failed = [l for l in t.splitlines() if re.match(r'test .* FAILED', l)]
            if failed: print(sid, 'TESTS FAIL', failed[:4]); continue
            r = run(['bash', d + '/demo.sh'])
            if r.returncode == 0: print(sid, 'DEMO PASSES WITH PATCH'); continue
            msg = [l for l in r.stdout.splitlines() if re.match(r'error(\[|:)', l)]
            if msg: print(sid, 'DEMO BROKEN?', msg[:3]); continue
            out = V + '/seeded/' + sid
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
            e = dict(os.environ, VERIF_REPO=W)
            r = subprocess.run(['python3', '-m', 'vf.run', s['prop']], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(sid, 'KEPT; check rc', r.returncode, ' | '.join(x[:160] for x in r.stdout.splitlines() if x.startswith('  ['))[:500])
    run(['git', 'checkout', '-q', '--', '.'])


main()
