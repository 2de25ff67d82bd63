"""Snapshot /repo's working tree, regenerate its generated sources, dump MIR + grammar automaton.

Everything is derived from the current working tree on every run; results are cached under
/verif/.build keyed by the content hash of the snapshot, so several checks in one sandbox share it.
/repo itself is only read.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, json, glob, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SKIP_TOP = {'.git', 'target', 'fuzzer', 'gems', 'vendor'}
GENERATED = {'src/parser/parse.rs', 'src/reserved_words/list.rs'}


def env():
    e = dict(os.environ)
    e['CARGO_HOME'] = e.get('CARGO_HOME', '/root/.cargo')
    e['RUSTUP_HOME'] = e.get('RUSTUP_HOME', '/root/.rustup')
    e['PATH'] = e['CARGO_HOME'] + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['RUSTC_WRAPPER'] = ''
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def files(root):
    out = []
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == '.':
            ds[:] = [x for x in ds if x not in SKIP_TOP]
        ds.sort()
        for f in sorted(fs):
            p = os.path.normpath(os.path.join(rel, f))
            if p in GENERATED:
                continue
            out.append(p)
    return out


def tree_hash(root, fl):
    h = hashlib.sha256()
    for p in fl:
        if p == 'Cargo.lock':
            continue
        h.update(p.encode() + b'\0')
        fp = os.path.join(root, p)
        if os.path.islink(fp):
            h.update(os.readlink(fp).encode())
        else:
            with open(fp, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.join(VERIF, 'driver/src/main.rs'), 'rb') as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def sysroot():
    rc, o = sh(['rustc', '--print', 'sysroot'], env=env())
    return o.strip().splitlines()[-1]


def ensure_driver():
    src = os.path.join(VERIF, 'driver')
    h = hashlib.sha256()
    for p in ('src/main.rs', 'Cargo.toml'):
        h.update(open(os.path.join(src, p), 'rb').read())
    tag = h.hexdigest()[:16]
    out = os.path.join(BUILD, 'mirdump-' + tag)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    td = tempfile.mkdtemp(prefix='vf-driver-')
    try:
        shutil.copytree(os.path.join(src, 'src'), os.path.join(td, 'src'))
        shutil.copy(os.path.join(src, 'Cargo.toml'), td)
        rc, o = sh(['cargo', 'build', '--offline'], cwd=td, env=env())
        if rc:
            sys.stderr.write(o)
            raise SystemExit('driver build failed')
        shutil.copy(os.path.join(td, 'target/debug/mirdump'), out + '.tmp')
        os.rename(out + '.tmp', out)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    return out


class BuildFailure(Exception):
    pass


def prepare(features='development'):
    """returns directory holding mir.json, ast.json, grammar.xml, parse.y, list.rs, log"""
    os.makedirs(BUILD, exist_ok=True)
    fl = files(REPO)
    key = tree_hash(REPO, fl) + '-' + features.replace(',', '_')
    out = os.path.join(BUILD, 'dump-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(out)
            return out
        drv = ensure_driver()
        td = tempfile.mkdtemp(prefix='vf-snap-')
        try:
            _dump(fl, td, drv, out, features)
        finally:
            shutil.rmtree(td, ignore_errors=True)
        # keep only the most recent dumps
        olds = sorted(glob.glob(os.path.join(BUILD, 'dump-*')), key=os.path.getmtime)
        for o in olds[:-6]:
            if o != out:
                shutil.rmtree(o, ignore_errors=True)
    return out


def _dump(fl, td, drv, out, features):
    snap = os.path.join(td, 'snap')
    for p in fl:
        dst = os.path.join(snap, p)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(os.path.join(REPO, p), dst, follow_symlinks=False)
    if not os.path.exists(os.path.join(snap, 'Cargo.lock')):
        shutil.copy('/opt/vp/Cargo.lock', os.path.join(snap, 'Cargo.lock'))
    for f in ('src/tests/lexer/gen.rs', 'src/tests/parser/gen.rs'):
        f = os.path.join(snap, f)
        if os.path.isdir(os.path.dirname(f)) and not os.path.exists(f):
            open(f, 'w').close()
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = env()
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    e['RUSTC_WORKSPACE_WRAPPER'] = drv
    e['MIRDUMP_CRATE'] = 'lib_ruby_parser'
    e['MIRDUMP_OUT'] = os.path.join(tmp, 'mir.json')
    rc, o = sh(['cargo', 'check', '--lib', '--offline', '--features', features,
                '--target-dir', os.path.join(td, 't')], cwd=snap, env=e)
    open(os.path.join(tmp, 'log'), 'w').write(o)
    if rc or not os.path.exists(os.path.join(tmp, 'mir.json')):
        sys.stderr.write(o[-6000:])
        raise BuildFailure('the crate does not build: ' + o[-400:])
    # the bison XML report of the very grammar the parser was generated from; bison's own
    # complaints about skeleton-specific directives do not matter: the report is written first.
    sk = None
    for c in glob.glob(e['CARGO_HOME'] + '/registry/src/*/rust-bison-skeleton-*/bison/main.m4'):
        sk = c
    sh(['bison', '--xml=' + os.path.join(tmp, 'grammar.xml'), '-S', sk or '', '-o',
        os.path.join(td, 'g.rs'), 'src/parser/parse.y'], cwd=snap, env=env())
    if not os.path.exists(os.path.join(tmp, 'grammar.xml')):
        raise BuildFailure('bison produced no report')
    for p in ('src/parser/parse.rs', 'src/parser/parse.y', 'src/reserved_words/list.rs'):
        shutil.copy(os.path.join(snap, p), os.path.join(tmp, os.path.basename(p)))
    open(os.path.join(tmp, 'done'), 'w').write(str(time.time()))
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)


if __name__ == '__main__':
    t = time.time()
    print(prepare())
    print('%.1fs' % (time.time() - t))
