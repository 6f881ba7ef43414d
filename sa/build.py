"""Building: the MIR extractor, and the witness crates through it."""
import json
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
DRIVER = os.path.join(VERIF, 'driver')


class BuildError(Exception):
    pass


_env = None


def env():
    global _env
    if _env is None:
        e = {k: v for k, v in os.environ.items() if k not in (
            'RUSTC', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS',
            'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_INCREMENTAL')}
        e['RUSTUP_TOOLCHAIN'] = 'nightly'
        e['CARGO_NET_OFFLINE'] = 'true'
        e['CARGO_TERM_COLOR'] = 'never'
        e['CARGO_INCREMENTAL'] = '0'
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
        s = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True, check=True).stdout.strip()
        e['LD_LIBRARY_PATH'] = s + '/lib'
        _env = e
    return dict(_env)


def driver():
    exe = os.path.join(DRIVER, 'target', 'debug', 'nd-driver')
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(DRIVER, 'target')
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=DRIVER, env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        raise BuildError('the extractor does not build:\n' + r.stderr)
    return exe


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def forget(target, pred):
    """drop cargo's results for some packages (both layouts of the target directory)"""
    for sub in ('.fingerprint', 'build'):
        fp = os.path.join(target, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if pred(d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def forget_repo_crates(target):
    """cargo decides by mtime; make sure the crates under test are always rebuilt from the current tree"""
    forget(target, lambda d: d.startswith(('nom-derive', 'nom_derive')))


def cargo_toml(name, nd='', nom='nom = { version = "8", default-features = false }', extra='', edition='2021'):
    return ('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n[workspace]\n[lib]\npath = "src/lib.rs"\n'
            '[dependencies]\nnom-derive = { path = "%s"%s }\n%s\n%s\n' % (name, edition, REPO, nd, nom, extra))


def lockfile(d):
    for p in (os.path.join(REPO, 'Cargo.lock'), '/opt/vp/Cargo.lock'):
        if os.path.exists(p):
            shutil.copy(p, os.path.join(d, 'Cargo.lock'))
            return


def check_crate(name, src, toml, dump=True, facts='', target='target', fresh=True, extra_env=None, outdir='out'):
    """cargo check of one crate through the driver. Returns (ok, messages, dump path or None)"""
    d = os.path.join(BUILD, name)
    out = os.path.join(BUILD, outdir)
    os.makedirs(out, exist_ok=True)
    tgt = os.path.join(BUILD, target)
    write(os.path.join(d, 'src', 'lib.rs'), src)
    write(os.path.join(d, 'Cargo.toml'), toml)
    if not os.path.exists(os.path.join(d, 'Cargo.lock')):
        lockfile(d)
    e = env()
    e['CARGO_TARGET_DIR'] = tgt
    e['RUSTC_WRAPPER'] = driver_path()
    e['ND_MIR'] = 'nom,nom_derive'
    e['ND_DUMP'] = name.replace('-', '_') if dump else ''
    e['ND_FACTS'] = facts
    e['ND_OUT'] = out
    e.update(extra_env or {})
    if fresh:
        forget_repo_crates(tgt)
    forget(tgt, lambda d: d == name or d.startswith(name + '-'))
    path = os.path.join(out, name.replace('-', '_') + '.json')
    if os.path.exists(path):
        os.remove(path)
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--lib'], cwd=d, env=e,
                       capture_output=True, text=True)
    msgs = []
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message':
                msgs.append(m)
    return r.returncode == 0, msgs, path if dump else None, r.stderr


_drv = None


def driver_path():
    global _drv
    if _drv is None:
        _drv = driver()
    return _drv


def own_line(span):
    """line of src/lib.rs a (possibly macro-expanded) span comes from"""
    lines = []
    while span is not None:
        if span['file_name'].endswith('src/lib.rs') and not span['file_name'].startswith('/'):
            lines.append(span['line_start'])
        x = span.get('expansion')
        span = x and x.get('span')
    return lines[-1] if lines else None


def errors_by_module(msgs, name, src):
    """{module: [text]} for error messages of the crate `name`; None key: cannot be located"""
    mods = []
    for n, l in enumerate(src.split('\n'), 1):
        m = re.match(r'^pub mod (\w+) \{', l)
        if m:
            mods.append((n, m.group(1)))
    out = {}
    for m in msgs:
        if m['target']['name'].replace('-', '_') != name.replace('-', '_'):
            if m['message']['level'] == 'error':
                out.setdefault(None, []).append(m['message']['rendered'])
            continue
        msg = m['message']
        if not msg['level'].startswith('error'):
            continue
        if msg['message'].startswith(('aborting due', 'could not compile')):
            continue
        lines = []
        for s in msg['spans']:
            l = own_line(s)
            if l is not None:
                lines.append((not s['is_primary'], l))
        mod = None
        if lines:
            l = min(lines)[1]
            for n, mm in mods:
                if n <= l:
                    mod = mm
        out.setdefault(mod, []).append(msg['rendered'])
    return out
