"""Builds the MIR fact file of /repo's current working tree (fails closed)."""
import hashlib, json, os, subprocess, sys, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BUMAGA_REPO", "/repo")
CACHE = os.environ.get("BUMAGA_CACHE") or os.path.join(VERIF, ".cache")
DRIVER_DIR = os.path.join(VERIF, "driver")
CRATE = "bumaga"


class Broken(Exception):
    """The machinery itself failed: no verdict."""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver_bin():
    b = os.path.join(DRIVER_DIR, "target", "debug", "mirfacts")
    src = os.path.join(DRIVER_DIR, "src", "main.rs")
    if os.path.exists(b) and os.path.getmtime(b) >= os.path.getmtime(src):
        return b
    r = run(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER_DIR, env=env())
    if r.returncode != 0 or not os.path.exists(b):
        raise Broken("driver build failed:\n" + r.stdout[-4000:])
    os.utime(b)
    return b


def source_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".pest", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    for extra in (os.path.join(DRIVER_DIR, "src", "main.rs"),):
        with open(extra, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def extract():
    """Returns (facts dict, digest). The source is re-read on every run; the compiled fact file is
    reused only when the digest of every source file of /repo (and of the driver) is identical."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract()


def _extract():
    b = driver_bin()
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    digest = source_digest()
    out = os.path.join(CACHE, "facts.json")
    if os.path.exists(out):
        try:
            d = json.load(open(out))
            if d.get("nonce", "").startswith(digest + ":"):
                return d, digest
        except Exception:
            pass
    for f in (out,):
        if os.path.exists(f):
            os.unlink(f)
    tgt = os.path.join(CACHE, "target")
    # cargo's freshness cache would silently skip the wrapper: forget the crate's fingerprints
    for base in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d == CRATE or d.startswith(CRATE + "-"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    e = env()
    nonce = f"{digest}:{os.getpid()}:{time.time_ns()}"
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e).stdout.strip()
    e.update(RUSTC_WORKSPACE_WRAPPER=b, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), CARGO_TARGET_DIR=tgt,
             MIRFACTS_CRATE=CRATE, MIRFACTS_OUT=out, MIRFACTS_NONCE=nonce, MIRFACTS_ROOT=REPO)
    r = run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
            env=e, cwd="/")
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("fact extraction failed:\n" + r.stdout[-4000:])
    d = json.load(open(out))
    if d["nonce"] != nonce:
        raise Broken("fact file does not carry this run's nonce")
    return d, digest


if __name__ == "__main__":
    t = time.time()
    try:
        d, dig = extract()
    except Broken as e:
        print(e)
        sys.exit(3)
    print(f"facts: {len(d['fns'])} bodies, {len(d['adts'])} types, {time.time()-t:.1f}s")
