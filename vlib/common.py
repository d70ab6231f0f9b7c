import hashlib, json, os, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")


class CheckError(Exception):
    """The check itself could not run (never a verdict about the property)."""


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=None, envv=None):
    """Run a command in its own process group; kill the group on timeout. -> (rc|None, output, secs)"""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=envv or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf8", "replace"), time.time() - t


def source_files():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
    return sorted(r) + [os.path.join(REPO, "Cargo.toml")]


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(name):
    """True when build directory `name` was last used with exactly the current source. Cargo decides
    by time stamps; a checkout can move those backwards, so the content is compared as well."""
    p = os.path.join(BUILD, name + ".srchash")
    cur = source_hash()
    old = open(p).read() if os.path.exists(p) else ""
    os.makedirs(BUILD, exist_ok=True)
    with open(p, "w") as f:
        f.write(cur)
    return old == cur


def unstale(name, crate_dir, target):
    if not fresh(name) and os.path.isdir(target):
        # forget only the kserd artefacts
        run(["cargo", "clean", "--offline", "-p", "kserd", "--target-dir", target], cwd=crate_dir, timeout=120)


def jdump(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)
