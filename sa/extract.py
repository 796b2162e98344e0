"""Run the fact-extracting driver over /repo's current working tree (never writes in /repo)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RRB_REPO", "/repo")
CACHE = os.environ.get("RRB_CACHE", os.path.join(VERIF, ".cache"))
TC = "nightly"

# name -> (features, RUSTFLAGS additions)
CONFIGS = {
    "release": ([], ["-Cdebug-assertions=off", "-Coverflow-checks=off"]),
    "debug": ([], ["-Cdebug-assertions=on", "-Coverflow-checks=off", "-Zub-checks=no"]),
    "may_dangle": (["may_dangle"], ["-Cdebug-assertions=off", "-Coverflow-checks=off"]),
    # the same source instantiated at node width 4: full nodes are then small enough to enumerate
    "width4": ([], ["-Cdebug-assertions=off", "-Coverflow-checks=off"]),
}


def env_base():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True, env=env_base()).strip()


def build_driver():
    """Builds (incrementally) the driver; returns its path."""
    tgt = os.path.join(CACHE, "driver")
    os.makedirs(tgt, exist_ok=True)
    e = env_base()
    e["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "+" + TC, "build", "--offline", "--quiet",
                        "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit(3)
    return os.path.join(tgt, "debug", "rrb-facts")


def tree_files(repo=None):
    repo = repo or REPO
    out = []
    for top in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo"):
        p = os.path.join(repo, top)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return out


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for p in tree_files(repo):
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    for d in ("driver/src", "sa"):
        for b, ds, fs in os.walk(os.path.join(VERIF, d)):
            for f in sorted(fs):
                if f in ("extract.py", "dump.rs", "main.rs"):
                    h.update(open(os.path.join(b, f), "rb").read())
    return h.hexdigest()[:24]


def mirror():
    """A source mirror of /repo outside /repo, so cargo never touches /repo (Cargo.lock, target)."""
    d = tempfile.mkdtemp(prefix="rrbsrc.")
    for p in tree_files():
        q = os.path.join(d, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copyfile(os.path.join(VERIF, "driver", "repo.Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


WIDTH = re.compile(r"(const RRB_WIDTH: usize = )[^;]+;")
NEAR = re.compile(r"\b(5|6|7|31|32|33|62|63|64|65)\b")


def narrow(src):
    """set the node width to 4; refuses when the source mentions sizes other than through the constant"""
    n = 0
    for p in tree_files(src):
        if not p.endswith(".rs"):
            continue
        s = open(p).read()
        t, k = WIDTH.subn(r"\g<1>4;", s)
        n += k
        if k:
            open(p, "w").write(t)
        for l in t.split("#[cfg(test)]\nmod ")[0].split("\n"):
            if NEAR.search(l.split("//")[0]):
                raise BuildError("a size is written out in %s: %s" % (os.path.basename(p), l.strip()))
    if n != 1:
        raise BuildError("no single node width constant")


class BuildError(Exception):
    pass


def facts(config="release"):
    """Facts of the current tree in the given configuration (cached by content hash of the tree)."""
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash()
    out = os.path.join(CACHE, "facts-%s-%s.json" % (config, h))
    lock = open(os.path.join(CACHE, "lock-" + config), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            drv = build_driver()
            feats, flags = CONFIGS[config]
            tgt = os.path.join(CACHE, "deps-" + config)
            src = mirror()
            try:
                if config == "width4":
                    narrow(src)
                e = env_base()
                e["CARGO_TARGET_DIR"] = tgt
                e["RUSTC_WORKSPACE_WRAPPER"] = drv
                e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
                e["RUSTFLAGS"] = " ".join(["-Zmir-opt-level=0", "-Awarnings", "-Zalways-encode-mir"] + flags)
                e["RRB_FACTS_OUT"] = out
                e["RRB_FACTS_CRATE"] = "librrb"
                cmd = ["cargo", "+" + TC, "check", "--lib", "--offline", "--locked", "--quiet",
                       "--manifest-path", os.path.join(src, "Cargo.toml")]
                if feats:
                    cmd += ["--features", ",".join(feats)]
                r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=src)
                if r.returncode or not os.path.exists(out):
                    raise BuildError(r.stdout[-4000:])
                old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)
                              if x.startswith("facts-%s-" % config)), key=os.path.getmtime)
                for x in old[:-6]:
                    os.remove(x)
            finally:
                shutil.rmtree(src, ignore_errors=True)
    finally:
        lock.close()
    return json.load(open(out))


if __name__ == "__main__":
    for c in sys.argv[1:] or ["release"]:
        f = facts(c)
        print(c, len(f["bodies"]), "bodies", len(f["types"]), "types")
