"""Type-level witnesses: small programs compiled (never run) against the current tree's metadata."""
import concurrent.futures, fcntl, glob, json, os, shutil, subprocess, tempfile
import extract


def metadata():
    """(path of librrb's rmeta, dependency dir) for the current tree."""
    h = extract.tree_hash()
    tgt = os.path.join(extract.CACHE, "witness")
    os.makedirs(tgt, exist_ok=True)
    keep = os.path.join(tgt, "librrb-%s.rmeta" % h)
    lock = open(os.path.join(extract.CACHE, "lock-witness"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(keep):
            src = extract.mirror()
            try:
                e = extract.env_base()
                e["CARGO_TARGET_DIR"] = tgt
                e["RUSTFLAGS"] = "-Awarnings"
                for f in glob.glob(os.path.join(tgt, "debug", "**", "*librrb-*.rmeta"), recursive=True):
                    os.remove(f)
                for f in glob.glob(os.path.join(tgt, "debug", "build", "librrb")):
                    shutil.rmtree(f)
                r = subprocess.run(["cargo", "+" + extract.TC, "check", "--lib", "--offline", "--locked", "--quiet",
                                    "--manifest-path", os.path.join(src, "Cargo.toml")], env=e, cwd=src,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out = glob.glob(os.path.join(tgt, "debug", "**", "liblibrrb-*.rmeta"), recursive=True)
                if r.returncode or not out:
                    raise extract.BuildError(r.stdout[-4000:])
                shutil.copyfile(out[0], keep)
            finally:
                shutil.rmtree(src, ignore_errors=True)
    finally:
        lock.close()
    deps = {os.path.dirname(f) for f in glob.glob(os.path.join(tgt, "debug", "**", "*.rmeta"), recursive=True)}
    deps |= {os.path.dirname(f) for f in glob.glob(os.path.join(tgt, "debug", "**", "*.so"), recursive=True)}
    return keep, sorted(deps)


def compile_all(progs):
    """progs: name -> source of a library crate. Returns name -> (ok, [error codes], text)."""
    rmeta, deps = metadata()
    d = tempfile.mkdtemp(prefix="rrbwit.")
    env = extract.env_base()

    def one(item):
        name, src = item
        f = os.path.join(d, name + ".rs")
        open(f, "w").write(src)
        r = subprocess.run(["rustc", "+" + extract.TC, "--edition", "2018", "--crate-type", "lib", "--crate-name", "w_" + name,
                            "--emit=metadata", "-o", os.path.join(d, name + ".rmeta"), "--error-format=json",
                            "-Awarnings", "--extern", "librrb=" + rmeta] + sum([["-L", "dependency=" + x] for x in deps], []) + [f],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
        codes, msgs = [], []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                msgs.append(l)
                continue
            if m.get("level") == "error":
                msgs.append(m["message"])
                if m.get("code"):
                    codes.append(m["code"]["code"])
        return name, (r.returncode == 0, codes, "; ".join(msgs)[:400])
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, progs.items()))
    finally:
        shutil.rmtree(d, ignore_errors=True)
