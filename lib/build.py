"""Builds: the engine, the LLVM IR of /repo + harness, and the native replay binaries."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
NATIVE_TOOLCHAIN = "1.71.1"


class BuildError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTUP_HOME", "CARGO_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def run(cmd, env, cwd, what, timeout=1500):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, p.stdout.decode(errors="replace")[-40000:], p.stderr.decode(errors="replace")[-10000:]))
    return p.stdout


def hash_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff if "/target/" not in d)
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def repo_hash():
    ps = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
    b = os.path.join(REPO, "build.rs")
    return hash_tree(ps + ([b] if os.path.exists(b) else []))


def harness_hash():
    return hash_tree([os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "shims")])


def fresh_sources(target_dir, env, manifest, packages, toolchain):
    """cargo decides by mtime; force a rebuild when the content differs from what was last built here."""
    stamp = os.path.join(target_dir, "sources.stamp")
    want = repo_hash() + harness_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want and os.path.isdir(target_dir):
        for p in packages:
            subprocess.run(["cargo", "+" + toolchain, "clean", "--offline", "-p", p, "--manifest-path", manifest], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for d in glob.glob(os.path.join(target_dir, "**", "build", "merkletree"), recursive=True) + \
                glob.glob(os.path.join(target_dir, "**", "build", "harness_*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
    return stamp, want


def engine():
    exe = os.path.join(TARGET, "engine", "release", "symex")
    src = hash_tree([os.path.join(VERIF, "engine", "src"), os.path.join(VERIF, "engine", "Cargo.toml")])
    stamp = os.path.join(TARGET, "engine", "stamp")
    with Lock("engine"):
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == src):
            e = base_env()
            run(["cargo", "+stable", "build", "--release", "--offline", "--target-dir", os.path.join(TARGET, "engine")], e,
                os.path.join(VERIF, "engine"), "engine build")
            open(stamp, "w").write(src)
    return exe


def llvm_bin():
    e = base_env()
    s = run(["rustc", "+nightly", "--print", "sysroot"], e, "/", "rustc").decode().strip()
    return os.path.join(s, "lib", "rustlib", TRIPLE, "bin")


def ir(feature, entries):
    """LLVM IR of the property's harness linked with merkletree, rayon, std ... from the current tree."""
    td = os.path.join(TARGET, "sym")
    out = os.path.join(TARGET, "ir", feature)
    os.makedirs(out, exist_ok=True)
    with Lock("sym"):
        e = base_env()
        e["CARGO_TARGET_DIR"] = td
        e["RUSTFLAGS"] = "--emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp --cap-lints=allow"
        mf = os.path.join(VERIF, "harness", "sym", "Cargo.toml")
        stamp, want = fresh_sources(td, e, mf, ["merkletree", "harness_sym"], "nightly")
        if os.path.exists(stamp):
            os.remove(stamp)
        o = run(["cargo", "+nightly", "build", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--offline", "--locked",
                 "--features", feature, "--message-format=json"], e, os.path.join(VERIF, "harness", "sym"), "IR build")
        bcs = []
        for l in o.decode().splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-artifact" or "/" + TRIPLE + "/" not in m["filenames"][0]:
                continue
            if m["target"]["name"] in ("panic_unwind", "proc_macro"):
                continue
            d = os.path.dirname(m["filenames"][0])
            stem = os.path.basename(m["filenames"][0]).rsplit(".", 1)[0][3:]
            b = glob.glob(os.path.join(d, stem + "*.bc"))
            if not b:
                raise BuildError("no bitcode for %s in %s" % (m["target"]["name"], d))
            bcs += b
        B = llvm_bin()
        a, s, ll = (os.path.join(out, x) for x in ("all.bc", "small.bc", "h.ll"))
        run([B + "/llvm-link"] + bcs + ["-o", a], e, "/", "llvm-link")
        run([B + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), a, "-o", s], e, "/", "opt")
        run([B + "/llvm-dis", s, "-o", ll], e, "/", "llvm-dis")
        os.remove(a)
        os.remove(s)
        open(stamp, "w").write(want)
    return ll


def native(feature, shim=False):
    """Replay binary: the same harness on the natively built crate (with `shim`: on the scheduling shims)."""
    name = "shimnative" if shim else "native"
    tc = "nightly" if shim else NATIVE_TOOLCHAIN
    td = os.path.join(TARGET, name)
    with Lock(name):
        e = base_env()
        e["CARGO_TARGET_DIR"] = td
        e["RUSTFLAGS"] = "--cap-lints=allow"
        mf = os.path.join(VERIF, "harness", name, "Cargo.toml")
        stamp, want = fresh_sources(td, e, mf, ["merkletree", "harness_" + name], tc)
        if os.path.exists(stamp):
            os.remove(stamp)
        o = run(["cargo", "+" + tc, "build", "--offline", "--locked", "--features", feature, "--message-format=json"], e,
                os.path.join(VERIF, "harness", name), name + " build")
        exe = None
        for l in o.decode().splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m.get("executable") and m["target"]["name"] == "replay":
                exe = m["executable"]
        if not exe:
            raise BuildError("no replay binary")
        dst = os.path.join(TARGET, "bin", name + "-" + feature)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        subprocess.run(["cp", exe, dst + ".tmp"], check=True)
        os.rename(dst + ".tmp", dst)
        open(stamp, "w").write(want)
    return dst
