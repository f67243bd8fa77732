"""Builds everything a check needs from /repo's current working tree (offline).

  engine   the symbolic executor (nightly rustc driver + z3)
  sysroot  std with MIR for every function (cargo miri setup)
  sym/     /repo/src/lib.rs and its dependencies as metadata with MIR, for the executor
  nat/     the same sources as ordinary native code, for replays
Products are cached under /verif/build by a hash of their inputs.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIRSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ALT = "" if REPO == "/repo" else "-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]
TARGET = "x86_64-unknown-linux-gnu"
SYMFLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zinline-mir=no", "-Zcross-crate-inline-threshold=never",
            "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Cpanic=unwind", "-Awarnings", "--cap-lints=allow"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    env = dict(os.environ)
    env.update(kw.pop("env", {}))
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        if k not in kw.get("keep", ()):
            if k in os.environ and k not in env:
                env.pop(k, None)
    kw.pop("keep", None)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:400], p.stdout[-6000:]))
    return p.stdout


def hfiles(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(d, exts=(".rs", ".toml", ".lock")):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


def fresh(stamp, key):
    try:
        return open(stamp).read() == key
    except OSError:
        return False


def done(stamp, key):
    with open(stamp, "w") as f:
        f.write(key)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def nightly():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).strip()


def engine():
    src = os.path.join(VERIF, "engine")
    exe = os.path.join(BUILD, "engine", "release", "mirsym")
    key = hfiles(tree(src))
    stamp = os.path.join(BUILD, "engine.stamp")
    if not (fresh(stamp, key) and os.path.exists(exe)):
        sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=src,
           env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})
        done(stamp, key)
    return exe


def sysroot():
    d = os.path.join(BUILD, "sysroot")
    stamp = os.path.join(BUILD, "sysroot.stamp")
    key = sh(["rustc", "+nightly", "-vV"])
    if not fresh(stamp, key):
        sh(["cargo", "+nightly", "miri", "setup"], env={"MIRI_SYSROOT": d, "XDG_CACHE_HOME": os.path.join(BUILD, "cache")})
        if not glob.glob(os.path.join(d, "lib/rustlib", TARGET, "lib/libcore-*.rlib")):
            raise BuildError("no sysroot")
        done(stamp, key)
    return d


def dep_crate(kind):
    """a crate with /repo's dependency section and lock file"""
    d = os.path.join(BUILD, kind, "deps")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    import tomllib
    man = open(os.path.join(REPO, "Cargo.toml")).read()
    meta = tomllib.loads(man)
    deps = []
    sect = None
    for line in man.splitlines():
        if line.strip().startswith("["):
            sect = line.strip()
        if sect == "[dependencies]" or (sect or "").startswith("[dependencies."):
            deps.append(line)
    text = '[package]\nname = "jstdeps"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n' + "\n".join(deps) + "\n[workspace]\n"
    lock = open(os.path.join(REPO, "Cargo.lock")).read().replace('name = "%s"' % meta["package"]["name"], 'name = "jstdeps"')
    lock = lock.replace('version = "%s"\ndependencies' % meta["package"]["version"], 'version = "0.1.0"\ndependencies')
    return d, text, lock, meta


def write_if(p, s):
    if not (os.path.exists(p) and open(p).read() == s):
        with open(p, "w") as f:
            f.write(s)


def deps(kind, sysr=None):
    d, text, lock, meta = dep_crate(kind)
    key = hashlib.sha256((text + lock + str(SYMFLAGS)).encode()).hexdigest()
    stamp = os.path.join(BUILD, kind, "deps.stamp")
    if not fresh(stamp, key):
        write_if(os.path.join(d, "Cargo.toml"), text)
        with open(os.path.join(d, "Cargo.lock"), "w") as f:
            f.write(lock)
        write_if(os.path.join(d, "src/lib.rs"), "")
        env = {"CARGO_TARGET_DIR": os.path.join(BUILD, kind, "target")}
        shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
        if kind == "sym":
            env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(["--sysroot", sysr] + SYMFLAGS)
            cmd = ["cargo", "+nightly", "build", "--offline", "--target", TARGET]
        else:
            cmd = ["cargo", "build", "--offline"]
        sh(cmd, cwd=d, env=env, keep=("CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"))
        base = os.path.join(BUILD, kind, "all")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        tgt = env["CARGO_TARGET_DIR"]
        pats = [os.path.join(tgt, TARGET, "debug", "**", "*.rlib"), os.path.join(tgt, TARGET, "debug", "**", "*.rmeta"),
                os.path.join(tgt, "debug", "**", "*.so")] if kind == "sym" else \
               [os.path.join(tgt, "debug", "**", x) for x in ("*.rlib", "*.rmeta", "*.so")]
        for pat in pats:
            for f in glob.glob(pat, recursive=True):
                n = os.path.join(base, os.path.basename(f))
                if not os.path.exists(n) and "-" in os.path.basename(f):
                    shutil.copy(f, n)
        shutil.rmtree(tgt, ignore_errors=True)
        done(stamp, key)
    base = os.path.join(BUILD, kind, "all")
    ext = []
    for name, spec in meta.get("dependencies", {}).items():
        if isinstance(spec, dict) and spec.get("optional"):
            continue
        cr = name.replace("-", "_")
        c = glob.glob(os.path.join(base, "lib%s-*.rlib" % cr))
        if c:
            f = max(c, key=os.path.getmtime)
            ext += ["--extern", "%s=%s" % (cr, f)]
            if os.path.exists(f[:-4] + "rmeta"):
                ext += ["--extern", "%s=%s" % (cr, f[:-4] + "rmeta")]
    return base, ext, meta, key


def jst(kind, sysr, base, ext, meta, dkey):
    """compile /repo/src/lib.rs as crate `jst`"""
    out = os.path.join(BUILD, kind, "jst" + ALT)
    os.makedirs(out, exist_ok=True)
    key = hfiles(tree(os.path.join(REPO, "src")), dkey + kind)
    stamp = os.path.join(BUILD, kind, "jst%s.stamp" % ALT)
    lib = os.path.join(out, "libjst.rlib")
    if not (fresh(stamp, key) and os.path.exists(lib)):
        pkg = meta["package"]
        path = meta.get("lib", {}).get("path", "src/lib.rs")
        env = {"CARGO_PKG_VERSION": pkg["version"], "CARGO_PKG_NAME": pkg["name"], "CARGO_MANIFEST_DIR": REPO,
               "CARGO_PKG_AUTHORS": ":".join(pkg.get("authors", [])), "CARGO_PKG_DESCRIPTION": pkg.get("description", "")}
        cmd = ["rustc"] + (["+nightly"] if kind == "sym" else [])
        cmd += [os.path.join(REPO, path), "--crate-name", "jst", "--crate-type", "rlib", "--edition", pkg.get("edition", "2015"),
                "-o", lib, "-L", "dependency=" + base] + ext
        cmd += (["--sysroot", sysr, "--target", TARGET] + SYMFLAGS) if kind == "sym" else ["-Cdebug-assertions=on", "-Copt-level=0", "--cap-lints=allow"]
        sh(cmd, env=env)
        done(stamp, key)
    return lib, key


def symrt(kind, sysr):
    src = os.path.join(VERIF, "symrt/src/lib.rs")
    out = os.path.join(BUILD, kind, "symrt")
    os.makedirs(out, exist_ok=True)
    lib = os.path.join(out, "libsymrt.rlib")
    key = hfiles([src], kind + str(SYMFLAGS))
    stamp = os.path.join(BUILD, kind, "symrt.stamp")
    if not (fresh(stamp, key) and os.path.exists(lib)):
        cmd = ["rustc"] + (["+nightly", "--cfg", "mirsym", "--sysroot", sysr, "--target", TARGET] + SYMFLAGS if kind == "sym" else ["--cap-lints=allow"])
        sh(cmd + [src, "--crate-name", "symrt", "--crate-type", "rlib", "--edition", "2021", "-o", lib])
        done(stamp, key)
    return lib, key


def harness_cmd(kind, sysr, base, ext, libs):
    return [os.environ.get("MIRSYM_ROOT") or os.path.join(VERIF, "harness/src/main.rs"), "--crate-name", "harness", "--edition", "2021",
            "-L", "dependency=" + base, "--extern", "jst=" + libs[0], "--extern", "symrt=" + libs[1]] + ext + \
        (["--crate-type", "rlib", "--sysroot", sysr, "--target", TARGET, "--cfg", "mirsym"] + SYMFLAGS if kind == "sym" else ["--cap-lints=allow", "-Copt-level=0"])


def setup(native=True, symbolic=True):
    """returns dict with engine command pieces and the native replay binary"""
    r = {}
    with Lock():
        if symbolic:
            r["engine"] = engine()
            s = sysroot()
            r["sysroot"] = s
            base, ext, meta, dk = deps("sym", s)
            lib, _ = jst("sym", s, base, ext, meta, dk)
            sr, _ = symrt("sym", s)
            r["sym_args"] = harness_cmd("sym", s, base, ext, (lib, sr))
            nl = nightly()
            r["ld"] = os.path.join(nl, "lib")
        if native:
            base, ext, meta, dk = deps("nat")
            lib, jk = jst("nat", None, base, ext, meta, dk)
            sr, sk = symrt("nat", None)
            exe = os.path.join(BUILD, "nat", "replay" + ALT)
            key = hfiles(tree(os.path.join(VERIF, "harness/src")), jk + sk)
            stamp = os.path.join(BUILD, "nat", "replay%s.stamp" % ALT)
            if not (fresh(stamp, key) and os.path.exists(exe)):
                sh(["rustc"] + harness_cmd("nat", None, base, ext, (lib, sr)) + ["-o", exe])
                done(stamp, key)
            r["replay"] = exe
    return r


def run_engine(b, harness, out, timeout, extra=None, mem_gb=None):
    env = dict(os.environ)
    env.update({"LD_LIBRARY_PATH": b["ld"], "MIRSYM_HARNESS": harness, "MIRSYM_OUT": out, "MIRSYM_TIMEOUT": str(int(timeout)),
                "RUST_MIN_STACK": str(4 << 30)})
    env.update(extra or {})
    cmd = [b["engine"], "rustc"] + b["sym_args"] + ["-o", out + ".rlib"]
    return subprocess.Popen(cmd, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)


if __name__ == "__main__":
    r = setup()
    print(json.dumps(r, indent=1))
