"""Resolved-program facts for /repo: builds the rustc driver if needed, runs it over the current
source tree, and indexes the result (THIR trees, MIR graphs, ADTs, impls)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "nightly"
CRATE = "spl_transpiler"


class AnalysisError(Exception):
    """The analysis cannot give an answer (broken build, missing tool)."""


def _run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def _env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["PYO3_PYTHON"] = "/opt/spl-venv/bin/python"
    e["RUSTFLAGS"] = "-Awarnings"
    return e


def sysroot():
    rc, out = _run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], env=_env())
    if rc:
        raise AnalysisError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"<absent>")
    return h.hexdigest()


def _tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def build_driver():
    src = _tree(os.path.join(VERIF, "driver"), (".rs", ".toml"))
    key = _hash_files(src)
    tdir = os.path.join(CACHE, "driver")
    exe = os.path.join(tdir, "release", "splfacts")
    stamp = os.path.join(tdir, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    os.makedirs(tdir, exist_ok=True)
    e = _env()
    e["CARGO_TARGET_DIR"] = tdir
    rc, out = _run(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--release"], env=e,
                   cwd=os.path.join(VERIF, "driver"))
    if rc:
        raise AnalysisError("driver build failed:\n" + out[-4000:])
    with open(stamp, "w") as f:
        f.write(key)
    return exe, key


def get_facts_path():
    """Path of a facts file describing exactly /repo's current working tree."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe, dkey = build_driver()
        srcs = _tree(os.path.join(REPO, "src"), (".rs",)) + [
            os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
        key = hashlib.sha256((_hash_files(srcs) + dkey).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, "facts-%s.json" % key)
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith("facts-"):
                os.unlink(os.path.join(CACHE, f))
        tdir = os.path.join(CACHE, "target")
        # cargo's freshness cache would silently skip the wrapper: always forget this crate.
        for sub in ("debug/build/" + CRATE, "debug/.fingerprint"):
            p = os.path.join(tdir, sub)
            if sub.endswith(CRATE):
                shutil.rmtree(p, ignore_errors=True)
            elif os.path.isdir(p):
                for f in os.listdir(p):
                    if f.startswith(CRATE + "-"):
                        shutil.rmtree(os.path.join(p, f), ignore_errors=True)
        e = _env()
        e["CARGO_TARGET_DIR"] = tdir
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        tmp = out + ".tmp"
        e["SPLFACTS_OUT"] = tmp
        e["SPLFACTS_CRATE"] = CRATE
        lockf = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lockf) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lockf)
        rc, txt = _run(["cargo", "+" + TOOLCHAIN, "check", "--offline", "--lib"], env=e, cwd=REPO)
        if rc or not os.path.exists(tmp):
            raise AnalysisError("cargo check under the fact driver failed:\n" + txt[-4000:])
        os.rename(tmp, out)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


GLUE = {"pyclass", "pymethods", "pymodule", "pyfunction"}
DERIVES = {"PartialEq", "Hash", "Debug", "Clone", "Default", "FloatHash", "FloatPartialEq", "FloatEq", "Eq",
           "Copy"}


class Facts:
    def __init__(self, path=None):
        self.path = path or get_facts_path()
        with open(self.path) as f:
            d = json.load(f)
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.by_path = {}
        for b in d["bodies"]:
            self.by_path.setdefault(b["path"], []).append(b)
        self.impl_by_trait = {}
        for i in self.impls:
            self.impl_by_trait.setdefault(i["trait"], []).append(i)

    # -- classification -------------------------------------------------------------------
    @staticmethod
    def macro(b):
        sp = b["span"]
        return sp[3] if len(sp) > 3 else None

    def is_glue(self, b):
        """generated by pyo3's macros or a derive: not hand-written code."""
        m = self.macro(b)
        return m in GLUE or m in DERIVES

    def hand_written(self):
        for b in self.bodies.values():
            if not self.is_glue(b):
                yield b

    def fns(self):
        return [b for b in self.hand_written() if b["kind"] in ("Fn", "AssocFn")]

    def one(self, path_suffix):
        r = [b for p, bs in self.by_path.items() if p.endswith(path_suffix) for b in bs]
        if len(r) != 1:
            raise AnalysisError("anchor %r matched %d bodies" % (path_suffix, len(r)))
        return r[0]

    def maybe(self, path_suffix):
        return [b for p, bs in self.by_path.items() if p.endswith(path_suffix) for b in bs]

    def loc(self, sp):
        return "%s:%s" % (sp[0], sp[1]) if sp else "?"

    def parent_fn(self, b):
        while b["kind"] == "Closure":
            b = self.bodies[b["parent"]]
        return b


def walk(x):
    """All expression/pattern/statement nodes of a THIR tree."""
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if "k" in n:
                yield n
            st.extend(reversed([v for v in n.values() if isinstance(v, (dict, list))]))
        elif isinstance(n, list):
            st.extend(reversed([v for v in n if isinstance(v, (dict, list))]))


def short(p):
    return p.replace("spl_transpiler::", "")
