#!/usr/bin/env python3
"""Builds everything the checks run on: the engine, the LLVM IR of std (from the bitcode shipped in the rlibs of the
repository's toolchain) and the LLVM IR + native binary of a harness crate (which pulls /repo's crates in by path)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = V + "/build"
TGT = "x86_64-unknown-linux-gnu"
TC = "1.84-" + TGT
NB = os.path.expanduser("~/.rustup/toolchains/nightly-%s/lib/rustlib/%s/bin" % (TGT, TGT))
SYS = os.path.expanduser("~/.rustup/toolchains/%s/lib/rustlib/%s/lib" % (TC, TGT))

def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=B + "/target",
             RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp --cfg hudi_verif")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"): e.pop(k, None)
    return e

class Lock:
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(B + "/.lock", "w"); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

def engine():
    src = sorted(glob.glob(V + "/engine/*.[ch]pp"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    st = B + "/engine.hash"
    if os.path.exists(B + "/engine") and os.path.exists(st) and open(st).read() == h: return
    Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
    subprocess.check_call(["g++", "-O2", "-std=c++17", "-w", "-I" + Z + "/include", V + "/engine/exec.cpp", "-o", B + "/engine.tmp",
                           "-L" + Z + "/lib", "-lz3", "-Wl,-rpath," + Z + "/lib", "-lpthread"])
    os.rename(B + "/engine.tmp", B + "/engine"); open(st, "w").write(h)

def std_ir():
    """One .ll per codegen unit of every sysroot rlib (embedded .llvmbc sections)."""
    d = B + "/std"
    if os.path.exists(d + "/.done"): return sorted(glob.glob(d + "/*.ll"))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for r in sorted(glob.glob(SYS + "/*.rlib")):
        n = os.path.basename(r)[3:-5]
        if n.split("-")[0] in ("test", "proc_macro", "getopts", "unicode_width"): continue
        t = d + "/x_" + n; os.makedirs(t)
        subprocess.check_call(["ar", "x", r], cwd=t)
        for o in sorted(glob.glob(t + "/*.o")):
            bc = o[:-2] + ".bc"
            p = subprocess.run([NB + "/llvm-objcopy", "--dump-section=.llvmbc=" + bc, o, "/dev/null"], capture_output=True)
            if p.returncode or not os.path.exists(bc): continue
            subprocess.check_call([NB + "/llvm-dis", bc, "-o", d + "/" + n + "." + os.path.basename(o)[:-2] + ".ll"])
        shutil.rmtree(t)
    open(d + "/.done", "w").close()
    return sorted(glob.glob(d + "/*.ll"))

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def harness(name):
    """cargo build of /verif/harness/<name>; returns (native binary, list of .ll)."""
    # cargo decides staleness by mtime; make it a matter of content
    for key, dirs, pats in (("repo", ["/repo/crates"], ["hudi-*", "hudi_*"]), ("harness", [V + "/harness"], ["hv-*", "symrt-*"])):
        st = B + "/tree-%s-%s.hash" % (key, name); h = tree_hash(dirs)
        if not os.path.exists(st) or open(st).read() != h:
            for p in pats:
                for d in glob.glob(B + "/target/" + TGT + "/release/.fingerprint/" + p): shutil.rmtree(d, ignore_errors=True)
            for k in glob.glob(B + "/tree-%s-*.hash" % key): os.unlink(k)
            open(st, "w").write(h)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--target", TGT, "--message-format=json-render-diagnostics"],
                       cwd=V + "/harness/" + name, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr[-6000:]); return None
    lls, exe = [], None
    for l in p.stdout.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact": continue
        for f in m["filenames"]:
            if "/" + TGT + "/" not in f: continue
            if f.endswith(".rlib"):
                d, b = os.path.split(f); ll = d + "/" + b[3:-5] + ".ll"
                if not os.path.exists(ll): ll = d + "/deps/" + b[3:-5] + ".ll"
                lls.append(ll)
        if m.get("executable"): exe = m["executable"]; tgt = m["target"]["name"].replace("-", "_")
    # The final crate's .ll is the newest hv_*-<hash>.ll
    c = sorted(glob.glob(B + "/target/" + TGT + "/release/deps/" + tgt + "-*.ll"), key=os.path.getmtime)
    lls.append(c[-1])
    for old in c[:-1]: os.unlink(old)
    miss = [x for x in lls if not os.path.exists(x)]
    if miss: sys.stderr.write("missing IR: %s\n" % miss); return None
    return exe, lls

def build(name):
    with Lock():
        engine(); std = std_ir()
        r = harness(name)
        if not r: return None
        exe, lls = r
        mods = B + "/mods-%s.txt" % name
        open(mods + ".tmp", "w").write("\n".join(std + lls) + "\n"); os.rename(mods + ".tmp", mods)
        return exe, mods

if __name__ == "__main__":
    for n in sys.argv[1:] or ["core"]:
        t = time.time(); r = build(n)
        print(n, r, "%.1fs" % (time.time() - t))
        if not r: sys.exit(2)
