"""Builds the harness against /repo's current working tree: LLVM IR for the executor, native binaries for replay."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
TC = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip()


def digest():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml"), os.path.abspath(__file__)]
    for x in ("build.rs", ".cargo/config.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(REPO, x)):
            files.append(os.path.join(REPO, x))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def std_bitcode(root, crate, work):
    """bitcode embedded in the installed standard library (bodies of non-generic functions)"""
    b = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu")
    out = os.path.join(work, crate + ".bc")
    if os.path.exists(out):
        return out
    libs = glob.glob(os.path.join(b, "lib", "lib%s-*.rlib" % crate))
    if not libs:
        return None
    d = os.path.join(work, "x_" + crate)
    os.makedirs(d, exist_ok=True)
    try:
        sh([os.path.join(b, "bin/llvm-ar"), "x", libs[0]], cwd=d)
        for o in glob.glob(os.path.join(d, "*.o")):
            sh([os.path.join(b, "bin/llvm-objcopy"), "--dump-section", ".llvmbc=" + out, o, "/dev/null"])
            return out
    except BuildError:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def build():
    """returns the directory holding fxd.ll, rdev (replay, checks on), rrel (replay, as shipped)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dg = digest()
        out = os.path.join(CACHE, "b-" + dg)
        if os.path.exists(os.path.join(out, "done")):
            return out
        for old in glob.glob(os.path.join(CACHE, "b-*")):
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(os.environ)
        env["RUSTUP_TOOLCHAIN"] = TC
        env["CARGO_NET_OFFLINE"] = "true"
        env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k, None)
        # build a private copy of the manifest so that no lock file appears next to the committed one
        hd = os.path.join(CACHE, "harness")
        shutil.rmtree(hd, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness"), hd, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        for f in glob.glob(os.path.join(CACHE, "target/*/deps/*.bc")):
            os.remove(f)
        e2 = dict(env)
        e2["RUSTFLAGS"] = "--emit=llvm-bc,link -Cno-prepopulate-passes"
        e2["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target-ir")
        for f in glob.glob(os.path.join(CACHE, "target-ir/release/deps/*.bc")):
            os.remove(f)
        # cargo must recompile the two crates whose bitcode is needed
        for f in glob.glob(os.path.join(CACHE, "target-ir/release/.fingerprint/fxd-*")) + \
                glob.glob(os.path.join(CACHE, "target-ir/release/.fingerprint/vh-*")):
            shutil.rmtree(f, ignore_errors=True)
        jobs = [subprocess.Popen(["cargo", "build", "--offline", "--release", "--lib"], cwd=hd, env=e2,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)]
        txt = jobs[0].communicate()[0]
        if jobs[0].returncode:
            raise BuildError(txt[-6000:])
        for prof in ("rdev", "rrel"):
            sh(["cargo", "build", "--offline", "--profile", prof, "--bin", "replay"], cwd=hd, env=env)
            shutil.copy(os.path.join(CACHE, "target", prof, "replay"), os.path.join(tmp, prof))
        root = sysroot()
        B = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
        bcs = []
        for c in ("fxd", "vh"):
            m = glob.glob(os.path.join(CACHE, "target-ir/release/deps/%s-*.bc" % c))
            if len(m) != 1:
                raise BuildError("expected one bitcode file for %s, found %r" % (c, m))
            bcs.append(m[0])
        al = os.path.join(tmp, "a.bc")
        sh([os.path.join(B, "llvm-link"), *bcs, "-o", al])
        cur = al
        for c in ("alloc", "core"):
            sb = std_bitcode(root, c, CACHE)
            if sb:
                nx = os.path.join(tmp, "b-%s.bc" % c)
                try:
                    sh([os.path.join(B, "llvm-link"), "--only-needed", cur, sb, "-o", nx])
                    cur = nx
                except BuildError as e:
                    sys.stderr.write("note: std bitcode not linked (%s)\n" % str(e)[-300:])
        o = os.path.join(tmp, "o.bc")
        sh([os.path.join(B, "opt"), "-passes=internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg,adce)",
            "--internalize-public-api-list=h_*", cur, "-o", o])
        sh([os.path.join(B, "llvm-dis"), o, "-o", os.path.join(tmp, "fxd.ll")])
        # the functions of the crate under test, before anything is inlined
        names = sh([os.path.join(B, "llvm-nm"), "--defined-only", bcs[0]])
        open(os.path.join(tmp, "names"), "w").write(names)
        for f in glob.glob(os.path.join(tmp, "*.bc")):
            os.remove(f)
        open(os.path.join(tmp, "done"), "w").write("ok")
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(build())
