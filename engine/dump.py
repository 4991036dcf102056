"""Type-check the current tree with the mirdump compiler driver and return the dumped program."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, "driver", "target", "release", "mirdump")


class BuildFailed(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise BuildFailed("driver: " + r.stdout[-3000:])


def dump(src, tag, flags=(), debug=False, out="out"):
    """dump crate at src; tag names the private target directory (several checks may run at once: the build is serialised, each gets its own copy of the result)"""
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", "." + tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = _dump(src, tag, flags, debug, out)
        mine = "%s.%d" % (p, os.getpid())
        shutil.copyfile(p, mine)
    MINE.append(mine)
    return mine


MINE = []


def cleanup():
    for p in MINE:
        if os.path.exists(p):
            os.unlink(p)


def _dump(src, tag, flags, debug, out):
    if not os.path.exists(DRIVER):
        build_driver()
    base = os.path.join(VERIF, "build", tag)
    tgt, out = os.path.join(base, "target"), os.path.join(base, out)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        m = f.rsplit(".", 1)[-1]
        if not (m.isdigit() and os.path.exists("/proc/" + m)):
            os.unlink(os.path.join(out, f))
    # force the crate itself (never its dependencies) to be analysed again
    for sub in ("build", ".fingerprint", "deps", "incremental"):
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("ellalgo"):
                    d = os.path.join(fp, d)
                    if os.path.isdir(d):
                        shutil.rmtree(d)
                    else:
                        os.unlink(d)
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    env["MIRDUMP_OUT"] = out
    env.pop("MIRDUMP_DEBUG", None)
    if debug:
        env["MIRDUMP_DEBUG"] = "1"
    env["CARGO_TARGET_DIR"] = tgt
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline", *flags], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = os.path.join(out, "ellalgo_rs-Rlib.json")
    if r.returncode != 0 or not os.path.exists(p):
        raise BuildFailed(r.stdout[-3000:])
    return p


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        build_driver()
    print(dump("/repo", "repo"))
    print(dump(os.path.join(VERIF, "spec"), "spec"))
