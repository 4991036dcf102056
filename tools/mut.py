#!/usr/bin/env python3
"""Development aid: apply each edit of a list to a scratch copy of /repo, analyse it, print the verdicts.

usage: mut.py LIST.py [name-substring]    LIST.py defines M = [(name, "C07 C09" or "*", file, old, new[, nth])...]
A name starting with ~ is a behaviour preserving edit (anything but HOLDS/UNDECIDED is a false alarm)."""
import os, sys, shutil, subprocess, threading, queue, runpy, json
V = "/verif"
sys.path.insert(0, V)
from engine import dump


def apply(d, edits):
    for f, old, new, nth in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        parts = s.split(old)
        if len(parts) < 2:
            raise SystemExit("no match for %r in %s" % (old, f))
        if nth == "all":
            s = s.replace(old, new)
        else:
            k = nth or 0
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)


def main():
    M = runpy.run_path(sys.argv[1])["M"]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    q = queue.Queue()
    for m in M:
        if pat in m[0]:
            q.put(m)
    lock = threading.Lock()
    bad = []

    def worker(w):
        d = "/tmp/mut%d_%d" % (os.getpid(), w)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            name, props, rest = m[0], m[1], m[2:]
            if isinstance(rest[0], list):
                edits = [tuple(e) + (None,) * (4 - len(e)) for e in rest[0]]
            else:
                edits = [tuple(rest) + (None,) * (4 - len(rest))]
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
            apply(d, edits)
            try:
                p = dump.dump(d, "mut%d" % w)
            except dump.BuildFailed as e:
                with lock:
                    print("BUILD FAILED", name, str(e)[-1500:], flush=True)
                continue
            r = subprocess.run(["python3-vt", V + "/tools/runobs.py", p] + (props.split() if props != "*" else []), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = [l for l in r.stdout.splitlines() if not l.startswith("HOLDS")]
            nv = sum(l.startswith("VIOLATED") for l in out)
            with lock:
                ok = (nv == 0) if name.startswith("~") else (nv > 0)
                if not ok:
                    bad.append(name)
                print("%s %s" % ("ok  " if ok else "MISS" if not name.startswith("~") else "FALSE-ALARM", name), flush=True)
                for l in out:
                    if not ok or l.startswith("UND") or "-v" in sys.argv:
                        print("     ", l[:330], flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(min(7, q.qsize()))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("bad:", bad)


main()
