#!/usr/bin/env python3
"""Self test of the engine (development aid): what the value graphs of tools/modeltest say is compared with running it.

usage: python3-vt tools/modeltest.py [name-substring]"""
import os, re, subprocess, sys, threading
V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V_)
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
INPUTS = [([], [], 0, 0.5), ([1.0], [2.0, -1.0], 1, 1.0), ([1.0, 2.0, 3.0], [3.0, 2.0, 1.0], 2, 2.0), ([-1.5, 0.0, 2.0, 2.0], [0.0, 0.0], 3, 0.0),
          ([3.0, -2.0, 3.0, 0.5, 1.0], [1.0, 1.0, 4.0], 1, -0.75), ([2.0, 2.0], [2.0, 2.0], 4, -2.5), ([0.0, 1.0, 1.0], [0.0, 1.0, 1.0], 0, 1.5),
          ([-1.0, -1.0, -4.0], [], 2, 3.0), ([5.0], [5.0], 3, 2.5)]


def rust(x):
    return "&[%s]" % ", ".join(repr(y) for y in x)


def main():
    from engine import interp as I, dump, terms as T, num as N, evalr as E, values as V
    from engine.oblig import Ctx, AlwaysPanics, arr_binds, leaf, Q
    d = V_ + "/tools/modeltest"
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    names = [n for n in re.findall(r"^pub fn (\w+)", open(d + "/src/lib.rs").read(), re.M) if pat in n]
    work = V_ + "/build/modeltest"
    os.makedirs(work, exist_ok=True)
    with open(work + "/main.rs", "w") as f:
        f.write('#![allow(warnings)]\n#[path = "%s/src/lib.rs"] mod m;\nfn main() { std::panic::set_hook(Box::new(|_| {}));\n' % d)
        for n in names:
            for v, w, k, x in INPUTS:
                f.write('match std::panic::catch_unwind(|| m::%s(%s, %s, %d, %r)) { Ok(v) => println!("%s {:?}", v), Err(_) => println!("%s panic") }\n' % (n, rust(v), rust(w), k, x, n, n))
        f.write("}\n")
    subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "-o", work + "/run", work + "/main.rs"], check=True)
    got = {}
    for l in subprocess.check_output([work + "/run"], text=True).splitlines():
        n, r = l.split(" ", 1)
        got.setdefault(n, []).append(r)
    P = I.Program(dump.dump(d, "modeltest"))
    import collections, multiprocessing as mp, signal
    cnt = collections.Counter()

    def one(n):
        c = Ctx(P, n, 0)
        try:
            A, B = N.sym("[v]", "a", unique=False), N.sym("[w]", "a", unique=False)
            lv, lw, k, x = c.nat("lv"), c.nat("lw"), c.nat("n"), c.real("x")
            el = lambda S: lambda s: T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [S, i], "r")), (s,))
            try:
                r = c.call(n, c.ref(V.mk_arr(lv, el(A))), c.ref(V.mk_arr(lw, el(B))), k, x)
            except AlwaysPanics:
                r = None
        except Exception as e:
            return "unsupported", "unsupported %s: %s" % (n, str(e)[:150])
        out = []
        bad = novalue = 0
        for (v, w, kk, xx), want in zip(INPUTS, got[n]):
            qs = lambda l: (lambda i: Q(l[i]) if i < len(l) else Q(0))
            env = {lv.val.single().id: len(v), lw.val.single().id: len(w), k.val.single().id: kk, x.val.single().id: Q(xx)}
            ip = E.Interp(1, env=env, arrays={A.id: qs(v), B.id: qs(w)})
            try:
                if ip.dd(c.panic) or r is None:
                    have = "panic"
                else:
                    ln = ip.toint(ip.dd(r.len))
                    have = []
                    for i in range(ln):
                        y = ip.with_bv(arr_binds(ip, r, i), lambda: ip.dd(r.body))
                        have.append(float(E.tomp(y)) if not isinstance(y, bool) else y)
            except (E.Fail, E.Undef) as e:
                novalue += 1
                out.append("  no value %s %s: %r" % (n, (v, w, kk, xx), e))
                continue
            if want == "panic" or have == "panic":
                same = want == have or want == "panic" and False
            else:
                ws = [float(y) if y not in ("NaN", "inf", "-inf") else y for y in want.strip("[]").replace(",", " ").split()]
                same = len(ws) == len(have) and all(isinstance(a, float) and abs(a - b) <= 1e-9 * max(1, abs(a)) for a, b in zip(ws, have))
            if not same:
                bad += 1
                out.append("  BAD %s %s: engine %s, run %s" % (n, (v, w, kk, xx), have, want))
        return "BAD" if bad else "novalue" if novalue else "ok", "\n".join(out)

    # one process per function, eight at a time, a minute each
    run = {}
    todo = list(names)
    while todo or run:
        while todo and len(run) < 8:
            n = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                signal.alarm(60)
                try:
                    k, o = one(n)
                except BaseException as e:
                    k, o = "crash", "crash %s: %r" % (n, e)
                os.write(wr, (k + "\n" + o).encode()[:60000])
                os._exit(0)
            os.close(wr)
            run[pid] = (n, rd)
        pid, _ = os.wait()
        n, rd = run.pop(pid)
        o = os.read(rd, 65536).decode()
        os.close(rd)
        k, _, o = o.partition("\n") if o else ("timeout", "", "timeout " + n)
        cnt[k] += 1
        if o:
            print(o, flush=True)
    print(dict(cnt))


t = threading.Thread(target=main)
t.start()
t.join()
