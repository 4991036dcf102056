#!/usr/bin/env python3
"""Self test of the Python side of the engine (development aid): value graphs against running the functions.

usage: python3-vt tools/modeltest_py.py [name-substring]"""
import collections, inspect, os, signal, sys, threading, warnings
V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V_)
sys.path.insert(0, V_ + "/tools/modeltest_py")
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
warnings.simplefilter("ignore")
import numpy as np
INPUTS = [([1.0, 2.0], [2.0, -1.0], 0, 0.5), ([1.0, -2.0, 3.0], [3.0, 2.0, 3.0], 1, 2.0), ([0.0, 0.0, 2.0], [0.0, 0.0, 2.0], 2, 0.0), ([2.0, -0.5], [4.0, 1.5], 3, -0.75),
          ([-1.0, -1.0, -4.0, 2.0], [1.0, 1.0, 0.0, 2.0], 4, -2.5), ([2.5, 1.5], [2.5, 1.5], 1, 1.5)]


def mat(k):
    return [[float((3 * i + 5 * j) % 7 - 2) for j in range(k)] for i in range(k)]


def flat(o):
    if o is None:
        return ["None"]
    if isinstance(o, (tuple, list)):
        return ["["] + [y for z in o for y in flat(z)] + ["]"]
    if isinstance(o, np.ndarray):
        return ["nd%s" % (o.shape,)] + [float(y) for y in o.ravel()]
    return [float(o)]


def main():
    from engine import pyfront as PF, terms as T, num as N, evalr as E, values as V
    from engine.oblig import Ctx, AlwaysPanics, arr_binds, Q, install
    from engine.values import Struct, Enum, Arr
    from engine.terms import DD
    from obligs import pyport as PP
    import pkg.mt as m
    install()
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    names = [n for n, f in vars(m).items() if inspect.isfunction(f) and f.__module__ == "pkg.mt" and pat in n and len(inspect.signature(f).parameters) == 5]
    P = PF.PyProgram(V_ + "/tools/modeltest_py", pkg="pkg")

    def val(ip, v):
        if isinstance(v, Enum):
            t = ip.dd(v.tag)
            return ["None"] if t == 0 else [y for z in v.pay.get(t, []) for y in val(ip, z)]
        if isinstance(v, Struct) and v.name == PF.ND:
            d, nd, d0, d1 = v.fs[:4]
            nd = ip.toint(ip.dd(nd))
            s = (ip.toint(ip.dd(d0)),) if nd == 1 else (ip.toint(ip.dd(d0)), ip.toint(ip.dd(d1)))
            if nd == 0:
                raise E.Fail("0-d")
            ln = int(np.prod(s))
            return ["nd%s" % (s,)] + [val(ip.__class__ and ip, None) if False else ip.with_bv(arr_binds(ip, d, i), lambda: num(ip, d.body)) for i in range(ln)]
        if isinstance(v, Struct):
            fs = v.fs
            if v.name == PF.LIST:
                a = fs[0]
                return ["["] + [y for i in range(ip.toint(ip.dd(a.len))) for y in ip.with_bv(arr_binds(ip, a, i), lambda: val(ip, a.body))] + ["]"]
            return ["["] + [y for z in fs for y in val(ip, z)] + ["]"]
        if isinstance(v, Arr):
            return ["["] + [y for i in range(ip.toint(ip.dd(v.len))) for y in ip.with_bv(arr_binds(ip, v, i), lambda: val(ip, v.body))] + ["]"]
        return [num(ip, v)]

    def num(ip, v):
        y = ip.dd(v)
        return float(E.tomp(y)) if not isinstance(y, bool) else float(y)

    def one(nm):
        c = Ctx(P, nm, 0)
        lv, k, x = c.nat("lv"), c.nat("n"), c.real("x")
        A, B, MM = N.sym("[v]", "a", unique=False), N.sym("[w]", "a", unique=False), N.sym("[M]", "a", unique=False)
        try:
            try:
                r = PP.pcall(c, "mt." + nm, PP.arr1(c, "v", lv), PP.arr1(c, "w", lv), PP.arr2(c, "M", lv, lv), k, x)
                r = PP.plain(c, r)
            except AlwaysPanics:
                r = None
        except Exception as e:
            return "unsupported", "unsupported %s: %s" % (nm, str(e)[:150])
        out, bad, nov = [], 0, 0
        for v, w, kk, xx in INPUTS:
            L = len(v)
            md = [y for z in mat(L) for y in z]
            try:
                want = flat(getattr(m, nm)(np.array(v), np.array(w), np.array(mat(L)), kk, xx))
            except Exception as e:
                want = "raises"
            qs = lambda l: (lambda i: Q(l[i]) if i < len(l) else Q(0))
            ip = E.Interp(1, env={lv.val.single().id: L, k.val.single().id: kk, x.val.single().id: Q(xx)}, arrays={A.id: qs(v), B.id: qs(w), MM.id: qs(md)})
            try:
                if ip.dd(c.panic) or r is None:
                    have = "raises"
                else:
                    have = val(ip, r)
            except (E.Fail, E.Undef) as e:
                nov += 1
                out.append("  no value %s %s: %r" % (nm, (v, w, kk, xx), e))
                continue
            same = len(want) == len(have) and all(a == b if isinstance(a, str) or isinstance(b, str) else abs(a - b) <= 1e-9 * max(1, abs(a)) for a, b in zip(want, have))
            if not same:
                bad += 1
                out.append("  BAD %s %s: engine %s, run %s" % (nm, (v, w, kk, xx), have, want))
        return "BAD" if bad else "novalue" if nov else "ok", "\n".join(out)
    cnt = collections.Counter()
    for n in names:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.alarm(60)
            try:
                k, o = one(n)
            except BaseException as e:
                import traceback
                k, o = "crash", "crash %s: %s" % (n, traceback.format_exc()[-600:])
            os.write(wr, (k + "\n" + o).encode()[:60000])
            os._exit(0)
        os.close(wr)
        os.wait()
        o = os.read(rd, 65536).decode()
        os.close(rd)
        k, _, o = o.partition("\n") if o else ("timeout", "", "timeout " + n)
        cnt[k] += 1
        if o:
            print(o, flush=True)
    print(dict(cnt))


t = threading.Thread(target=main)
t.start()
t.join()
