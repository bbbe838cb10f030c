"""The interpreter of absint against CPython on small functions of (4-bit x, 3-bit y, two bytes b):
its abstract result is evaluated on sample inputs and compared.  probe.py feat1|feat2|feat3 [function ...]

Development aid for the engine itself; it never runs code of /repo and no registered check uses it."""
import os, sys, random, itertools, time, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE))); sys.path.insert(0, HERE)
from absint import interp, world, bdd
from absint import values as V
from checks import base
import threading
feat = importlib.import_module(sys.argv[1])
threading.stack_size(512*1024*1024); sys.setrecursionlimit(100000)
src = interp.Source(HERE)
def norm(v):
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
    if isinstance(v, bool): return v
    return v
from absint.objects import *
def cev(v, asg):
    if isinstance(v, V.G):
        for g, x in v.alts:
            if bdd.evaluate(g, asg): return cev(x, asg)
    if isinstance(v, (ListObj, SetObj)): return [cev(x, asg) for g, x in v.e if bdd.evaluate(g, asg)]
    if isinstance(v, DictObj): return {cev(e.k, asg): cev(e.v, asg) for e in v.e if bdd.evaluate(e.g, asg)}
    if isinstance(v, tuple): return [cev(x, asg) for x in v]
    if type(v).__name__ == 'ByteArr' or hasattr(v, 'belems'): return bytes(cev(x, asg) for x in V.belems(v))
    return base.ev(v, asg)
def main():
    only = sys.argv[2:]
    bad = 0
    for name in [n for n in vars(feat) if n[:2] in ("f_", "g_", "h_")]:
        if only and name not in only: continue
        t=time.time()
        try:
            it = interp.Interp(src, world.World({}, {}, "/w"))
            m = it.import_module(sys.argv[1])
            f = it.getattr(m, name)
            X, Y = base.S("x", 4), base.S("y", 3)
            Bb = [base.S("b0", 8), base.S("b1", 8)]
            x, y = base.unsigned(X), base.unsigned(Y)
            b = V.ABytes([base.unsigned(q) for q in Bb])
            v, pc, ex = base.run(it, f, x, y, b)
        except Exception as e:
            print(name, "FAIL", type(e).__name__, str(e)[:150]); bad += 1; continue
        rnd = random.Random(1)
        miss = None
        for k in range(150):
            xv, yv, b0, b1 = rnd.randrange(16), rnd.randrange(8), rnd.choice([0, 211, 255, rnd.randrange(256)]), rnd.choice([0, 211, rnd.randrange(256)])
            asg = {}
            for nm, bits, val in (("x", 4, xv), ("y", 3, yv), ("b0", 8, b0), ("b1", 8, b1)):
                for i in range(bits): asg[bdd._KEY2VAR[("bit", nm, i)]] = (val >> (bits - 1 - i)) & 1
            try: want = norm(getattr(feat, name)(xv, yv, bytes([b0, b1])))
            except Exception as e: want = "!" + type(e).__name__
            try:
                if bdd.evaluate(pc, asg): got = norm(cev(v, asg))
                else:
                    got = [("!" + e.cls) for e in ex if bdd.evaluate(e.g, asg)]
                    got = got[0] if got else "??"
            except Exception as e:
                got = f"EV {type(e).__name__} {e}"
            if got != want and not (isinstance(want, float) and abs(got - want) < 1e-9):
                if repr(norm2(got)) != repr(norm2(want)):
                    miss = (xv, yv, b0, b1, want, got); break
        if miss: bad += 1; print(name, "DIFF", str(miss)[:300])
        if time.time()-t > 5: print(name, "slow", time.time()-t)
    print("bad", bad)
def norm2(v):
    if isinstance(v, list): return [norm2(x) for x in v]
    if isinstance(v, dict): return {k: norm2(x) for k, x in v.items()}
    if isinstance(v, (int, bool)): return int(v)
    if isinstance(v, float): return float("%.10g" % v) if v != int(v) else int(v)
    if isinstance(v, bytearray): return bytes(v)
    return v
th = threading.Thread(target=main); th.start(); th.join()
