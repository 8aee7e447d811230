import sys, os, struct; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.core import Violation
from vf.proto import *
def many(c, bdir, k):
    """far more tags than the table starts with: creation, deletion and re-creation around the growth points"""
    rng=c.rng; c.serial=getattr(c, "serial", 0)+1
    srv=core.Server(bdir, c.base, "m%d" % c.serial).start()
    try:
        r=Raw(srv, "many"); live={}; dead=[]; nxt=None; style=rng.randrange(4); n=c.n(rng.choice([1100, 2150]), rng.choice([1100, 2200, 4300])); pdel=[0.05, rng.choice([0.3, 0.45]), 0.02][k % 3]
        alpha="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
        def name(k):
            if style == 0: return "t%05d" % k
            if style == 1: return "t%05d" % (99999-k)
            if style == 2: return rng.choice(alpha[:52])+"".join(rng.choice(alpha) for _ in range(rng.randrange(0, 31)))
            return rng.choice(["aa", "zz", "M"])+"%x" % ((k*2654435761) & 0xFFFFFFFF)
        def look(nm):
            e, t=r.by_name(nm)
            if nm in live:
                i, ty, ct, v=live[nm]
                if e or t[:3] != (i, ty, ct) or t[4] != nm: raise Violation("many:lookup", "lookup of %s gives %r %r, expected index %d" % (nm, e, t, i))
                e, t=r.by_index(i)
                if e or t[:3] != (i, ty, ct) or t[4] != nm: raise Violation("many:index", "lookup of index %d gives %r %r, expected %s" % (i, e, t, nm))
                e, d=r.read(i, 0, 4)
                if e or d != v: raise Violation("many:data", "tag %s holds %r expected %r" % (nm, d, v))
            elif not e: raise Violation("many:ghost", "lookup of %s, which does not exist, gives %r" % (nm, t))
        def counts():
            e, d=r.read(0, 0, 4); base.setdefault("n", struct.unpack("<i", d)[0]-len(live))
            if struct.unpack("<i", d)[0] != base["n"]+len(live): raise Violation("many:count", "_tagcount is %d, %d tags exist" % (struct.unpack("<i", d)[0], base["n"]+len(live)))
            e, d=r.read(1, 0, 4)
            if nxt is not None and struct.unpack("<i", d)[0] != nxt-1: raise Violation("many:lastindex", "_lastindex is %d, the last index given was %d" % (struct.unpack("<i", d)[0], nxt-1))
        base={}; counts(); used=set(); made=0
        while made < n:
            if live and rng.random() < pdel and not (nxt and nxt % 1024 in (1022, 1023, 0, 1)):
                nm=rng.choice(keys); keys.remove(nm); i=live.pop(nm)[0]
                if r.tag_del(i): raise Violation("many:del", "deleting %s refused" % nm)
                dead.append((nm, i)); look(nm)
            else:
                nm=name(made)
                if rng.random() < 0.1 and dead: nm=rng.choice(dead)[0]
                if nm in live: continue
                ty, ct=rng.choice([(DINT, 1), (BYTE, 4), (REAL, 2), (BOOL, 40)]); i=r.tag_add(nm, ty, ct)
                if i < 0: raise Violation("many:add", "creating %s (number %d) refused: %d" % (nm, made, i))
                if i in used: raise Violation("many:reuse", "index %d was given out twice" % i)
                if nxt is not None and i != nxt: raise Violation("many:next", "index %d given instead of %d" % (i, nxt))
                used.add(i); nxt=i+1; v=struct.pack("<I", rng.getrandbits(32)); r.write(i, 0, v); live[nm]=(i, ty, ct, v); keys=keys+[nm] if made else [nm]; made+=1
                look(nm)
            if keys and rng.random() < 0.2: look(rng.choice(keys))
            if nxt and nxt % 1024 in (0, 1, 1023): counts(); [look(x) for x in rng.sample(keys, min(50, len(keys)))]
            if rng.random() < 0.01: counts(); look("nosuch%d" % rng.randrange(1000)); [look(x) for x, _ in dead[-3:]]
        for nm in keys: look(nm)
        for nm, i in dead:
            look(nm)
            if not r.by_index(i)[0]: raise Violation("many:deleted", "deleted index %d can still be looked up" % i)
        counts(); c.count("tags_created", made); c.count("tags_deleted", len(dead)); c.case(("many", style, n, pdel)); c.evals+=made
        srv.check(); r.close()
    finally: srv.kill9()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    W=dict(tag_add=14, tag_del=5, lookup=8, read=3, write=4, ovr_add=0.5, ovr_set=0.3, ev_add=0.5, map_add=0.3, qwrite=0.5, qread=0.3, cdt=0.4)
    for i in range(c.n(3, 12)): c.run("many %d" % i, many, c, b, i)
    world.campaign(c, b, c.n(8, 60), c.n(3000, 8000), weights=W, invalid=0.15, names=60, attrs=(0, A_OWNED, A_OWNED|A_READONLY, A_RETAIN))
    # the library's own view: one client making all the changes, its tag cache (of any size) in the path of every lookup
    world.campaign(c, b, c.n(5, 50), c.n(2500, 6000), weights=dict(tag_add=10, tag_del=5, lookup=20, read=2, write=2, hread=2, hwrite=2, cdt=0.3, reconnect=0.1), invalid=0.12, names=40, nclients=0, libs=1, cached=True, sysev=False,
                   exe=core.build_harness("asan", "daxdrv.c"), libargs=lambda r: ("-Z", str(r.choice([1, 2, 3, 4, 8, 8, 40, 200]))))
    world.campaign(c, b, c.n(3, 30), c.n(2000, 6000), weights=dict(W, hread=2, hwrite=2), invalid=0.15, names=60, attrs=(0, A_OWNED, A_OWNED|A_READONLY), nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P02", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
