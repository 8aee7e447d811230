import sys, os, struct; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
from vf.core import Violation
def limits(c, bdir, i):
    """as much as one group can hold, as many groups as one client can have"""
    r=c.rng; srv=core.Server(bdir, c.base, "lim%d" % i).start()
    try:
        a=Raw(srv, "a"); b=Raw(srv, "b"); ids=[a.tag_add("t%d" % k, BYTE, 4090) for k in range(3)]; vals=[]
        for k in ids: v=r.randbytes(4084); a.write(k, 0, v[:4000]); a.write(k, 4000, v[4000:]); vals.append(v)
        for total in (4083, 4084, 4085, 4086, 4088, 4090, 4096, 8000, 12000):
            for parts in (2, 3, 7, 150):
                cuts=sorted(r.sample(range(1, total), parts-1)); sz=[y-x for x, y in zip([0]+cuts, cuts+[total])]
                if max(sz) > 4080: continue
                hs=[]; want=b""
                for n in sz:
                    k=r.randrange(3); o=r.randrange(4084-n+1); hs.append(H(ids[k], o, 0, n, n, BYTE)); want+=vals[k][o:o+n]
                g=a.grp_add(hs); c.case(("limit", total, parts))
                if (g >= 0) != (total <= 4084): raise Violation("limit:size", "group of %d bytes in %d members gives %d" % (total, parts, g))
                if g < 0: continue
                x=a.grp_read(g)
                if x[0] < 0 or x[1] != want: raise Violation("limit:read", "group of %d bytes reads %d and %s" % (total, x[0], x[1].hex()[:100]))
                x=a.grp_write(g, want)
                if x < 0: raise Violation("limit:write", "group of %d bytes cannot be written: %d" % (total, x))
                if r.random() < 0.5 and a.grp_del(g): raise Violation("limit:del", "group cannot be deleted")
                srv.check(); c.count("big groups")
        for k, v in zip(ids, vals):
            if a.read(k, 0, 4000)[1]+a.read(k, 4000, 84)[1] != v: raise Violation("limit:write", "writing back what was read changed tag %d" % k)
        # many groups
        t=a.tag_add("m", UINT, 5000); live={}; n=0
        for k in range(0, 5000, 1000): a.write(t, 2*k, b"".join(struct.pack("<H", j) for j in range(k, k+1000)))
        d=Raw(srv, "d")
        while n < 4990:
            g=d.grp_add([H(t, 2*n, 0, 1, 2, UINT)])
            if g < 0: break
            if g in live: raise Violation("group:id", "group id %d is still in use" % g)
            live[g]=n; n+=1
            if r.random() < 0.02:
                k=r.choice(list(live)); del live[k]
                if d.grp_del(k): raise Violation("limit:del", "group %d cannot be deleted" % k)
        c.count("groups", n)
        if len(live) < 4096: raise Violation("limit:count", "with %d groups no more can be added" % len(live))
        for g in r.sample(sorted(live), 400)+[max(live), min(live)]:
            x=d.grp_read(g)
            if x[0] < 0 or x[1] != struct.pack("<H", live[g]): raise Violation("limit:content", "group %d of %d reads %r instead of %d" % (g, len(live), x, live[g]))
        if d.grp_add([H(t, 0, 0, 1, 2, UINT)]) < 0:
            k=max(live)
            if d.grp_del(k) or d.grp_add([H(t, 0, 0, 1, 2, UINT)]) < 0: raise Violation("limit:reuse", "the place of a deleted group cannot be used again")
        if b.grp_add([H(t, 0, 0, 1, 2, UINT)]) < 0: raise Violation("limit:other", "the groups of a client keep others from having any")
        for x in (a, b, d): x.close()
        srv.check()
    finally: srv.kill9()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    for i in range(c.n(1, 8)): c.run("limits %d" % i, limits, c, b, i)
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), weights=dict(grp_add=4, grp_del=1.5, grp_read=6, grp_write=8, write=4, mask=2, tag_add=1.5, tag_del=0.5, ev_add=0.4, ev_del=0.2, map_add=0.2, ovr_add=0.3, ovr_set=0.3, reconnect=0.05), attrs=(0,0,0,0,A_OWNED|A_READONLY), maxcount=40, modfrac=0.03)
    world.campaign(c, b, c.n(3, 40), c.n(2000, 6000), weights=dict(grp_add=4, grp_del=1.5, grp_read=6, grp_write=8, write=4, mask=2, cdt=0.1, tag_add=1.5, tag_del=0.5, ev_add=0.3, map_add=0.2, ovr_add=0.3, ovr_set=0.3, reconnect=0.05), attrs=(0,0,0,0,A_OWNED|A_READONLY), maxcount=40, modfrac=0.03, nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P07", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
