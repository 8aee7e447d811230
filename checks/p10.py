import sys, os, signal, subprocess, struct, time; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.core import Violation, Died
from vf.proto import *
from vf.model import *

class RWorld(world.World):
    """A world whose retained tags are followed over restarts."""
    expected=None   # name -> list of acceptable (definition, count, data) ; None in the list = may be absent
    def loadextra(w):
        # the definitions of the types come back with the tags
        w.m.types.clear(); w.m.types[CUSTOM]=MODSIZE; w.m.types[CUSTOM|1]=47
        i=2
        while True:
            r, ty, s=w.boot.cdt_get(type=CUSTOM|i)
            if r: break
            name, *mem=s.split(":"); mm=[]
            for x in mem:
                a, t, n=x.split(","); ty2=next((k for k, v in NAMES.items() if v == t), None) or w.boot.cdt_get(name=t)[1]; mm.append((a, ty2, int(n)))
            w.m.types[CUSTOM|i]=w.cdtsize(mm); w.m.typenames[CUSTOM|i]=name; w.m.cdtdef[CUSTOM|i]=(name, mm, s); i+=1
        w.m.ncdt=i
        super().loadextra()
        got={t.name: t for t in w.m.tags.values() if t.idx > 10 and not t.attr & A_SPECIAL}
        if w.expected is None: return
        for n, acc in w.expected.items():
            t=got.pop(n, None)
            if t is None:
                if None not in acc: w.bad("lost", "retained tag %s is gone after a restart" % n)
                continue
            st=(w.typedef(t.type), t.count, bytes(t.data))
            if st not in [a for a in acc if a]:
                w.bad("changed", "retained tag %s came back as %r, expected one of %r" % (n, (st[0], st[1], st[2].hex()[:200]), [(a[0], a[1], a[2].hex()[:200]) if a else None for a in acc]))
            if not t.attr & A_RETAIN: w.bad("notretained", "tag %s is no longer retained after a restart" % n)
            w.c.count("tags_compared_after_restart"); w.c.case(("restart", st[0], st[1], hash(st[2])))
        if got: w.bad("extra", "tags %s exist after a restart but were not retained" % sorted(got)[:5])
    inflight=None
    def add(w, cl, name, type, count, attr=0):
        res=w.m.add_ok(cl, name, type, count, attr)
        if res is not None and not type & QUEUE and (attr & A_RETAIN or (res != "new" and res.attr & A_RETAIN)):
            data=(bytes(res.data) if res != "new" else b""); n=max(count, res.count if res != "new" else 0)
            w.inflight={name: [(w.typedef(type), n, data.ljust(w.m.tagsize(type, n), b"\0"))]}
        t=super().add(cl, name, type, count, attr); w.inflight=None; return t
    def pending(w):
        """what is retained if the tag_add under way was completed"""
        r=w.retained(); r.update(w.inflight or {}); return r
    def typedef(w, t): return NAMES.get(t) or w.m.cdtdef[t][2]
    def retained(w):
        return {t.name: [(w.typedef(t.type), t.count, bytes(t.data))] for t in w.m.tags.values() if t.attr & A_RETAIN}

W=dict(tag_add=3, tag_del=0.7, write=8, mask=4, atomic=2, read=1, lookup=0.5, grp_add=0.3, grp_write=1, map_add=0.5, cdt=0.3, ovr_add=0.3, ovr_set=0.3, ev_add=0.2)
KW=dict(attrs=(0, 0, A_RETAIN, A_RETAIN, A_RETAIN), bigfrac=0.03, maxcount=20, names=30, cdtfrac=0.25, nclients=2, tcp=0)
def merge(a, b):
    r={}
    for n in set(a)|set(b):
        r[n]=a.get(n, [None])+b.get(n, [None])
    return r

def life(c, bdir, i, crash):
    rng=c.rng
    shim=None
    if crash:
        shim=os.path.join(core.BUILD, "crashio.so")
        r=subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", shim, os.path.join(core.VERIF, "harness/crashio.c"), "-ldl"], capture_output=True)
        if r.returncode: raise core.BuildError(r.stderr.decode())
    c.serial=getattr(c, "serial", 0)+1; srv=core.Server(bdir, c.base, "r%d" % c.serial)
    exp=None
    for gen in range(c.n(5, 8)):
        end=rng.choice(["kill", "kill", "quiet", "term"]) if not crash else "crash"
        if crash: srv.env={"LD_PRELOAD": shim, "CRASH_AT": str(rng.choice([rng.randrange(0, 40), rng.randrange(0, 400), rng.randrange(0, 2000)])) if gen % 2 == 0 or rng.random() < 0.5 else "-1"}
        try: srv.start()
        except Died:
            if crash:   # it crashed while it was setting up: that is the injected crash
                srv.env={"LD_PRELOAD": shim, "CRASH_AT": "-1"}; srv.start(); c.count("crash_at_start")
            else: raise
        before=exp; after=exp
        w=None
        class X(RWorld): expected=exp
        try:
            w=X(c, srv, dict(W, grp_write=0) if crash else W, pid=c.pid, **KW)
            w.crashing=crash
            for k in range(rng.randrange(1, c.n(250, 600))):
                before=w.retained()
                w.step()
                before=None
                if k % 100 == 99: w.sweep()
            exp=w.retained(); w.close()
            c.count("restarts")
            if end == "term": srv.term(t=14)
            else: srv.kill9()
        except Died as d:
            if not crash or srv.p.poll() is None: raise
            srv.p.wait()
            if srv.p.returncode != -9: raise
            # the operation that was under way may or may not have happened (the model has already applied it)
            c.count("crash_points")
            if w is None:
                if exp is None: exp={}
            else:
                now=w.retained()
                exp=merge(before, now) if before is not None else now
                if w.inflight: exp=merge(exp, w.pending())
    srv.kill9()

def body(c):
    basan=core.build("asan", ["tagserver", "dax", "daxlog"])
    for i in range(c.n(5, 60)): c.run("life %d" % i, life, c, basan, i, False)
    bplain=core.build("plain", ["tagserver", "dax", "daxlog"])
    for i in range(c.n(8, 120)): c.run("crash %d" % i, life, c, bplain, i, True)
core.main("P10", "one evaluation per retained tag compared after a restart or crash, and per request compared with the model; distinct by definition, length and contents", body)
