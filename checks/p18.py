import sys, os, struct, time, itertools, socket, threading; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world, relay
from vf.core import Violation, Died, hx, uhx
from vf.proto import *
import vf.world as W
serial=itertools.count()

class Seg(Raw):
    """sends every request in random pieces"""
    rng=None; chk=None
    def send(self, b):
        r=self.rng
        k=r.random(); cuts=[]
        if k < 0.2: cuts=range(1, min(len(b), 24))
        elif k < 0.9: cuts=sorted(r.sample(range(1, len(b)), min(len(b)-1, 1+int(r.expovariate(0.5)))))
        p=0
        for c in list(cuts)+[len(b)]:
            super().send(b[p:c]); p=c
            if c != len(b) and r.random() < 0.5: time.sleep(r.choice([0, 0.0002, 0.001, 0.003]))
            self.chk.count("pieces")

def segmented(c, bdir, i):
    srv=core.Server(bdir, c.base, "s%d_%d" % (i, c.rng.randrange(10**6))).start()
    Seg.rng=c.rng; Seg.chk=c; old=W.Raw
    try:
        W.Raw=Seg
        w=W.World(c, srv, dict(cdt=0.2, ev_add=1, grp_add=0.5, grp_write=1, grp_read=1, atomic=1, map_add=0.3, map_get=0.3, ovr_add=0.3, ovr_get=0.3, reconnect=0.1), tcp=0.5, pid=c.pid, bigfrac=0.1)
        w.run(c.n(250, 600), sweep=120); w.close(); srv.check()
    finally: W.Raw=old; srv.kill9()

def pipelined(c, bdir, i):
    """many clients, each with a pipeline of requests in one byte stream, cut and interleaved at random"""
    rng=c.rng
    srv=core.Server(bdir, c.base, "p%d_%d" % (i, rng.randrange(10**6))).start()
    try:
        n=rng.randrange(2, 7); cls=[]
        for k in range(n):
            r=Raw(srv, "c%d" % k, tcp=rng.random() < 0.5); size=rng.choice([8, 100, 4000]); idx=r.tag_add("p%d" % k, BYTE, size)
            cls.append(dict(r=r, size=size, idx=idx, data=bytearray(size), out=b"", exp=[], got=[]))
        for x in cls:
            for _ in range(rng.randrange(3, c.n(40, 120))):
                k=rng.random(); s=x["size"]
                if k < 0.4:
                    o=rng.randrange(s); l=rng.randrange(1, s-o+1)
                    if rng.random() < 0.2: o, l=0, s
                    d=rng.getrandbits(8*l).to_bytes(l, "little"); x["data"][o:o+l]=d
                    x["out"]+=x["r"].frame(TAG_WRITE, struct.pack("<iI", x["idx"], o)+d); x["exp"].append((TAG_WRITE|RESP, b""))
                elif k < 0.8:
                    o=rng.randrange(s); l=rng.randrange(1, s-o+1)
                    if rng.random() < 0.2: o, l=0, s
                    x["out"]+=x["r"].frame(TAG_READ, struct.pack("<iII", x["idx"], o, l)); x["exp"].append((TAG_READ|RESP, bytes(x["data"][o:o+l])))
                elif k < 0.9:
                    x["out"]+=x["r"].frame(TAG_READ, struct.pack("<iII", x["idx"], s, 1)); x["exp"].append((TAG_READ|ERRF, None))
                else:
                    x["out"]+=x["r"].frame(TAG_GET, b"\x02"+struct.pack("<i", x["idx"])); x["exp"].append((TAG_GET|RESP, struct.pack("<iIIH", x["idx"], BYTE, s, 0)+b"p%d\0" % cls.index(x)))
        live=[x for x in cls]
        mode=rng.choice(["tiny", "mixed", "burst", "mixed"])
        while live:
            x=rng.choice(live)
            l={"tiny": rng.randrange(1, 12), "mixed": rng.choice([1, 3, 7, 8, 9, 40, 500, 4095, 4096, 4097, 9000]), "burst": rng.choice([4096, 8192, 20000])}[mode]
            x["r"].s.settimeout(20); 
            try: x["r"].s.sendall(x["out"][:l])
            except OSError as e: x["r"]._dead("send %s" % e)
            x["out"]=x["out"][l:]; c.count("pieces")
            if rng.random() < 0.1: time.sleep(rng.choice([0.0003, 0.002]))
            for y in cls: collect(y)
            if not x["out"]: live.remove(x)
        t0=time.time()
        while any(len(y["got"]) < len(y["exp"]) for y in cls) and time.time()-t0 < 15:
            for y in cls: collect(y, 0.01)
        time.sleep(0.01)
        for y in cls: collect(y)
        for k, y in enumerate(cls):
            if len(y["got"]) != len(y["exp"]): raise Violation("replies", "client %d (%s) sent %d requests in one stream and got %d replies" % (k, mode, len(y["exp"]), len(y["got"])))
            for j, (e, g) in enumerate(zip(y["exp"], y["got"])):
                if e[0] != g[0] or (e[1] is not None and e[1] != g[1]): raise Violation("reply:%x" % (e[0] & 0xFF), "client %d request %d: reply 0x%x %s instead of 0x%x %s" % (k, j, g[0], g[1].hex()[:100], e[0], (e[1] or b"").hex()[:100]))
                c.case(("pipe", e[0], mode, len(g[1])))
            y["r"].close()
        srv.check(); c.count("streams", n)
    finally: srv.kill9()

def collect(y, wait=0.0):
    import select
    r=y["r"]
    while True:
        a, _, _=select.select([r.s], [], [], wait)
        if not a: break
        r._fill(1); wait=0.0
    while True:
        m=r.pop()
        if m is None: return
        y["got"].append(m)

def library(c, bdir, exe, i):
    """clients of the real library behind a relay that cuts both streams; both ends get stopped and continued"""
    srv=core.Server(bdir, c.base, "l%d_%d" % (i, c.rng.randrange(10**6))).start(); stop=i % 2 == 1
    cut=relay.Cut(srv, os.path.join(c.base, "cut%d_%d" % (i, next(serial))), c.rng.random(), slow=0.3 if stop else 0.6); it=None
    try:
        w=W.World(c, srv, dict(cdt=0.2, ev_add=1, grp_add=0.5, grp_write=1, grp_read=1, atomic=1, map_add=0.3, map_get=0.3, ovr_add=0.3, ovr_get=0.3, reconnect=0.1, hread=3, hwrite=3, hmask=1), tcp=0.5, pid=c.pid, bigfrac=0.1, libs=2, exe=exe, libsrv=cut)
        if stop:
            it=relay.Interrupt(c.rng.random())
            it.procs=lambda: [srv.p]+[x.raw.d.p for x in w.cls if x.lib and x.raw.d is not None]
        w.run(c.n(150, 500), sweep=75)
        if it: it.stop(); c.count("stop/continue", it.n)
        w.close(); srv.check(); c.count("relay pieces", cut.pieces)
    finally:
        if it: it.stop()
        cut.close(); srv.kill9()

def blocked(c, bdir, exe, i):
    """a server that does not read for a while, little room in the sockets and interruptions: requests leave in parts"""
    r=c.rng; srv=core.Server(bdir, c.base, "b%d_%d" % (i, next(serial))).start(); tcp=i % 2 == 1; cut=relay.Cut(srv, os.path.join(c.base, "cut%d" % next(serial)), r.random(), slow=0); it=None
    if tcp: cut.li.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
    try:
        raw=Raw(srv, "raw"); idx=raw.tag_add("t", BYTE, 4080); d=core.Drv(exe, c.base, cut, "cl", tcp=tcp, args=("-O", "500"))
        if d.connect(): raise Violation("connect", "no connection")
        if d.i("sndbuf", 1) < 1: raise Violation("harness", "no socket")
        it=relay.Interrupt(r.random()); it.procs=lambda: [d.p] if it.active else []; it.active=False
        cur=bytes(4080)
        for k in range(c.n(5, 25)):
            cut.go.clear(); time.sleep(0.01); lost=0
            for _ in range(r.randrange(1, 3+2*tcp)):
                v=r.randbytes(4080); t0=time.time(); a=d.i("write", idx, 0, hx(v)); dt=time.time()-t0
                if a == 0: raise Violation("false-success", "a write succeeds while nothing is read")
                lost+=1; cur=v
                if d.cmd("disc")[0] != "0": break
            v=r.randbytes(4080); t=threading.Timer(r.choice([0.05, 0.15, 0.3]), lambda: (cut.go.set(), setattr(it, "active", False))); it.active=True; t.start(); a=d.i("write", idx, 0, hx(v)); it.active=False; t.join()
            if d.cmd("disc")[0] != "0" or a == -6 or a == -31:
                # given up in the middle of a request: the library has to connect again
                t0=time.time()
                while d.cmd("disc")[0] == "0" and time.time()-t0 < 5: time.sleep(0.01)
                if d.cmd("disc")[0] == "0": raise Violation("half-sent", "a request could not be sent (%d) and the connection stays" % a)
                d.cmd("disc0"); d.i("disconnect"); c.count("given up")
                if d.connect(): raise Violation("connect", "no connection")
                d.i("sndbuf", 1); cur=raw.read(idx, 0, 4080)[1]
            elif a: raise Violation("write", "a write to a server that was slow for less than the timeout gives %d" % a)
            else: cur=v; c.count("sent in parts")
            x, y=d.cmd("read", idx, 0, 4080)
            if int(x) or uhx(y) != cur: raise Violation("content", "after requests that left in parts the read gives %s %s" % (x, "something else" if int(x) == 0 else ""))
            if raw.read(idx, 0, 4080)[1] != cur: raise Violation("content", "after requests that left in parts the tag holds something else")
            c.case(("blocked", tcp, lost, a))
        it.stop(); d.i("disconnect"); d.close(); raw.close(); srv.check()
    finally:
        if it: it.stop()
        cut.go.set(); cut.close(); srv.kill9()

def parked(c, bdir, i):
    """more clients in the middle of a request than the server keeps buffers for, over its idle times"""
    r=c.rng; srv=core.Server(bdir, c.base, "k%d_%d" % (i, next(serial))); k=r.choice([0, 1, 2, 3])
    if k: open(srv.conf, "w").write("min_buffers = %d\n" % k)
    srv.start()
    try:
        cls=[]
        for n in range(r.randrange(8, 13)):
            x=Raw(srv, "k%d" % n, tcp=r.random() < 0.5); cls.append((x, x.tag_add("k%d" % n, BYTE, 4080)))
        for rnd in range(c.n(2, 6)):
            jobs=[]
            for x, idx in r.sample(cls, r.randrange(6, len(cls)+1)):
                v=r.randbytes(r.choice([1, 50, 4080])); b=x.frame(TAG_WRITE, struct.pack("<iI", idx, 0)+v)
                if r.random() < 0.3: b+=x.frame(TAG_READ, struct.pack("<iII", idx, 0, len(v)))
                p=r.choice([1, 4, 7, 8, 9, len(b)-1, r.randrange(1, len(b))]); x.s.sendall(b[:p]); jobs.append((x, idx, v, b, p))
            r.shuffle(jobs)
            for step in range(2):
                time.sleep(r.choice([1.15, 2.3]))     # nothing happens: the server looks for buffers to give back
                busy={id(j[0]) for j in jobs}
                for x, idx in cls:
                    if id(x) in busy or r.random() < 0.5: continue
                    w=r.randbytes(60)
                    if x.write(idx, 100, w) or x.read(idx, 100, 60) != (0, w): raise Violation("parked:other", "while %d others are in the middle of a request a client is not served" % len(jobs))
                    c.count("between")
            for x, idx, v, b, p in jobs: x.s.sendall(b[p:]) if r.random() < 0.5 else [x.s.sendall(b[q:q+700]) for q in range(p, len(b), 700)]
            for x, idx, v, b, p in jobs:
                t0=time.time(); got=[]; want=2 if len(b) > len(v)+20 else 1
                while len(got) < want and time.time()-t0 < 15:
                    y=dict(r=x, got=got); collect(y, 0.05)
                if [g[0] for g in got] != [TAG_WRITE|RESP, TAG_READ|RESP][:want] or (want == 2 and got[1][1] != v): raise Violation("parked:reply", "a request cut at %d of %d, finished after the others rested gives %r (min_buffers %d)" % (p, len(b), [(hex(g[0]), g[1][:20]) for g in got], k))
                if x.read(idx, 0, len(v)) != (0, v): raise Violation("parked:content", "a request cut at %d of %d and finished later wrote something else (min_buffers %d)" % (p, len(b), k))
                c.case(("parked", k, min(p, 12), len(v), want)); c.count("parked")
        for x, idx in cls: x.close()
        srv.check()
    finally: srv.kill9()

def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    for i in range(c.n(6, 60)): c.run("library %d" % i, library, c, b, exe, i)
    for i in range(c.n(4, 20)): c.run("blocked %d" % i, blocked, c, b, exe, i)
    for i in range(c.n(3, 20)): c.run("parked %d" % i, parked, c, b, i)
    for i in range(c.n(6, 60)): c.run("segmented %d" % i, segmented, c, b, i)
    for i in range(c.n(25, 400)): c.run("pipelined %d" % i, pipelined, c, b, i)
core.main("P18", "one evaluation per reply compared with the one the same requests get when sent whole; distinct by request kind, cutting mode and size", body)
