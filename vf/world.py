"""Random multi-client workload against a real server, checked request by request against the model."""
import struct, time, collections
from . import core
from .core import Violation, Died
from .proto import *
from .model import *
from .libcl import LibCl

class Cl:
    def __init__(s, name, lib=False): s.lib=lib; s.name=name; s.raw=None; s.tag=None; s.registered=False; s.groups={}; s.gids=set(); s.owned=None

DEFAULT = dict(tag_add=2, tag_del=1, lookup=2, read=6, write=8, mask=5, ev_add=0, ev_del=0, ev_opt=0, map_add=0, map_del=0, map_get=0,
               grp_add=0, grp_del=0, grp_read=0, grp_write=0, atomic=0, ovr_add=0, ovr_del=0, ovr_get=0, ovr_set=0, reconnect=0, cdt=0, qread=0, qwrite=0,
               hread=0, hwrite=0, hmask=0, hovr=0)

class World:
    def __init__(w, c, srv, weights, nclients=3, types=None, queue=0.0, cdtfrac=0.1, invalid=0.08, names=24, maxcount=40, bigfrac=0.05,
                 attrs=(0,), sysev=True, tcp=0.3, maxtags=60, modfrac=0.02, smallvals=0.5, unreg=False, pid="W", maxev=40, longnames=True, libs=0, exe=None, cached=False, libargs=lambda r: (), libsrv=None):
        w.c=c; w.srv=srv; w.rng=c.rng; w.m=Model(); w.cls=[]; w.trace=collections.deque(maxlen=400); w.pid=pid
        w.types=types or BASE; w.queue=queue; w.cdtfrac=cdtfrac; w.invalid=invalid; w.names=names; w.maxcount=maxcount; w.bigfrac=bigfrac
        w.attrs=attrs; w.sysev=sysev; w.tcp=tcp; w.maxtags=maxtags; w.modfrac=modfrac; w.smallvals=smallvals; w.maxev=maxev; w.longnames=longnames; w.exe=exe; w.cached=cached; w.libargs=libargs; w.libsrv=libsrv or srv
        ww=dict(DEFAULT); ww.update(weights); w.ops=[k for k in ww if ww[k] > 0]; w.ow=[ww[k] for k in w.ops]
        w.nev=0; w.nops=0; w.seq=w.rng.randrange(1, 1<<30); w.lastwrites={}; w.limits={}
        boot=Raw(srv, None)
        m=w.m
        m.types[CUSTOM]=MODSIZE; m.types[CUSTOM|1]=47; m.ncdt=2
        for i, n in enumerate(SYS):
            r, t=boot.by_index(i)
            if r or t[4] != n or t[0] != i: w.bad("system-tag", "system tag %d is %r" % (i, t))
            r2, t2=boot.by_name(n)
            if t2 != t: w.bad("system-tag", "lookup of %s by name gives %r, by index %r" % (n, t2, t))
            T=Tag(i, n, t[1], t[2]); T.attr=t[3]; m.tags[i]=T; m.names[n]=i
            if not T.attr & A_VIRTUAL: T.data=bytearray(boot.read(i, 0, m.tsize(T))[1])
        m.next=struct.unpack("<i", m.tags[LASTINDEX].data)[0]+1
        w.boot=boot; w.bootcl=Cl("boot"); w.bootcl.raw=boot
        w.loadextra()
        for i in range(nclients): w.join(Cl("cl%d" % i))
        for i in range(libs): w.join(Cl("lib%d" % i, True))
    def loadextra(w):
        """tags that exist already (retained ones)"""
        for i in range(len(SYS), w.m.next):
            r, t=w.boot.by_index(i)
            if r: w.m.dead.add(i); continue
            T=Tag(i, t[4], t[1], t[2]); T.attr=t[3]; w.m.tags[i]=T; w.m.names[t[4]]=i
            sz=w.m.tsize(T); T.data=bytearray()
            for o in range(0, sz, 4000): T.data+=w.boot.read(i, o, min(4000, sz-o))[1]
    # ---- verdicts
    def bad(w, key, msg):
        raise Violation(key, msg, {"last operations": list(w.trace)[-60:], "seed": w.c.seed})
    def log(w, *a):
        w.trace.append(" ".join(str(x) if not isinstance(x, (bytes, bytearray)) else x.hex() for x in a)[:400]); w.nops+=1
    def expect(w, what, ok, r):
        w.c.count("accepted" if ok else "refused")
        if (r >= 0) != ok: w.bad(what+(":refused" if ok else ":accepted"), "%s should be %s but the server answered %d" % (w.trace[-1], "accepted" if ok else "refused", r))
        return ok
    def settle(w):
        """Compare the notifications each client got with those the model requires."""
        exp=collections.defaultdict(list)
        for cl, et, idx, id, data in w.m.out: exp[cl].append((et, idx, id, data))
        w.m.out=[]
        for cl in w.cls:
            if cl.raw is None: continue
            e=collections.Counter(exp.pop(cl, [])); got=collections.Counter(cl.raw.drain())
            t0=time.time()
            while e-got and time.time()-t0 < 3: got.update(cl.raw.drain(0.05))
            if e != got:
                miss=list((e-got).elements()); extra=list((got-e).elements())
                key="event:"+("missing" if miss and not extra else "extra" if extra and not miss else "wrong")+":"+str((miss or extra)[0][0])
                w.bad(key, "after %s client %s: missing notifications %s, unexpected %s" % (w.trace[-1], cl.name, w.evs(miss), w.evs(extra)))
            n=sum(e.values()); w.nev+=n
            if n: w.c.count("notifications", n)
            if cl.raw.strays: w.bad("stray", "unexpected message %r" % (cl.raw.strays[:2],))
        for cl in exp:
            if cl in w.cls: w.bad("event:lost", "client gone")
    def evs(w, l): return [(a, b, c_, d.hex()[:80]) for a, b, c_, d in l[:4]]
    # ---- clients
    def join(w, cl, register=True):
        tcp=w.rng.random() < w.tcp
        cl.raw=LibCl(w.libsrv, w.c.base, w.exe, tcp, lambda n: next((k for k, v in w.m.typenames.items() if v == n), 0), w.cached, w.libargs(w.rng)) if cl.lib else Raw(w.srv, None, tcp=tcp); cl.groups={}; cl.tag=None; cl.registered=False
        if cl not in w.cls: w.cls.append(cl)
        w.log(cl.name, "connect", register)
        if not register: return
        r, p=cl.raw.register(cl.name)
        if r: w.bad("register", "registration refused %d" % r)
        cl.registered=True
        r, p=cl.raw.read(MYNAME, 0, 33)
        if r: w.bad("modtag:none", "module without a status tag")
        name=p.split(b"\0")[0].decode("latin1")
        if not name.startswith("_m") or not name[2:].startswith(cl.name[:25]): w.bad("modtag:name", "module %s got tag %r" % (cl.name, name))
        if name in w.m.names: w.bad("modtag:shared", "module %s was given the existing tag %s" % (cl.name, name))
        r, t=cl.raw.by_name(name)
        if r: w.bad("modtag:none", "status tag %s not found" % name)
        if t[0] != w.m.next: w.bad("index", "new tag got index %d, expected %d" % (t[0], w.m.next))
        T=w.m.add(None, t[0], name, CUSTOM, 1, 0, internal=True)
        w.m.syswrite(LASTMOD, name.encode()[:32].ljust(32, b"\0"))
        T.attr|=A_SPECIAL; cl.tag=T
        r, p=cl.raw.read(t[0], 0, MODSIZE)
        if r or any(p[12:]): w.bad("modtag:init", "new status tag holds %s" % p.hex())
        T.data[:]=p
        w.settle()
    def leave(w, cl):
        how=w.rng.choice(["close", "rst", "half", "shutdown"] if not cl.lib else ["close", "close", "rst"])
        w.log(cl.name, "leaves", how)
        for x in w.cls:
            if x is not cl and x.raw: x.raw.drain()
        if how == "rst": cl.raw.rst()
        elif how == "half": 
            try: cl.raw.s.sendall(b"\0\0\0\x20\0\0"); 
            except OSError: pass
            cl.raw.close()
        elif how == "shutdown":
            import socket
            try: cl.raw.s.shutdown(socket.SHUT_WR)
            except OSError: pass
        else: cl.raw.close()
        name=cl.tag.name if cl.tag else None
        t0=time.time()
        while name is not None:
            if w.boot.by_name(name)[0]: break
            if time.time()-t0 > 15: w.bad("departure:tag", "status tag %s still there 15 s after its module left" % name)
            time.sleep(0.002)
        cl.raw.close(); cl.raw=None
        w.m.depart(cl); w.settle()
        w.c.count("departures")
    # ---- generators
    def pick(w, pred=None):
        l=[t for t in w.m.tags.values() if t.idx > 10 and not t.attr & A_SPECIAL and (pred is None or pred(t))]
        return w.rng.choice(l) if l else None
    def anytag(w):
        r=w.rng.random()
        if r < w.modfrac: return w.rng.choice([t for t in w.m.tags.values() if t.idx <= 10 or t.attr & A_SPECIAL])
        return w.pick() or w.m.tags[0]
    def anyidx(w):
        if w.rng.random() < w.invalid:
            k=w.rng.randrange(5)
            return [-1, w.m.next, w.m.next+w.rng.randrange(5000), -w.rng.randrange(2**31), w.rng.choice(sorted(w.m.dead)) if w.m.dead else 2**31-1][k]
        return w.anytag().idx
    def rngpart(w, t, bad=True):
        """offset,size inside (or sometimes outside) a tag"""
        n=w.m.tsize(t); r=w.rng
        if t.queue is not None and r.random() < 0.9: return 0, n
        if bad and r.random() < w.invalid:
            return r.choice([(n, 1), (0, n+1), (n-1, 2), (2**31-1, 2), (2**32-1, 1), (2**32-4, 8), (1, n), (n+1, 0), (0, 2**31), (5, 2**32-1)])
        k=r.random()
        if k < 0.2: o, s=0, n
        elif k < 0.5 and t.type in FMT:
            e=tsize(t.type); i=r.randrange(max(1, n//e)); j=min(n//e-i, 1+int(r.expovariate(0.5))); o, s=i*e, max(0, j)*e
        else: o=r.randrange(n+1) if r.random() < 0.1 else r.randrange(n); s=min(n-o, int(r.expovariate(0.2))+(1 if r.random() < 0.97 else 0))
        return o, min(s, 4000)
    def value(w, type):
        """bytes of one element: values that collide with event limits often enough, else unique"""
        r=w.rng; f="<"+FMT[type]; n=tsize(type)
        if type in (REAL, LREAL):
            v=r.choice([0.0, 1.0, -1.0, 2.5, 3.0, 100.0, r.uniform(-10, 10), r.uniform(-1e6, 1e6), 0.1])
            return struct.pack(f, v)
        if r.random() < w.smallvals:
            return struct.pack(f, r.choice([0, 1, 2, 3, 4, 5, 8, 10, 15] + ([-1, -2, -5, -10] if f[1] in "bhiq" else [250, 255]))) 
        if r.random() < 0.3:
            top=(1 << (8*n))-1
            return r.choice([0, 1, top, top >> 1, (top >> 1)+1, top-1]).to_bytes(n, "little")
        w.seq+=1
        return (w.seq*2654435761 & ((1 << (8*n))-1)).to_bytes(n, "little")
    def payload(w, t, off, size):
        r=w.rng
        if t is not None and t.type & ~QUEUE in FMT and size % tsize(t.type & ~QUEUE) == 0 and size:
            ty=t.type & ~QUEUE
            if r.random() < 0.15 and t.data is not None: return bytes(t.data[off:off+size]).ljust(size, b'\0')   # unchanged data
            return b"".join(w.value(ty) for _ in range(size//tsize(ty)))
        if r.random() < 0.3: return bytes([r.choice([0, 0xFF, 1, 0x80])])*size
        if r.random() < 0.1 and t is not None and t.data is not None: return bytes(t.data[off:off+size]).ljust(size, b'\0')
        w.seq+=1
        return r.getrandbits(8*size).to_bytes(size, "little") if size else b""
    def handle(w, t=None, types=None, sane=0.75, maxbytes=None):
        """a valid handle into t: natural part, or a reinterpretation of some bytes"""
        r=w.rng
        if t is None: t=w.pick(lambda t: t.queue is None)
        if t is None: return None
        n=w.m.tsize(t)
        if t.queue is not None: return H(t.idx, 0, 0, t.count, n, t.type)
        if r.random() < sane and (types is None or t.type in types): ty=t.type
        else: ty=r.choice(types or w.types)
        if ty & CUSTOM:
            e=w.m.typesize(ty)
            if e > n: ty=BYTE
            else:
                k=n//e; i=r.randrange(k); cnt=r.randrange(1, k-i+1); 
                if maxbytes: cnt=max(1, min(cnt, maxbytes//e))
                return H(t.idx, i*e, 0, cnt, cnt*e, ty)
        if ty == BOOL:
            tot=t.count if t.type == BOOL else n*8
            i=r.randrange(tot); cnt=min(tot-i, r.choice([1, 1, 2, 3, 7, 8, 9, 16, 17, r.randrange(1, tot-i+1)]))
            if maxbytes: cnt=min(cnt, maxbytes*8-8)
            if r.random() < 0.25 : i=i//8*8
            cnt=max(1, min(cnt, tot-i))
            return H(t.idx, i//8, i % 8, cnt, (i % 8+cnt-1)//8+1, BOOL)
        e=tsize(ty)
        if e > n: ty=BYTE; e=1
        k=n//e
        if r.random() < 0.15 and n > e:
            o=r.randrange(n-e+1); cnt=r.randrange(1, (n-o)//e+1)
        else: i=r.randrange(k); o=i*e; cnt=min(k-i, 1+int(r.expovariate(0.5)))
        if maxbytes: cnt=max(1, min(cnt, maxbytes//e))
        return H(t.idx, o, 0, cnt, cnt*e, ty)
    def spoil(w, h):
        r=w.rng; h=H(*h.tup()); k=r.randrange(9)
        if k == 0: h.idx=w.anyidx()
        elif k == 1: h.count=0
        elif k == 2: h.count=2**32-1
        elif k == 3: h.byte=2**32-8
        elif k == 4: h.byte+=w.m.tsize(w.m.tags[h.idx])
        elif k == 5: h.bit=8
        elif k == 6: h.type=r.choice([0, 0xFF, CUSTOM|0xFFFF, QUEUE|DINT, 0x7F])
        elif k == 7: h.count+=w.m.tsize(w.m.tags[h.idx])*8+9
        elif k == 8: h.bit=3
        return h
    def newname(w):
        r=w.rng
        if r.random() < w.invalid: return r.choice(["", "1abc", "_x", "a.b", "a b", "x"*33, "a-b", "a[1]", "\xe9t", "a"*32+"b", "_tagcount", "a:b", "a,b", ".", "x"*200])
        i=r.randrange(w.names)
        n="t%d" % i
        if w.longnames and i % 5 == 0: n=("long_%d_" % i).ljust(32, "abcdefgh"[i % 8])
        return n
    def cl(w):
        l=[x for x in w.cls if x.raw]
        return w.rng.choice(l)
    def evcl(w): return w.rng.choice([x for x in w.cls if x.raw and not x.lib])
    def libcl(w):
        l=[x for x in w.cls if x.raw and x.lib]
        return w.rng.choice(l) if l else None
    # ---- operations
    def op_tag_add(w):
        r=w.rng; cl=w.cl(); name=w.newname(); full=len(w.m.tags) > w.maxtags
        if full and name not in w.m.names: return w.op_tag_del()
        type=r.choice(w.types); count=1+int(r.expovariate(2.0/w.maxcount))
        if r.random() < w.cdtfrac and w.m.ncdt > 2: type=CUSTOM|r.randrange(2, w.m.ncdt); count=1+r.randrange(4)
        if r.random() < w.queue: type|=QUEUE; count=1+r.randrange(4)
        elif r.random() < w.bigfrac: count=r.choice([255, 256, 257, 1000, 4088, 8000])
        attr=r.choice(w.attrs)
        if name in w.m.names and r.random() < 0.8:
            t=w.m.tags[w.m.names[name]]; type=t.type; count=r.choice([t.count, max(1, t.count-1), t.count+r.randrange(1, 20), count])
        k=r.random()
        if k < w.invalid/2: type=r.choice([0, 0x77, CUSTOM|(w.m.ncdt+r.randrange(3)), CUSTOM|0x3FFFFFFF, 0x56, 0x100, QUEUE])
        elif k < w.invalid*0.75: count=0
        elif k < w.invalid: type=LREAL; count=r.choice([2**31, 2**29, 2**32-1, 2**28+1])
        w.add(cl, name, type, count, attr)
    def add(w, cl, name, type, count, attr=0):
        w.log(cl.name, "tag_add", repr(name), hex(type), count, attr)
        res=w.m.add_ok(cl, name, type, count, attr)
        big = res is not None and (w.m.tagsize(type, count) > 64*1024*1024)
        if big: return
        x=cl.raw.tag_add(name, type, count, attr)
        if not w.expect("tag_add", res is not None, x): return None
        if res == "new":
            if x in w.m.tags or x in w.m.dead or x != w.m.next: w.bad("index", "new tag %s got index %d (next unused is %d)" % (name, x, w.m.next))
        elif x != res.idx: w.bad("identity", "re-adding %s gave index %d instead of %d" % (name, x, res.idx))
        t=w.m.add(cl, x, name, type, count, attr); w.c.case(("add", type, res == "new", attr))
        w.settle(); w.checktag(t, cl); return t
    def op_tag_del(w):
        cl=w.cl(); idx=w.anyidx()
        w.log(cl.name, "tag_del", idx)
        t=w.m.get(idx); ok=w.m.tag_del(idx)
        if w.expect("tag_del", ok, cl.raw.tag_del(idx)):
            if cl.raw.by_index(idx)[0] == 0 or cl.raw.by_name(t.name)[0] == 0: w.bad("deleted:lookup", "deleted tag %s can still be looked up" % t.name)
            if cl.raw.read(idx, 0, 1)[0] == 0 or cl.raw.write(idx, 0, b"\0") == 0: w.bad("deleted:access", "deleted tag %s can still be accessed" % t.name)
        w.settle()
    def op_lookup(w):
        cl=w.cl()
        if w.rng.random() < 0.5:
            idx=w.anyidx(); w.log(cl.name, "by_index", idx); r, d=cl.raw.by_index(idx); t=w.m.get(idx)
        else:
            n=w.newname() if w.rng.random() < 0.3 else w.anytag().name; w.log(cl.name, "by_name", repr(n)); r, d=cl.raw.by_name(n); t=w.m.get(w.m.names.get(n, -1))
        if w.expect("lookup", t is not None, r): w.cmpdesc(t, d)
    def cmpdesc(w, t, d):
        if d != (t.idx, t.type, t.count, t.attr, t.name): w.bad("describe", "tag %s described as %r instead of %r" % (t.name, d, (t.idx, t.type, t.count, t.attr, t.name)))
        w.c.count("descriptions")
    def op_read(w):
        cl=w.cl(); idx=w.anyidx(); t=w.m.get(idx)
        o, s=w.rngpart(t) if t is not None else (0, 1)
        w.read(cl, idx, o, s)
    def read(w, cl, idx, o, s):
        w.log(cl.name, "read", idx, o, s)
        ok, d=w.m.read(cl, idx, o, s); r, p=cl.raw.read(idx, o, s)
        if w.expect("read", ok, r) and d is not None:
            w.c.case(("read", s, o % 8))
            if p != d: w.bad("read:data", "read of tag %d offset %d returned %s instead of %s" % (idx, o, p.hex()[:200], d.hex()[:200]))
    def op_write(w):
        cl=w.cl(); idx=w.anyidx(); t=w.m.get(idx)
        o, s=w.rngpart(t) if t is not None else (0, 4)
        w.write(cl, idx, o, w.payload(t, o, min(s, 4080)))
    def write(w, cl, idx, o, d):
        w.log(cl.name, "write", idx, o, len(d), d)
        ok=w.m.write(cl, idx, o, d)
        w.expect("write", ok, cl.raw.write(idx, o, d)); w.c.case(("write", ok, len(d), o % 8)); w.settle()
        if w.rng.random() < 0.3: w.verify(idx)
    def op_mask(w):
        cl=w.cl(); idx=w.anyidx(); t=w.m.get(idx); r=w.rng
        o, s=w.rngpart(t) if t is not None else (0, 4)
        s=min(s, 2000); d=w.payload(t, o, s); k=r.random()
        mask=bytes(r.choice([0, 0xFF, 1, 0x80, 0x0F, r.randrange(256)]) for _ in range(s)) if k < 0.8 else bytes(s) if k < 0.9 else b"\xff"*s
        w.log(cl.name, "mask", idx, o, d, mask)
        ok=w.m.mask(cl, idx, o, d, mask)
        w.expect("mask", ok, cl.raw.mask(idx, o, d, mask)); w.c.case(("mask", ok, s, o % 8)); w.settle()
        if r.random() < 0.3: w.verify(idx)
    def verify(w, idx, cl=None):
        """contents of a tag and of what it maps to"""
        t=w.m.get(idx)
        if t is None or t.queue is not None or t.data is None: return
        cl=cl or w.cl(); n=w.m.tsize(t)
        for o in range(0, n, DATAMAX):
            s=min(DATAMAX, n-o); r, p=cl.raw.read(idx, o, s)
            if r: w.bad("read:refused", "after %s: read of tag %s refused %d" % (w.trace[-1], t.name, r))
            d=w.m.visible(t, o, s)
            if p != d:
                i=next(i for i in range(len(d)) if i >= len(p) or p[i] != d[i])
                w.bad("content", "after %s: tag %s (0x%x[%d]) holds %s at %d, expected %s" % (w.trace[-1], t.name, t.type, t.count, p[i:i+16].hex(), o+i, d[i:i+16].hex()))
        w.c.count("tag_contents_compared")
    def checktag(w, t, cl=None):
        cl=cl or w.cl()
        r, d=cl.raw.by_index(t.idx)
        if r: w.bad("lookup:refused", "tag %s not found by index" % t.name)
        w.cmpdesc(t, d)
        r, d=cl.raw.by_name(t.name)
        if r: w.bad("lookup:refused", "tag %s not found by name" % t.name)
        w.cmpdesc(t, d); w.verify(t.idx, cl)
    def sweep(w):
        """everything the server holds against the model"""
        cl=w.cl()
        w.log(cl.name, "sweep")
        for t in list(w.m.tags.values()):
            if t.idx in (DBSIZE,):
                n=struct.unpack("<i", cl.raw.read(DBSIZE, 0, 4)[1])[0]
                if n < w.m.next: w.bad("dbsize", "_dbsize %d is less than the number of tags" % n)
                continue
            w.checktag(t, cl)
        for i in list(w.m.dead)[-20:]:
            if cl.raw.by_index(i)[0] == 0: w.bad("deleted:lookup", "deleted index %d can still be looked up" % i)
        if cl.raw.by_index(w.m.next)[0] == 0: w.bad("index:phantom", "index %d exists" % w.m.next)
        w.c.count("sweeps")
        w.srv.check(); w.settle()
    # events
    def op_ev_add(w):
        r=w.rng; cl=w.evcl()
        if w.nevents() > w.maxev: return w.op_ev_del()
        t=None
        if w.sysev and r.random() < 0.08: t=w.m.tags[r.choice([TAGCOUNT, LASTINDEX, ADDED, DELETED, OVR_INST, OVR_SET, LASTMOD, TIMETAG])]
        elif r.random() < 0.04: t=w.anytag()
        else: t=w.pick()
        if t is None: return
        if t.attr & A_VIRTUAL and t.queue is None: h=H(t.idx, 0, 0, 1, 8, TIME); et=E_WRITE
        else:
            h=w.handle(t); et=r.choice([E_WRITE, E_CHANGE, E_DELETED]) if h.type & CUSTOM or t.queue is not None else r.choice([E_WRITE, E_CHANGE, E_SET, E_RESET, E_DELETED] if h.type == BOOL else [E_WRITE, E_CHANGE, E_EQUAL, E_EQUAL, E_GREATER, E_LESS, E_DEADBAND, E_DEADBAND, E_DELETED])
            if t.queue is not None and r.random() < 0.8: et=E_WRITE
            if r.random() < 0.07: et=r.choice(list(range(0, 13)))
            if r.random() < w.invalid: h=w.spoil(h)
        data=b""
        if h.type in FMT and h.type != BOOL: data=w.value(h.type)
        if et == E_DEADBAND and h.type in FMT and r.random() < 0.9:
            f="<"+FMT[h.type]; data=struct.pack(f, r.choice([0, 1, 2, 3, 5]))
        w.ev_add(cl, h, et, data)
    def nevents(w): return sum(len(t.events) for t in w.m.tags.values())
    def ev_add(w, cl, h, et, data=b"", opt=None):
        w.log(cl.name, "ev_add", h, et, data)
        ok=w.m.ev_ok(cl, h, et); x=cl.raw.ev_add(h, et, data)
        if not w.expect("ev_add", ok, x): return None
        t=w.m.tags[h.idx]
        if x in t.evids: w.bad("event:id", "event id %d of tag %d given out again" % (x, h.idx))
        w.m.ev_add(cl, x, h, et, data); w.c.case(("event", et, h.type, h.bit, min(h.count, 9)))
        if opt is None and w.rng.random() < 0.3: opt=1
        if opt is not None: w.ev_opt(cl, h.idx, x, opt)
        w.settle(); return x
    def ev_opt(w, cl, idx, id, o):
        w.log(cl.name, "ev_opt", idx, id, o); ok=w.m.ev_opt(cl, idx, id, o)
        w.expect("ev_opt", ok, cl.raw.ev_opt(idx, id, o)); w.settle()
    def anyev(w):
        l=[(t.idx, e.id, e.cl) for t in w.m.tags.values() for e in t.events]
        if not l or w.rng.random() < w.invalid: return (w.anyidx(), w.rng.randrange(-1, 20), w.evcl())
        i, d, cl=w.rng.choice(l)
        if w.rng.random() < 0.15: cl=w.evcl()
        return i, d, cl
    def op_ev_opt(w):
        i, d, cl=w.anyev(); w.ev_opt(cl, i, d, w.rng.choice([0, 1, 1]))
    def op_ev_del(w):
        i, d, cl=w.anyev()
        w.log(cl.name, "ev_del", i, d); ok=w.m.ev_del(cl, i, d)
        w.expect("ev_del", ok, cl.raw.ev_del(i, d)); w.settle()
    # mappings: sources and destinations are kept disjoint so that the order of copies is not observable
    def op_map_add(w):
        r=w.rng; cl=w.cl()
        maps=[x for t in w.m.tags.values() for x in t.maps]
        if len(maps) > 25: return w.op_map_del()
        s=w.pick(lambda t: t.data is not None and w.m.tsize(t) < 3000 and t.idx % 2 == 0); d=w.pick(lambda t: t.data is not None and w.m.tsize(t) < 3000 and t.idx % 2 == 1)
        if s is None or d is None: return
        if r.random() < w.modfrac*2: d=w.anytag()
        if r.random() < w.modfrac*2 and w.cls: s=w.rng.choice(w.cls).tag or s
        if s.idx == d.idx: return
        if maps and r.random() < 0.1: x=r.choice(maps); return w.map_add(cl, x.src, x.dst)
        if maps and r.random() < 0.1: return w.map_near(cl, r.choice(maps))
        for k in range(12):
            a=w.handle(s); 
            if d.attr & A_VIRTUAL and d.queue is None: b=H(d.idx, 0, 0, 1, 8, TIME)
            else: b=w.handle(d)
            if r.random() < 0.4 and not a.type & CUSTOM: b.type=a.type; b.count=a.count; b.bit=0 if a.type != BOOL else b.bit; b.size=w.m.hsize(b)
            if k < 3 and r.random() < 0.2:   # bits up to the very end of the destination (and of the source)
                ns=w.m.tsize(s); nd=w.m.tsize(d); l=r.randrange(1, min(ns, nd, 6)+1); i=r.choice([0, 0, r.randrange(8)]); j=r.choice([0, 0, r.randrange(i, 8)])
                n=8*l-j; a=H(s.idx, r.choice([0, ns-l]), i, n, (i+n-1)//8+1, BOOL); b=H(d.idx, nd-l, j, n, l, BOOL)
                if r.random() < 0.3 and not j: b=H(d.idx, nd-l, 0, l, l, BYTE)
            if w.m.map_ok(a, b): break
        if r.random() < w.invalid: a=w.spoil(a)
        elif r.random() < w.invalid: b=w.spoil(b)
        ok=w.m.map_ok(a, b)
        if ok:
            lo=b.byte*8+b.bit; hi=lo+w.m.bits(a)
            for x in maps:
                if x.dst.idx == b.idx:
                    l2=x.dst.byte*8+x.dst.bit; h2=l2+w.m.bits(x.src)
                    if lo < h2 and l2 < hi: return
                if x.src.idx == b.idx or x.dst.idx == a.idx or (x.src.idx == a.idx and x.dst.idx == b.idx): return
        w.map_add(cl, a, b)
    def map_near(w, cl, x):
        """a mapping that differs from another one in a single field is another mapping"""
        r=w.rng
        for _ in range(10):
            a=H(*x.src.tup()); b=H(*x.dst.tup()); h=r.choice([a, a, b, b, b]); k=r.randrange(3)
            if k == 0 and h.type == BOOL: h.bit=(h.bit+r.randrange(1, 8)) % 8
            elif k == 1: h.byte+=r.choice([-1, 1, 1, 2])
            elif k == 2: h.count+=r.choice([-1, 1])
            a.byte=max(0, a.byte); b.byte=max(0, b.byte); a.size=w.m.hsize(a); b.size=w.m.hsize(b)
            if w.m.map_ok(a, b) and w.m.map_dupl(a, b) is None: break
        else: return
        i=w.map_add(cl, a, b)
        if i is None: return
        w.c.count("near duplicates"); y=w.m.findmap(a.idx, i); g=cl.raw.map_get(a.idx, i)
        if g[0] or g[1].tup() != y.src.tup() or g[2].tup() != y.dst.tup(): w.bad("map:get", "mapping %d:%d just added is %r, should be %r %r" % (a.idx, i, g, y.src, y.dst))
        # both could write the same bits, in any order: take it away again
        w.log(cl.name, "map_del", a.idx, i); ok=w.m.map_del(a.idx, i); w.expect("map_del", ok, cl.raw.map_del(a.idx, i))
    def map_add(w, cl, a, b):
        w.log(cl.name, "map_add", a, b)
        ok=w.m.map_ok(a, b); x=cl.raw.map_add(a, b)
        if not w.expect("map_add", ok, x): return None
        t=w.m.tags[a.idx]; dup=w.m.map_dupl(a, b)
        if dup is not None:
            if x != dup: w.bad("map:dupl", "adding the same mapping again gave id %d instead of %d" % (x, dup))
        elif x in t.mapids: w.bad("map:id", "mapping id %d of tag %d given out again" % (x, a.idx))
        w.m.map_add(x, a, b); w.c.case(("map", a.type, b.type, a.bit, b.bit, min(a.count, 9))); w.settle(); return x
    def anymap(w):
        l=[(t.idx, x.id) for t in w.m.tags.values() for x in t.maps]
        if not l or w.rng.random() < w.invalid: return (w.anyidx(), w.rng.randrange(-1, 20))
        return w.rng.choice(l)
    def op_map_del(w):
        i, d=w.anymap(); cl=w.cl(); w.log(cl.name, "map_del", i, d); ok=w.m.map_del(i, d)
        w.expect("map_del", ok, cl.raw.map_del(i, d))
    def op_map_get(w):
        i, d=w.anymap(); cl=w.cl(); w.log(cl.name, "map_get", i, d); x=w.m.findmap(i, d); r, a, b=cl.raw.map_get(i, d)
        if w.expect("map_get", x is not None, r) and (a.tup() != x.src.tup() or b.tup() != x.dst.tup()): w.bad("map:get", "mapping %d:%d is %r %r, should be %r %r" % (i, d, a, b, x.src, x.dst))
    # groups
    def op_grp_add(w):
        r=w.rng; cl=w.cl(); n=r.choice([1, 2, 3, 4, 6, 10, 25]) if r.random() < 0.95 else r.choice([0, 100, 150, 151])
        hs=[]; used=set()
        for _ in range(n):
            h=w.handle(w.anytag() if r.random() < w.modfrac else w.pick(lambda t: t.queue is None), maxbytes=r.choice([8, 16, 400])) if w.m.tags else None
            if h is None: return
            t=w.m.tags[h.idx]
            if t.attr & A_VIRTUAL: h=H(10, 0, 0, 33, 33, CHAR) if r.random() < 0.5 else H(9, 0, 0, 1, 8, TIME)
            hs.append(h)
        if hs and r.random() < w.invalid: i=r.randrange(len(hs)); hs[i]=w.spoil(hs[i])
        elif hs and r.random() < w.invalid: hs[r.randrange(len(hs))].size+=r.choice([1, -1, 100])
        if any(w.m.get(h.idx) is not None and w.m.get(h.idx).queue is not None for h in hs): return
        w.grp_add(cl, hs)
    def grp_add(w, cl, hs):
        w.log(cl.name, "grp_add", *hs)
        ok=w.m.grp_ok(cl, hs); x=cl.raw.grp_add(hs)
        if not w.expect("grp_add", ok, x): return None
        if x in cl.groups: w.bad("group:id", "group id %d is still in use" % x)
        cl.groups[x]=[H(*h.tup()) for h in hs]; w.c.case(("group", len(hs), tuple(sorted(set(h.type for h in hs)))))
        return x
    def anygrp(w):
        l=[(x, g) for x in w.cls if x.raw for g in x.groups]
        if not l or w.rng.random() < w.invalid: return w.cl(), w.rng.choice([0, 1, 5, 16, 17, 40, 2**32-1, 2**31])
        return w.rng.choice(l)
    def op_grp_del(w):
        cl, g=w.anygrp(); w.log(cl.name, "grp_del", g); ok=g in cl.groups
        if w.expect("grp_del", ok, cl.raw.grp_del(g)): del cl.groups[g]
    def op_grp_read(w):
        cl, g=w.anygrp(); w.log(cl.name, "grp_read", g); ok, d=w.m.grp_read(cl, g); r, p=cl.raw.grp_read(g)
        if w.expect("grp_read", ok, r) and d is not None and p != d: w.bad("group:read", "group read returned %s instead of %s for %r" % (p.hex()[:300], d.hex()[:300], cl.groups[g]))
    def op_grp_write(w):
        cl, g=w.anygrp(); n=sum(h.size for h in cl.groups.get(g, []))
        if w.rng.random() < w.invalid: n=max(0, n+w.rng.choice([-1, 1, 4]))
        if n > 4084: n=4084
        d=b"".join(w.payload(w.m.get(h.idx), h.byte, h.size) for h in cl.groups.get(g, []))[:n].ljust(n, b"\x5a")
        w.log(cl.name, "grp_write", g, d); hs=cl.groups.get(g, []); ok=w.m.grp_write(cl, g, d)
        w.expect("grp_write", ok, cl.raw.grp_write(g, d)); w.settle()
        for h in hs[:6]: w.verify(h.idx)
    # atomic
    def op_atomic(w):
        r=w.rng; cl=w.cl(); t=w.anytag() if r.random() < w.modfrac else w.pick(lambda t: t.queue is None or r.random() < 0.05)
        if t is None: return
        h=w.handle(t, maxbytes=600)
        op=r.randrange(1, 10) if r.random() < 0.97 else r.choice([0, 10, 11, 255, 65535])
        if op in (1, 2) and r.random() < 0.85: h.count=1; h.size=w.m.hsize(h) if w.m.typesize(h.type) else h.size
        if r.random() < w.invalid: h=w.spoil(h)
        n=h.size if h.size < 3000 else 8
        if w.m.typesize(h.type) and h.count*w.m.typesize(h.type) < 4000 and w.m.get(h.idx) is not None and not h.type & QUEUE: n=w.m.hsize(h)
        if r.random() < w.invalid/2: n=max(0, n+r.choice([-1, 1]))
        if h.type in (REAL, LREAL): d=b"".join(w.value(h.type) for _ in range(n//tsize(h.type)+1))[:n]
        else: d=w.payload(None, 0, n)
        if h.type in (REAL, LREAL) and w.m.handle_ok(h) and op in (1, 2):
            v=struct.unpack_from("<"+FMT[h.type], w.m.tags[h.idx].data, h.byte)[0] if w.m.tags[h.idx].data else 0
            if not abs(v) < 1e30: return     # keep NaN payload rules out of it
        w.atomic(cl, h, op, d)
    def atomic(w, cl, h, op, d):
        w.log(cl.name, "atomic", h, op, d); ok=w.m.atomic(cl, h, op, d)
        w.expect("atomic", ok, cl.raw.atomic(h, op, d)); w.c.case(("atomic", op, h.type, h.bit, min(h.count, 20), ok)); w.settle(); w.verify(h.idx)
    # overrides
    def op_ovr_add(w):
        r=w.rng; idx=w.anyidx(); t=w.m.get(idx); cl=w.cl(); o, s=w.rngpart(t) if t is not None else (0, 1); s=min(s, 2000)
        d=w.payload(t, o, s); k=bytes(r.choice([0, 0xFF, 0xFF, 1, 0x80, r.randrange(256)]) for _ in range(s))
        w.log(cl.name, "ovr_add", idx, o, d, k); ok=w.m.ovr_add(idx, o, d, k)
        w.expect("ovr_add", ok, cl.raw.ovr_add(idx, o, d, k)); w.settle(); w.verify(idx); w.verify(OVR_INST); w.c.case(("ovr", s, ok))
    def op_ovr_del(w):
        r=w.rng; t=w.pick(lambda t: t.odata is not None)
        idx=t.idx if t is not None and r.random() < 0.8 else w.anyidx(); t=w.m.get(idx); cl=w.cl(); o, s=w.rngpart(t) if t is not None else (0, 1); s=min(s, 2000)
        if r.random() < 0.3 and t is not None: o, s=0, min(w.m.tsize(t), 4000)
        k=b"\xff"*s if r.random() < 0.5 else bytes(r.randrange(256) for _ in range(s))
        w.log(cl.name, "ovr_del", idx, o, k); ok=w.m.ovr_del(idx, o, k)
        w.expect("ovr_del", ok, cl.raw.ovr_del(idx, o, k)); w.settle(); w.verify(idx); w.verify(OVR_INST); w.verify(OVR_SET)
    def op_ovr_get(w):
        idx=w.anyidx(); t=w.m.get(idx); cl=w.cl(); o, s=w.rngpart(t) if t is not None else (0, 1)
        if w.rng.random() < 0.95: s=min(s, 2044)
        w.log(cl.name, "ovr_get", idx, o, s); ok, d, k=w.m.ovr_get(idx, o, s); r, p, q=cl.raw.ovr_get(idx, o, s)
        if w.expect("ovr_get", ok, r) and (p != d or q != k): w.bad("override:get", "override query gave %s %s instead of %s %s" % (p.hex(), q.hex(), d.hex(), k.hex()))
    def op_ovr_set(w):
        t=w.pick(lambda t: t.odata is not None); idx=t.idx if t is not None and w.rng.random() < 0.8 else w.anyidx(); f=w.rng.choice([0, 1, 1, 255]); cl=w.cl()
        w.log(cl.name, "ovr_set", idx, f); ok=w.m.ovr_set(idx, f)
        w.expect("ovr_set", ok, cl.raw.ovr_set(idx, f)); w.settle(); w.verify(idx); w.verify(OVR_SET)
    # queues
    def op_qwrite(w):
        t=w.pick(lambda t: t.queue is not None)
        if t is None: return
        n=w.m.tsize(t)
        if n > 4080: return
        for _ in range(1+int(w.rng.expovariate(0.12))):
            w.seq+=1; d=(struct.pack("<Q", w.seq)*(n//8+1))[:n]; cl=w.cl()
            if cl.lib and w.rng.random() < 0.6 and t.type & ~QUEUE != BOOL:
                h=H(t.idx, 0, 0, t.count, n, t.type); w.log(cl.name, "hwrite", h, d)
                ok=w.m.write(cl, t.idx, 0, d); w.expect("hwrite", ok, cl.raw.hwrite(h, d)); w.c.case(("qhwrite", t.type, ok, min(t.count, 30))); w.settle()
            else: w.write(cl, t.idx, 0, d)
    def op_qread(w):
        t=w.pick(lambda t: t.queue is not None)
        if t is None: return
        for _ in range(1+int(w.rng.expovariate(0.12))):
            cl=w.cl()
            if cl.lib and w.rng.random() < 0.6 and t.type & ~QUEUE != BOOL and w.m.tsize(t) <= 4088:
                h=H(t.idx, 0, 0, t.count, w.m.tsize(t), t.type); w.log(cl.name, "hread", h)
                ok, d=w.m.read(cl, t.idx, 0, h.size); x, p=cl.raw.hread(h)
                if w.expect("hread", ok, x):
                    w.c.case(("qhread", t.type, min(t.count, 30)))
                    if p != d: w.bad("lib:queue:data", "dax_tag_read of the queue %r returned %s instead of %s" % (h, p.hex()[:300], d.hex()[:300]))
            else: w.read(cl, t.idx, 0, w.m.tsize(t))
    # departures
    def op_reconnect(w):
        cl=w.cl(); w.leave(cl)
        if w.rng.random() < 0.3 and not cl.lib: cl.name=w.rng.choice(["cl0", "cl1", "cl2", "x"*40, "dup", "dup"])
        w.join(cl)
    def op_cdt(w):
        r=w.rng; cl=w.cl()
        if w.m.ncdt > 14: return
        w.cdt(cl, *w.randcdt())
    def randcdt(w):
        r=w.rng; mem=[]
        for i in range(1+r.randrange(6)):
            k=r.random()
            if k < 0.2 and w.m.ncdt > 2: ty=CUSTOM|r.randrange(2, w.m.ncdt)
            elif k < 0.45: ty=BOOL
            else: ty=r.choice(BASE)
            mem.append(("m%d" % i, ty, r.choice([1, 1, 2, 3, 5, 8, 9, 13])))
        w.seq+=1; return "%sype%d_%x" % (r.choice("TTAZka"), w.m.ncdt, w.seq), mem   # the order of the names is not the order of creation
    def cdtsize(w, mem):
        pos=0
        for _, ty, n in mem:
            if ty == BOOL: pos+=n
            else: pos=(pos+7)//8*8+w.m.typesize(ty)*n*8
        return (pos+7)//8
    def cdt(w, cl, name, mem):
        s=name+"".join(":%s,%s,%d" % (a, NAMES.get(t) or w.m.typenames[t], n) for a, t, n in mem)
        w.log(cl.name, "cdt", s); r, ty=cl.raw.cdt(s)
        if r: w.bad("cdt:refused", "definition %s refused %d" % (s, r))
        if ty in w.m.types: w.bad("cdt:id", "new type %s got the identifier of %s" % (name, ty))
        w.m.types[ty]=w.cdtsize(mem); w.m.typenames[ty]=name; w.m.cdtdef[ty]=(name, mem, s); w.m.ncdt+=1
        return ty
    # whole-handle transfers through the client library (a BOOL handle's bits start at bit 0 of the caller's buffer)
    def hpick(w):
        h=w.handle(w.anytag() if w.rng.random() < w.modfrac else w.pick(lambda t: t.queue is None or t.type & ~QUEUE != BOOL))
        if h is None: return None
        if w.rng.random() < w.invalid:
            k=w.rng.randrange(3)
            if k == 0: h.idx=w.anyidx()
            elif k == 1: h.byte+=w.m.tsize(w.m.tags[h.idx])
            else: h.byte=2**32-8
        return h
    @staticmethod
    def part(h): return h.type == BOOL and (h.bit > 0 or h.count % 8)
    def bits(w, h, d):
        """data (or mask) of a BOOL handle as it lies in the tag"""
        n=w.m.hsize(h); return ((int.from_bytes(d, "little") & ((1 << h.count)-1)) << h.bit).to_bytes(n, "little")
    def big(w, h, lim):
        """several requests: only when nobody can see how many"""
        t=w.m.get(h.idx)
        return h.size > lim and (t is not None and (t.events or t.maps) or w.m.handle_ok(h) is None or (w.m.typesize(h.type) or 0) > 2000)
    def op_hread(w):
        cl=w.libcl(); h=w.hpick()
        if cl is None or h is None or h.size > 4088 and (w.m.typesize(h.type) or 0) > 2000: return
        w.log(cl.name, "hread", h)
        if h.size > 4088: ok=w.m.get(h.idx) is not None and w.m.handle_ok(h) is not None; d=w.m.visible(w.m.get(h.idx), h.byte, h.size) if ok else b""
        else: ok, d=w.m.read(cl, h.idx, h.byte, h.size)
        r, p=cl.raw.hread(h)
        if w.expect("hread", ok, r) and d is not None:
            w.c.case(("hread", h.type, min(h.count, 30), h.bit))
            if h.type == BOOL: d=((int.from_bytes(d, "little") >> h.bit) & ((1 << h.count)-1)).to_bytes(h.size, "little")
            if p != d: w.bad("lib:read:data", "dax_tag_read of %r returned %s instead of %s" % (h, p.hex()[:300], d.hex()[:300]))
    def op_hwrite(w):
        cl=w.libcl(); h=w.hpick()
        if cl is None or h is None: return
        if w.big(h, 2040 if w.part(h) else 4080): return
        d=w.payload(w.m.get(h.idx), h.byte, h.size) if h.type != BOOL else w.rng.getrandbits(8*h.size).to_bytes(h.size, "little")
        w.log(cl.name, "hwrite", h, d)
        if w.part(h): ok=w.m.mask(cl, h.idx, h.byte, w.bits(h, d), w.bits(h, b"\xff"*h.size))
        else: ok=w.m.write(cl, h.idx, h.byte, d)
        w.expect("hwrite", ok, cl.raw.hwrite(h, d)); w.c.case(("hwrite", h.type, min(h.count, 30), h.bit, ok)); w.settle(); w.verify(h.idx)
    def op_hmask(w):
        cl=w.libcl(); h=w.hpick()
        if cl is None or h is None or w.big(h, 2040): return
        d=w.rng.getrandbits(8*h.size).to_bytes(h.size, "little"); k=w.rng.getrandbits(8*h.size).to_bytes(h.size, "little")
        w.log(cl.name, "hmask", h, d, k)
        ok=w.m.mask(cl, h.idx, h.byte, w.bits(h, d), w.bits(h, k)) if w.part(h) else w.m.mask(cl, h.idx, h.byte, d, k)
        w.expect("hmask", ok, cl.raw.hmask(h, d, k)); w.c.case(("hmask", h.type, min(h.count, 30), h.bit, ok)); w.settle(); w.verify(h.idx)
    def op_hovr(w):
        cl=w.libcl(); h=w.hpick()
        if cl is None or h is None or h.size > 2000: return
        k=w.rng.randrange(3); n=w.m.hsize(h); full=w.bits(h, b"\xff"*h.size) if h.type == BOOL else b"\xff"*h.size
        if h.type == BOOL and not w.part(h): full=b"\xff"*n
        if k == 0:
            d=w.rng.getrandbits(8*h.size).to_bytes(h.size, "little"); w.log(cl.name, "hovr_add", h, d)
            w.expect("hovr_add", w.m.ovr_add(h.idx, h.byte, w.bits(h, d) if h.type == BOOL else d, full), cl.raw.hovr_add(h, d))
        elif k == 1:
            w.log(cl.name, "hovr_del", h)
            w.expect("hovr_del", w.m.ovr_del(h.idx, h.byte, full), cl.raw.hovr_del(h))
        else:
            w.log(cl.name, "hovr_get", h); ok, d, m=w.m.ovr_get(h.idx, h.byte, h.size); r, p, q=cl.raw.hovr_get(h)
            if w.expect("hovr_get", ok, r):
                if h.type == BOOL: d, m=(((int.from_bytes(x, "little") >> h.bit) & ((1 << h.count)-1)).to_bytes(h.size, "little") for x in (d, m))
                if (p, q) != (d, m): w.bad("lib:override:get", "dax_tag_get_override of %r gave %s %s instead of %s %s" % (h, p.hex(), q.hex(), d.hex(), m.hex()))
        w.c.case(("hovr", k, h.type, h.bit, min(h.count, 20))); w.settle(); w.verify(h.idx); w.verify(OVR_INST); w.verify(OVR_SET)
    # ---- run
    def step(w):
        getattr(w, "op_"+w.rng.choices(w.ops, w.ow)[0])()
    def run(w, n, sweep=200):
        try:
            for i in range(n):
                w.step()
                if i % sweep == sweep-1: w.sweep()
            w.sweep()
        finally:
            w.c.count("operations", w.nops); w.c.counts["copies"]=w.c.counts.get("copies", 0)+w.m.stats.get("copies", 0)
        w.c.samples and None
        if len(w.c.samples) < 6: w.c.samples.append(list(w.trace)[-5:])
    def close(w):
        for x in w.cls:
            if x.raw: x.raw.close()
        w.boot.close()

def campaign(c, bdir, worlds, ops, **kw):
    """several independent worlds, each on a fresh server"""
    for i in range(worlds):
        def one():
            srv=core.Server(bdir, c.base, "w%d_%d" % (i, c.rng.randrange(10**6))).start()
            try:
                w=World(c, srv, pid=c.pid, **kw); w.run(ops); w.close(); srv.check()
            finally: srv.kill9()
            c.count("worlds")
        c.run("world %d" % i, one)
