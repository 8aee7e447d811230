import sys, os, struct, socket, threading; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.core import Violation
from vf.proto import *
from vf.libcl import LibCl

class Tap:
    """forwards one client connection and records the requests that go over it"""
    def __init__(t, srv, path):
        path=core.fresh(path); t.srv=srv; t.sock=path; t.port=srv.port; t.frames=[]; t.lock=threading.Lock(); t.l=socket.socket(socket.AF_UNIX); t.l.bind(path); t.l.listen(4); t.cs=[]
        threading.Thread(target=t.accept, daemon=True).start()
    def accept(t):
        while True:
            try: c, _=t.l.accept()
            except OSError: return
            s=socket.socket(socket.AF_UNIX); s.connect(t.srv.sock); t.cs+=[c, s]
            threading.Thread(target=t.up, args=(c, s), daemon=True).start(); threading.Thread(target=t.down, args=(s, c), daemon=True).start()
    def up(t, c, s):
        buf=b""
        while True:
            try: d=c.recv(65536)
            except OSError: d=b""
            if not d:
                try: s.shutdown(socket.SHUT_WR)
                except OSError: pass
                return
            buf+=d
            while len(buf) >= 8:
                n, cmd=struct.unpack(">II", buf[:8])
                if len(buf) < n: break
                with t.lock: t.frames.append((cmd, buf[8:n]))
                buf=buf[n:]
            try: s.sendall(d)
            except OSError: return
    def down(t, s, c):
        while True:
            try: d=s.recv(65536)
            except OSError: d=b""
            if not d:
                try: c.shutdown(socket.SHUT_WR)
                except OSError: pass
                return
            try: c.sendall(d)
            except OSError: return
    def take(t):
        with t.lock: f, t.frames=t.frames, []
        return f
    def close(t):
        t.l.close()
        for x in t.cs: x.close()
    alive=lambda t: t.srv.alive()
    check=lambda t: t.srv.check()

def spans(frames):
    """(kind, offset, size) of each data request"""
    out=[]
    for cmd, p in frames:
        if cmd == TAG_READ: o, s=struct.unpack_from("<II", p, 4); out.append(("read", o, s))
        elif cmd == TAG_WRITE: o,=struct.unpack_from("<I", p, 4); out.append(("write", o, len(p)-8))
        elif cmd == TAG_MWRITE: o,=struct.unpack_from("<I", p, 4); out.append(("mask", o, (len(p)-8)//2))
    return out

def transfer(c, bdir, exe, i):
    """values of every length through the library's typed calls; whatever is too long for a message must still arrive
    exactly, and be divided only between elements"""
    r=c.rng; name="x%d_%d" % (i, r.randrange(10**6)); srv=core.Server(bdir, c.base, name).start(); tap=Tap(srv, os.path.join(c.base, name+".tap"))
    try:
        raw=Raw(srv, "raw"); l=LibCl(tap, c.base, exe)
        res, _=l.register("lib")
        if res: raise Violation("register", "the library cannot connect: %d" % res)
        custom={}; cust=[]
        for k, n in enumerate(r.sample([3, 7, 12, 100, 511, 1021, 2040, 2041, 2044, 3000, 4080, 4081, 4088, 4089, 5000], c.n(6, 12))):
            mem=r.choice(["a,BYTE,%d" % n, "a,BYTE,%d:b,BOOL,8" % (n-1), "a,INT,%d:b,BYTE,1" % ((n-1)//2) if n % 2 else "a,INT,%d" % (n//2)])
            res, ty=l.cdt("Big%d:%s" % (k, mem))
            if res: raise Violation("cdt", "type %s refused: %d" % (mem, res))
            custom[ty]=n; cust.append(ty)
        for step in range(c.n(60, 200)):
            ty=r.choice(BASE+cust*2+[BOOL]*3); e=custom.get(ty) or tsize(ty)
            lim=r.choice([4088, 4080, 2040]); want=r.choice([lim, lim-e, lim+e, 2*lim, 2*lim+e, 2*lim-e, 3*lim, r.randrange(1, 70000), r.randrange(1, 9000)])
            if ty == BOOL: count=max(1, want*8+r.choice([-9, -8, -7, -1, 0, 1, 7, 8, 9])); count=min(count, 400000); size=count//8+1; bit=r.choice([0, 0, 1, 3, 7]); skip=r.choice([0, 0, 1, 5])
            else: count=max(1, min(want, 70000)//e); size=count*e; bit=0; skip=r.choice([0, 0, 1, 2])
            h0=l.tag_add("t%d_%d" % (i, step), ty, count+skip*(8 if ty == BOOL else 1)+bit)
            if h0 < 0: raise Violation("tag_add", "tag of %d elements of type 0x%x refused: %d" % (count, ty, h0))
            total=(count+skip*8+bit)//8+1 if ty == BOOL else (count+skip)*e
            h=H(h0, skip if ty == BOOL else skip*e, bit, count, (bit+count-1)//8+1 if ty == BOOL else size, ty)
            cur=bytearray(total); part=ty == BOOL and (bit or count % 8)
            def place(d, k):
                n=h.size
                if ty == BOOL:
                    full=(1 << count)-1; v=(int.from_bytes(d, "little") & full) << bit; m=(int.from_bytes(k, "little") & full) << bit
                    if not part: v=int.from_bytes(d, "little"); m=int.from_bytes(k, "little")
                else: v=int.from_bytes(d, "little"); m=int.from_bytes(k, "little")
                o=int.from_bytes(cur[h.byte:h.byte+n], "little"); cur[h.byte:h.byte+n]=((o & ~m)|(v & m)).to_bytes(n, "little")
            def whole(what):
                got=b"".join(raw.read(h.idx, o, min(4000, total-o))[1] for o in range(0, total, 4000)); c.count("bytes compared", total)
                if got != bytes(cur):
                    k=next(j for j in range(min(len(got), total)) if got[j] != cur[j]) if len(got) == total else -1
                    raise Violation("transfer:"+what, "after %s of %r (tag of %d bytes) byte %d is %s instead of %s" % (what, h, total, k, got[k:k+8].hex(), bytes(cur[k:k+8]).hex()))
            def pieces(what, lim):
                sp=spans(tap.take()); c.count("requests of divided transfers", len(sp) if len(sp) > 1 else 0); c.case((what, ty if ty < CUSTOM else e, len(sp), bit, min(skip, 1)))
                if ty == BOOL: return
                for kind, o, s in sp:
                    if (o-h.byte) % e or s % e: raise Violation("torn:"+what, "%s of %r (elements of %d bytes) was divided inside an element: %s" % (what, h, e, sp[:6]))
            tap.take()
            if r.random() < 0.5:
                d=r.getrandbits(8*total).to_bytes(total, "little")
                for o in range(0, total, 4000): raw.write(h.idx, o, d[o:o+4000])
                cur[:]=d
            for what in r.sample(["write", "mask", "read"], 3):
                d=r.getrandbits(8*h.size).to_bytes(h.size, "little")
                if what == "write":
                    res=l.hwrite(h, d); ok=e <= 4080
                    if ok: place(d, b"\xff"*h.size)
                elif what == "mask":
                    k=r.choice([r.getrandbits(8*h.size).to_bytes(h.size, "little"), b"\xff"*h.size, bytes(h.size)]); res=l.hmask(h, d, k); ok=e <= 2040
                    if ok: place(d, k)
                else:
                    res, got=l.hread(h); ok=e <= 4088; exp=bytes(cur[h.byte:h.byte+h.size])
                    if ty == BOOL: exp=((int.from_bytes(exp, "little") >> bit) & ((1 << count)-1)).to_bytes(h.size, "little")
                    if ok and res == 0 and got != exp:
                        k=next(j for j in range(h.size) if got[j] != exp[j])
                        raise Violation("transfer:read", "dax_tag_read of %r: byte %d is %s instead of %s" % (h, k, got[k:k+8].hex(), exp[k:k+8].hex()))
                if (res == 0) != ok: raise Violation("transfer:%s:%s" % (what, "refused" if ok else "accepted"), "dax_tag_%s of %r (elements of %d bytes) returned %d" % (what, h, e, res))
                pieces(what, None); whole(what)
            raw.tag_del(h.idx)
        l.close(); raw.close(); srv.check()
    finally: tap.close(); srv.kill9()

def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), weights=dict(cdt=0.3, read=6, write=8, mask=6), bigfrac=0.08)
    world.campaign(c, b, c.n(4, 40), c.n(2500, 6000), weights=dict(cdt=0.3, read=4, write=5, mask=4, hread=8, hwrite=8, hmask=6, ovr_add=0.2, ovr_set=0.2, ev_add=0.2), bigfrac=0.08, nclients=2, libs=2, exe=exe)
    for i in range(c.n(4, 40)): c.run("transfer %d" % i, transfer, c, b, exe, i)
core.main("P01", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
