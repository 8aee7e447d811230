import sys, os, struct, time, socket, select; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.core import Violation, Died
from vf.proto import *
INT=[0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 77, 78, 127, 128, 255, 256, 1023, 1024, 4084, 4088, 4096, 65535, 2**16, 2**24, 2**31-1, 2**31, 2**31+1, 2**32-1, 2**32-8, 2**32-4096]
TYPES=BASE+[CUSTOM, CUSTOM|1, CUSTOM|2, CUSTOM|3, CUSTOM|500, QUEUE|DINT, QUEUE|CUSTOM, 0, 0x7F, 0xFFFFFFFF, CUSTOM|QUEUE|1]

class Fuzz:
    def __init__(f, c, srv):
        f.c=c; f.rng=c.rng; f.srv=srv; f.maxidx=30; f.protect=(); f.sane=False; f.tags={}
    def u32(f): 
        r=f.rng; k=r.random()
        if f.sane: return r.randrange(11, f.maxidx) if k < 0.9 else r.randrange(0, 20)
        if k < 0.45: return r.randrange(0, f.maxidx)
        if k < 0.9: return r.choice(INT)
        return r.getrandbits(32)
    def typ(f): return f.rng.choice(BASE) if f.sane and f.rng.random() < 0.8 else f.rng.choice(TYPES)
    def cnt(f):
        r=f.rng
        if f.sane: return r.choice([1, 2, 5, 8, 9, 33, 100])
        return r.choice([0, 1, 1, 2, 5, 8, 9, 33, 100, 1000, 5000, 2**31-1, 2**31, 2**32-1, 2**30])
    def name(f):
        r=f.rng; k=r.random()
        if k < 0.5: return ("f%d" % r.randrange(40)).encode()
        if k < 0.6: return b"_tagcount"
        if k < 0.7: return ("n"*r.choice([1, 31, 32, 33, 100, 4000])).encode()
        if k < 0.8: return b"_mfz"
        return bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))
    def blob(f, n=None):
        r=f.rng; n=r.choice([0, 1, 2, 3, 4, 7, 8, 12, 16, 33, 78, 100, 500, 2044, 2045, 4000, 4060]) if n is None else n
        return r.choice([bytes(n), b"\xff"*n, r.getrandbits(8*n).to_bytes(n, "little") if n else b""])
    def handle(f):
        r=f.rng; t=f.typ()
        return struct.pack("<iIBIII", s32(f.u32()), r.choice([0, 0, 0, 1, 4, f.u32()]), r.choice([0, 0, 1, 7, 8, 255]), f.cnt(), r.choice([0, 1, 4, 8, 33, f.u32()]), t)
    def cdtdef(f):
        r=f.rng
        if r.random() < 0.2: return f.blob(r.choice([1, 10, 300, 4080]))
        s=r.choice(["", "T%d" % r.randrange(60), "BOOL", "x"*33, "_tag_desc", "9a"])
        for i in range(r.choice([0, 1, 2, 3, 30, 200])):
            s+=":"+",".join([r.choice(["a%d" % i, "a", "", "9", "x"*40]), r.choice(list(NAMES.values())+["T1", "T2", "nope", "", s.split(":")[0], "_module"]), r.choice(["1", "0", "-1", "8", "65535", "2147483647", "99999999999", "abc", ""])][:r.choice([3, 3, 3, 3, 2, 1])])
        return s.encode()[:r.choice([4090, 4080, 500])]+r.choice([b"\0", b""])
    def good(f):
        """a request about a tag that exists, every field in range"""
        r=f.rng; idx, (t, n)=r.choice(list(f.tags.items())); sz=(n+7)//8 if t == BOOL else n*tsize(t)
        o=r.randrange(sz); l=min(r.randrange(1, sz-o+1), 2000)
        def h(k=None):
            i, (t, n)=r.choice(list(f.tags.items())) if k is None else (k, f.tags[k]); m=r.randrange(1, n+1); m=min(m, 60); a=r.randrange(n-m+1)
            if t == BOOL: return H(i, a//8, a%8, m, (a%8+m-1)//8+1, t)
            return H(i, a*tsize(t), 0, m, m*tsize(t), t)
        x=h(idx); d=r.getrandbits(8*l).to_bytes(l, "little"); k=r.randrange(14)
        if k == 0: return TAG_READ, struct.pack("<III", idx, o, l)
        if k == 1: return TAG_WRITE, struct.pack("<II", idx, o)+d
        if k == 2: return TAG_MWRITE, struct.pack("<II", idx, o)+d+d[::-1]
        if k == 3:
            et=r.choice([2, 3, 6, 7, 8, 9, 10]); y=H(x.idx, x.byte, x.bit, x.count, x.size, x.type)
            if t == BOOL: et=r.choice([2, 3, 4, 5, 10])
            return EVNT_ADD, struct.pack("<iIIIiIB", y.idx, y.byte, y.count, y.type, et, y.size, y.bit)+(f.blob(tsize(t)) if et in (6, 7, 8, 9) else b"")
        if k == 4: return EVNT_DEL, struct.pack("<II", idx, r.randrange(1, 8))
        if k == 5: return EVNT_OPT, struct.pack("<III", idx, r.randrange(1, 8), 1)
        if k == 6: y=h(); return MAP_ADD, x.p21()+H(y.idx, y.byte, y.bit, x.count if x.type == BOOL else y.count, x.size, x.type).p21()+b"\0"*6
        if k == 7: n=r.choice([1, 2, 5]); return GRP_ADD, bytes([n, 0])+b"".join(h().p21() for _ in range(n))
        if k == 8: return r.choice([GRP_READ, GRP_DEL, GRP_READ]), struct.pack("<I", r.randrange(4))
        if k == 9: return r.choice([GRP_WRITE, GRP_MWRITE]), struct.pack("<I", r.randrange(4))+f.blob(r.choice([x.size, x.size*2, 300]))
        if k == 10: return ATOMIC, x.p21()[:12]+struct.pack("<IBI", x.type, x.bit, r.choice([1, 2, 5, 6, 7, 8, 9, 10]))+f.blob(r.choice([x.size, x.size, x.size+1]))
        if k == 11: return ADD_OVRD, struct.pack("<III", idx, o, 0)+d+d
        if k == 12: return r.choice([(DEL_OVRD, struct.pack("<II", idx, o)+d), (GET_OVRD, struct.pack("<III", idx, o, l)), (SET_OVRD, struct.pack("<I", idx)+bytes([r.randrange(2)]))])
        return CDT_CREATE, ("G%d:%s" % (r.randrange(80), ":".join("m%d,%s,%d" % (i, r.choice(list(NAMES.values())+["G1", "G2", "G3"]), r.randrange(1, 20)) for i in range(r.randrange(1, 6))))).encode()+b"\0"
    def request(f):
        if f.tags and f.rng.random() < 0.45:
            cmd, p=f.good()
            if f.rng.random() < 0.35:
                q=bytearray(p); k=f.rng.randrange(0, max(1, min(len(q)-3, 30)))
                if len(q) >= 4: struct.pack_into("<I", q, k, f.rng.choice(INT))
                p=bytes(q)
            p=p[:DATAMAX]
            if cmd in (TAG_DEL, EVNT_DEL, EVNT_OPT, ADD_OVRD, DEL_OVRD, SET_OVRD) and len(p) >= 4 and struct.unpack_from("<I", p)[0] in f.protect: p=struct.pack("<I", 3)+p[4:]
            return cmd, p
        return f.hostile()
    def hostile(f):
        """(command, payload): mostly well shaped, fields hostile, sometimes cut or extended"""
        r=f.rng; f.sane=r.random() < 0.6; cmd=r.choice(list(range(1, 28))*(2 if f.sane else 1)+[TAG_ADD]*2+[0, 28, 29, 255, 0x01000001, 0x80000002, 2**32-1, 2**31])
        p={MOD_REG: lambda: struct.pack(">II", f.u32(), r.choice([1, 1, 1, 0, 2, 3, f.u32()]))+f.name()+b"\0",
           TAG_ADD: lambda: struct.pack("<III", f.typ(), f.cnt() if r.random() < 0.9 else f.u32() % 100000, r.choice([0, 0, 1, 2, 4, 0x20, 0x21, 0x24, 8, 0x10, 0xFFFFFFFF]))+f.name()+r.choice([b"\0", b""]),
           TAG_DEL: lambda: struct.pack("<I", f.u32()), TAG_GET: lambda: r.choice([b"\x02"+struct.pack("<I", f.u32()), b"\x01"+f.name()+b"\0", b"\x03"+f.name()]),
           TAG_LIST: lambda: f.blob(), TAG_READ: lambda: struct.pack("<III", f.u32(), r.choice([0, f.u32()]), f.u32()),
           TAG_WRITE: lambda: struct.pack("<II", f.u32(), r.choice([0, 0, f.u32()]))+f.blob(), TAG_MWRITE: lambda: struct.pack("<II", f.u32(), r.choice([0, 0, f.u32()]))+f.blob(),
           EVNT_ADD: lambda: struct.pack("<IIIIiIB", f.u32(), r.choice([0, 0, f.u32()]), f.cnt(), f.typ(), r.choice(list(range(0, 12))+[255, -1]), r.choice([1, 4, f.u32()]), r.choice([0, 0, 3, 8, 255]))+f.blob(r.choice([0, 1, 8, 100])),
           EVNT_DEL: lambda: struct.pack("<II", f.u32(), f.u32()), EVNT_GET: lambda: f.blob(8), EVNT_OPT: lambda: struct.pack("<III", f.u32(), f.u32() % 6, r.choice([0, 1, f.u32()])),
           CDT_CREATE: f.cdtdef, CDT_GET: lambda: r.choice([b"\x01"+f.name()+b"\0", b"\x02"+struct.pack("<I", f.typ())]),
           MAP_ADD: lambda: f.handle()+f.handle()+b"\0"*6, MAP_DEL: lambda: struct.pack("<II", f.u32(), f.u32() % 5), MAP_GET: lambda: struct.pack("<II", f.u32(), f.u32() % 5),
           GRP_ADD: lambda: (lambda k: bytes([k & 255, 0])+b"".join(f.handle() for _ in range(min(k, 180))))(r.choice([0, 1, 2, 5, 150, 151, 255])),
           GRP_DEL: lambda: struct.pack("<I", f.u32()), GRP_READ: lambda: struct.pack("<I", f.u32()), GRP_WRITE: lambda: struct.pack("<I", f.u32())+f.blob(), GRP_MWRITE: lambda: struct.pack("<I", f.u32())+f.blob(),
           ATOMIC: lambda: struct.pack("<IIIIBI", f.u32(), r.choice([0, 0, f.u32()]), f.cnt(), f.typ(), r.choice([0, 0, 5, 8]), r.choice(list(range(0, 12))+[65535]))+f.blob(),
           ADD_OVRD: lambda: struct.pack("<III", f.u32(), r.choice([0, 0, f.u32()]), 0)+f.blob(), DEL_OVRD: lambda: struct.pack("<II", f.u32(), r.choice([0, 0, f.u32()]))+f.blob(),
           GET_OVRD: lambda: struct.pack("<III", f.u32(), r.choice([0, 0, f.u32()]), f.u32()), SET_OVRD: lambda: struct.pack("<I", f.u32())+bytes([r.randrange(3)])}.get(cmd, f.blob)()
        k=r.random()
        if k < 0.08: p=p[:r.randrange(len(p)+1)]
        elif k < 0.12: p=p+f.blob()
        elif k < 0.16: p=bytearray(p); [p.__setitem__(r.randrange(len(p)), r.randrange(256)) for _ in range(3) if p]; p=bytes(p)
        p=p[:DATAMAX]
        # requests by which any client legitimately changes another's tag (delete, override, drop an event) must spare the probe's
        if cmd in (TAG_DEL, EVNT_DEL, EVNT_OPT, ADD_OVRD, DEL_OVRD, SET_OVRD) and len(p) >= 4 and struct.unpack_from("<I", p)[0] in f.protect: p=struct.pack("<I", 3)+p[4:]
        # tags that really would be huge are not the point here
        if cmd == TAG_ADD and len(p) >= 8:
            ct=struct.unpack_from("<I", p, 4)[0]
            if 100000 < ct < 2**28: p=p[:4]+struct.pack("<I", 50)+p[8:]
        return cmd, p
def s32(x): return x-2**32 if x >= 2**31 else x

class Probe:
    """A well behaved client whose data nobody else may touch."""
    def __init__(p, c, srv):
        p.c=c; p.r=Raw(srv, "probe%d" % c.rng.randrange(10**6)); p.n=0
        p.idx=p.r.tag_add("zz_probe", DINT, 200, A_OWNED|A_READONLY); p.w=p.r.tag_add("zz_probe_w", DINT, 4, A_OWNED|A_READONLY); p.data=bytes(800)
        if p.idx < 0 or p.w < 0: raise Violation("probe:setup", "cannot create tags: %d %d" % (p.idx, p.w))
        p.ev=p.r.ev_add(H(p.w, 0, 0, 4, 16, DINT), E_WRITE)
    def check(p):
        p.n+=1; rng=p.c.rng
        o=rng.randrange(790); d=rng.getrandbits(80).to_bytes(10, "little")
        if p.r.write(p.idx, o, d): raise Violation("probe:write", "a valid write by its owner was refused")
        p.data=p.data[:o]+d+p.data[o+10:]
        r, x=p.r.read(p.idx, 0, 800)
        if r or x != p.data: raise Violation("probe:data", "the data of another client's protected tag changed")
        p.r.drain()
        if p.r.write(p.w, 0, struct.pack("<4i", p.n, 1, 2, 3)): raise Violation("probe:write", "a valid write by its owner was refused")
        e=p.r.drain(); t0=time.time()
        while not e and time.time()-t0 < 5: e=p.r.drain(0.1)
        if [(x[0], x[1], x[2]) for x in e] != [(E_WRITE, p.w, p.ev)]: raise Violation("probe:event", "the other client's event was not delivered exactly once: %r" % (e,))
        r, t=p.r.by_name("zz_probe")
        if r or t[:3] != (p.idx, DINT, 200): raise Violation("probe:lookup", "lookup of another client's tag gives %r" % (t,))
        p.c.count("probes")

def with_server(c, bdir, fn):
    c.serial=getattr(c, "serial", 0)+1
    srv=core.Server(bdir, c.base, "h%d" % c.serial).start()
    try: fn(c, srv); srv.check()
    finally: srv.kill9()

def fields(c, srv):
    """well framed requests with hostile contents; every one must be answered exactly once"""
    f=Fuzz(c, srv); probe=Probe(c, srv); f.protect=(probe.idx, probe.w); rng=c.rng; cls=[]; oks=c.__dict__.setdefault('oks', set())
    for i in range(3): cls.append(Raw(srv, None, tcp=rng.random() < 0.2))
    hist=[]
    try:
        for i in range(c.n(1200, 4000)):
            cl=rng.choice(cls); cmd, p=f.request(); hist.append((cls.index(cl), cmd, p.hex()[:160])); hist=hist[-40:]
            cl.send(cl.frame(cmd, p)); m=cl.recv()
            if m is None: cl._dead("no reply to command 0x%x payload %s" % (cmd, p.hex()[:100]))
            if m[0] not in (cmd|RESP, cmd|ERRF) and m[0] & 0xFFFF != cmd & 0xFFFF: raise Violation("reply:type", "command 0x%x was answered with 0x%x" % (cmd, m[0]), hist)
            c.case((cmd, len(p), m[0] & ERRF)); c.count("answered_error" if m[0] & ERRF else "answered_ok"); oks.add(cmd) if m[0] & RESP else None
            if cmd == TAG_ADD and m[0] & RESP and len(m[1]) == 4: 
                i=struct.unpack("<i", m[1])[0]; f.maxidx=max(f.maxidx, i+2); t, n=struct.unpack_from("<II", p)
                if t in BASE and i > 10: f.tags[i]=(t, n)
            if cmd == TAG_DEL and m[0] & RESP: f.tags.pop(struct.unpack_from("<I", p)[0], None)
            for x in cls: x.drain()
            if any(x.strays for x in cls): raise Violation("reply:extra", "an extra message was sent: %r" % ([x.strays[:1] for x in cls],), hist)
            if i % 60 == 59: probe.check()
            if rng.random() < 0.004:
                k=rng.randrange(3); rng.choice([cls[k].close, cls[k].rst])(); cls[k]=Raw(srv, None)
        probe.check()
    except Died as d:
        d.report=dict(d.report or {"key": "died", "text": ""}); d.report["history"]=hist; raise

def framing(c, srv):
    """broken framing, partial frames, garbage, abrupt ends"""
    f=Fuzz(c, srv); probe=Probe(c, srv); f.protect=(probe.idx, probe.w); rng=c.rng
    for i in range(c.n(150, 600)):
        s=Raw(srv, rng.choice([None, "fz"]), tcp=rng.random() < 0.3); k=rng.randrange(9); cmd, p=f.request()
        try:
            if k == 0: s.s.sendall(os.urandom(0)+rng.getrandbits(8*300).to_bytes(300, "little"))
            elif k == 1: s.s.sendall(struct.pack(">II", rng.choice([0, 1, 7, 8, 4097, 4104, 2**16, 2**31-1, 2**31, 2**32-1, 2**32-8]), cmd)+p)
            elif k == 2: b=s.frame(cmd, p); s.s.sendall(b[:rng.randrange(len(b))])
            elif k == 3: s.s.sendall(b"".join(s.frame(*f.request()) for _ in range(20)))
            elif k == 4: s.s.sendall(struct.pack(">I", 4096)[:rng.randrange(1, 5)])
            elif k == 5: s.s.sendall(s.frame(cmd, p)*3); s.s.shutdown(socket.SHUT_RD)
            elif k == 6: s.s.sendall(s.frame(TAG_READ, struct.pack("<iII", 2, 0, 47))*200); 
            elif k == 7: s.s.sendall(b"".join(s.frame(TAG_ADD, struct.pack("<III", DINT, 1, A_OWNED)+b"own%d\0" % j) for j in range(30)))
            elif k == 8: s.s.sendall(struct.pack(">II", 8+len(p)+5, cmd)+p)
        except OSError: pass
        c.case(("framing", k, cmd)); c.count("broken_streams")
        if rng.random() < 0.3: time.sleep(0.002)
        rng.choice([s.close, s.rst, s.close])()
        if i % 10 == 9: probe.check()
    probe.check()

def pressure(c, srv):
    """clients that do not read, and many connections"""
    rng=c.rng; probe=Probe(c, srv); probe.r.timeout=60
    # a subscriber that never reads its events
    dead=Raw(srv, "dead")
    for j in range(20): dead.ev_add(H(probe.w, 0, 0, 4, 16, DINT), E_WRITE)
    for j in range(rng.randrange(5)): dead.ev_opt(probe.w, j+1, 1)
    for j in range(c.n(700, 2000)):
        if probe.r.write(probe.w, 0, struct.pack("<4i", j, 0, 0, 0)): raise Violation("probe:write", "refused")
        probe.r.drain()
    c.count("unread_events", 20*c.n(700, 2000)); probe.check()
    # a requester that never reads its replies
    s=Raw(srv, None); s.s.settimeout(0.5)
    try:
        for j in range(400): s.s.sendall(s.frame(TAG_READ, struct.pack("<iII", probe.idx, 0, 800))*5)
    except (OSError, socket.timeout): pass
    probe.check()
    # connections
    l=[]
    n=c.n(rng.choice([100, 300]), 1100)
    for j in range(n):
        x=socket.socket(socket.AF_UNIX); x.settimeout(20)
        try: x.connect(srv.sock); l.append(x)
        except OSError: x.close()
        if rng.random() < 0.1 and l:
            try: l[rng.randrange(len(l))].sendall(b"\0\0\0\x10\0")
            except OSError: pass
        if j % 100 == 99: probe.check()
    c.count("connections", len(l)); probe.check()
    for x in l: x.close()
    for j in range(5): probe.check()
    dead.close(); s.close(); c.case(("pressure", n))

def body(c):
    import resource
    try: resource.setrlimit(resource.RLIMIT_NOFILE, (4096, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    except Exception: pass
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    for i in range(c.n(10, 150)): c.run("fields %d" % i, with_server, c, b, fields)
    for i in range(c.n(4, 40)): c.run("framing %d" % i, with_server, c, b, framing)
    for i in range(c.n(1, 8)): c.run("pressure %d" % i, with_server, c, b, pressure)
    c.count("commands_answered_ok", len(c.oks))
core.main("P17", "one evaluation per hostile request or stream; the server must survive under the sanitizers, answer each well framed request once, and serve a protected probe client correctly in between", body)
