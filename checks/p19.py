import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random, signal, socket, struct, threading, time
from vf import core, proto
from vf.core import Violation, Died, hx
from vf.proto import *
TMO=0.5              # the client's message timeout, the smallest that it takes
SLACK=2.5            # what we allow on top of that for a loaded machine
serial=0
class Proxy:
    """Sits between the client and the real server; what comes from the server can be damaged frame by frame."""
    def __init__(s, c, srv, tcp):
        global serial
        serial+=1; s.c=c; s.srv=srv; s.tcp=tcp; s.lock=threading.Lock(); s.reply=[]; s.event=None; s.request=None; s.sock=None; s.port=None
        s.done=[]; s.conns=[]; s.frames=0; s.run=True; s.hold=None
        if tcp: s.l=socket.socket(); s.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.l.bind(("127.0.0.1", 0)); s.port=s.l.getsockname()[1]
        else: s.sock=os.path.join(c.base, "px%d" % serial); s.l=socket.socket(socket.AF_UNIX); s.l.bind(s.sock)
        s.l.listen(16); threading.Thread(target=s.accept, daemon=True).start()
    def accept(s):
        while s.run:
            try: a=s.l.accept()[0]
            except OSError: return
            if s.hold == "silent": s.conns.append((a, a)); continue
            if s.hold == "close": a.close(); continue
            try: b=socket.socket(socket.AF_UNIX); b.connect(s.srv.sock)
            except OSError: a.close(); continue
            if s.tcp: a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.conns.append((a, b))
            threading.Thread(target=s.up, args=(a, b), daemon=True).start(); threading.Thread(target=s.down, args=(a, b), daemon=True).start()
    @staticmethod
    def need(x, n):
        b=b""
        while len(b) < n:
            d=x.recv(n-len(b))
            if not d: raise OSError("closed")
            b+=d
        return b
    def up(s, a, b):
        try:
            while True:
                h=s.need(a, 8); n,=struct.unpack(">I", h[:4]); p=s.need(a, max(0, n-8))
                with s.lock: f=s.request; s.request=None
                if f == "drop": s.done.append(f); continue
                b.sendall(h+p)
        except OSError: s.shut(a, b)
    @staticmethod
    def shut(a, b):
        for x in (a, b):
            try: x.shutdown(socket.SHUT_RDWR)
            except OSError: pass
            try: x.close()
            except OSError: pass
    def down(s, a, b):
        try:
            while True:
                h=s.need(b, 8); n, t=struct.unpack(">II", h); p=s.need(b, n); s.frames+=1
                if t & EVENT:
                    with s.lock: f=s.event; s.event=None
                else:
                    with s.lock: f=s.reply.pop(0) if s.reply else None
                if f is None: a.sendall(h+p)
                else:
                    f(s, a, b, t, p)
                    s.done.append(f)
        except OSError: s.shut(a, b)
    def send(s, data):
        """to the newest client, out of turn"""
        s.conns[-1][0].sendall(data)
    def cut(s):
        for a, b in s.conns: s.shut(a, b)
        s.conns=[]
    def close(s):
        s.run=False
        try: s.l.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        s.l.close(); s.cut()
def frame(t, p): return struct.pack(">II", len(p), t & 0xFFFFFFFF)+p
# ------------------------------------------------------------------ faults: what is sent in place of the reply (type t, payload p)
class Lost(Exception): pass
def f_trunc(n): return lambda s, a, b, t, p: a.sendall(frame(t, p[:n if n >= 0 else max(0, len(p)+n)]))
def f_extend(x): return lambda s, a, b, t, p: a.sendall(frame(t, (p+x)[:DATAMAX]))
def f_over(n, x): return lambda s, a, b, t, p: a.sendall(struct.pack(">II", n, t)+x)
def f_type(ty): return lambda s, a, b, t, p: a.sendall(frame(ty(t), p))
def f_err(x): return lambda s, a, b, t, p: a.sendall(frame((t & 0xFFFFFF)|ERRF, p if x is None else x))
def f_garbage(r, mode):
    def f(s, a, b, t, p):
        q=bytearray(p)
        if mode == 0: q=bytearray(r.randbytes(len(q)))
        elif mode == 1:
            for _ in range(r.randrange(1, 4)):
                if len(q) >= 4: o=4*r.randrange(0, len(q)//4); q[o:o+4]=struct.pack("<I", r.choice([0, 1, 0x7fffffff, 0xffffffff, 0x80000000, 0x80000001, 0x40000010, 0xfffffffe, 65536, r.getrandbits(32)]))
        elif mode == 2: q=bytearray(r.randbytes(r.choice([0, 1, 3, 4, 7, 8, 13, 14, 15, 16, 29, 42, 47, 64, 4088])))
        else: q=bytearray(b"\xff"*len(q))
        a.sendall(frame(t, bytes(q)))
    return f
def f_drop(s, a, b, t, p): pass
def f_delay(sec):
    def f(s, a, b, t, p): time.sleep(sec); a.sendall(frame(t, p))
    return f
def f_split(cuts, pause):
    def f(s, a, b, t, p):
        d=frame(t, p); k=0
        for x in cuts+[len(d)]:
            if x >= len(d) and x != len(d): continue
            a.sendall(d[k:x]); k=x
            if k < len(d): time.sleep(pause)
    return f
def f_stall(n, sec):
    """part of the frame, the rest much later or never"""
    def f(s, a, b, t, p):
        d=frame(t, p); n_=min(n, len(d)-1); a.sendall(d[:n_])
        if sec is None:
            while s.run: time.sleep(0.05)
            raise OSError
        time.sleep(sec); a.sendall(d[n_:])
    return f
def f_close(n, how):
    def f(s, a, b, t, p):
        d=frame(t, p); a.sendall(d[:min(n, len(d)-1)]) if n else None
        if how == "rst" and s.tcp: a.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); a.close(); raise OSError
        if how == "half": a.shutdown(socket.SHUT_WR); time.sleep(0.3)
        raise OSError
    return f
def f_two(first):
    """something else first, then the reply"""
    def f(s, a, b, t, p): a.sendall(first); a.sendall(frame(t, p))
    return f
# ------------------------------------------------------------------ one client with its proxy and the truth
class Bed:
    def __init__(b, c, bdir, exe, tcp):
        global serial
        serial+=1; b.c=c; b.rng=c.rng; b.exe=exe; b.srv=core.Server(bdir, c.base, "s%d" % serial).start(); b.raw=Raw(b.srv, "truth"); b.tcp=tcp; b.px=Proxy(c, b.srv, tcp); b.n=0; b.types=[]
        b.probe=b.raw.tag_add("probe", LINT, 1); b.tags=[]; b.ev=b.raw.tag_add("evtag", DINT, 1)
        for k in range(40): ty=b.rng.choice(BASE); ct=b.rng.randrange(1, 50); i=b.raw.tag_add("t%d" % k, ty, ct); b.tags.append((i, "t%d" % k, ty, ct, (ct+7)//8 if ty == BOOL else ct*tsize(ty)))
        b.d=core.Drv(exe, c.base, b.px if tcp else b.px, "cl%d" % serial, tcp=tcp, args=("-O", "500", "-Z", "1"), timeout=30); b.renew()
    def renew(b):
        r=b.d.connect()
        if r: raise Violation("connect", "connecting to a server that answers gives %d" % r)
        b.lost=False; b.h_probe=b.probe; b.evid=None
    def prove(b, why):
        """a later call pairs with its own reply"""
        for _ in range(2):
            v=b.rng.randbytes(8); b.raw.write(b.probe, 0, v); t0=time.time(); r=b.d.cmd("read", b.probe, 0, 8); dt=time.time()-t0
            if dt > TMO+SLACK: raise Violation("slow", "%s: a read afterwards took %.1f s" % (why, dt))
            if r[0] == "0" and core.uhx(r[1]) != v: raise Violation("foreign-data", "%s: a read afterwards succeeded with %s, the tag has %s" % (why, r[1], v.hex()))
            if r[0] != "0": return int(r[0])
        return 0
    def fresh(b): b.n+=1; return "f%d_%d" % (serial, b.n)
    def tag(b): return b.rng.choice(b.tags)
    def close(b):
        b.px.close(); b.d.kill(); b.srv.kill9()
# operations: (name, returns data, function giving the command, function giving the right answer or None if any success is fine, called when the server is left alone)
def operations(b):
    r=b.rng
    def H_(t): return H(t[0], 0, 0, t[3], t[4], t[2])
    def op_byname(): t=b.tag(); return ("byname", hx(t[1])), lambda: ["0"]+[str(x) for x in tagrow(b, t)]
    def op_byindex(): t=b.tag(); return ("byindex", t[0]), lambda: ["0"]+[str(x) for x in tagrow(b, t)]
    def op_handle(): t=b.tag(); return ("handle", hx(t[1]), 0), lambda: ["0", H_(t).s()]
    def op_read():
        t=b.tag(); o=r.randrange(t[4]); n=r.randrange(1, t[4]-o+1); b.raw.write(t[0], 0, r.randbytes(t[4]))
        return ("read", t[0], o, n), lambda: ["0", hx(b.raw.read(t[0], o, n)[1])]
    def op_tread():
        while True:
            t=b.tag()
            if t[2] != BOOL: break
        b.raw.write(t[0], 0, bytes(r.randrange(64) for _ in range(t[4]))); return ("tread", H_(t).s()), lambda: ["0", hx(b.raw.read(t[0], 0, t[4])[1])]
    def op_write():
        t=b.tag(); v=r.randbytes(t[4]); return ("write", t[0], 0, hx(v)), None
    def op_mask(): t=b.tag(); return ("mask", t[0], 0, hx(r.randbytes(t[4])), hx(r.randbytes(t[4]))), None
    def op_twrite(): t=b.tag(); return ("twrite", H_(t).s(), hx(r.randbytes(t[4]))), None
    def op_tag_add():
        n=b.fresh(); return ("tag_add", hx(n), DINT, 3, 0), lambda: ["0", H(b.raw.by_name(n)[1][0], 0, 0, 3, 12, DINT).s()]
    def op_tag_del(): i=b.raw.tag_add(b.fresh(), INT, 1); return ("tag_del", i), None
    def op_typesize():
        res, ty=b.raw.cdt("%s:m,INT,%d:n,LREAL,%d:o,BOOL,9" % (b.fresh(), 3, 2)); return ("typesize", ty), lambda: ["24"]
    def op_nested():
        res, ty=b.raw.cdt("%s:m,INT,3:o,BOOL,9" % b.fresh()); nm=b.raw.cdt_get(type=ty)[2].split(":")[0]; res, t2=b.raw.cdt("%s:a,%s,2:z,SINT,1" % (b.fresh(), nm)); return ("typesize", t2), lambda: ["17"]
    def op_s2t():
        n=b.fresh(); res, ty=b.raw.cdt("%s:m,INT,3" % n); return ("s2t", hx(n)), lambda: [str(ty)]
    def op_t2s():
        n=b.fresh(); res, ty=b.raw.cdt("%s:m,INT,3" % n); return ("t2s", ty), lambda: [hx(n)]
    def op_member():
        n=b.fresh(); res, ty=b.raw.cdt("%s:m,INT,3:k,DINT,2" % n); i=b.raw.tag_add(n+"t", ty, 4); return ("handle", hx("%st[2].k[1]" % n), 0), lambda: ["0", H(i, 14*2+6+4, 0, 1, 4, DINT).s()]
    def op_cdt(): n=b.fresh(); return ("cdt", hx(n), 2, hx("a"), INT, 2, hx("b"), BOOL, 3), lambda: ["0", "0", "0", "0", str(b.raw.cdt_get(name=n)[1])]
    def op_map_add(): x, y=b.raw.tag_add(b.fresh(), INT, 1), b.raw.tag_add(b.fresh(), INT, 1); nul=r.random() < 0.3; return ("map_add", H(x, 0, 0, 1, 2, INT).s(), H(y, 0, 0, 1, 2, INT).s(), *["null"]*nul), lambda: ["0", "%d:0" % (-1 if nul else x)]
    def op_map_get():
        x, y=b.raw.tag_add(b.fresh(), INT, 4), b.raw.tag_add(b.fresh(), INT, 4); hs=H(x, 2, 0, 1, 2, INT), H(y, 4, 0, 1, 2, INT); i=b.raw.map_add(*hs); return ("map_get", "%d:%d" % (x, i)), lambda: ["0", hs[0].s(), hs[1].s()]
    def op_map_del():
        x, y=b.raw.tag_add(b.fresh(), INT, 4), b.raw.tag_add(b.fresh(), INT, 4); i=b.raw.map_add(H(x, 2, 0, 1, 2, INT), H(y, 4, 0, 1, 2, INT)); return ("map_del", "%d:%d" % (x, i)), None
    def op_grp_add():
        t=[b.tag() for _ in range(r.randrange(1, 5))]; return ("grp_add", len(t), *[H_(x).s() for x in t]), None
    def op_grp_read():
        t=b.grp
        for x in t: b.raw.write(x[0], 0, bytes(r.randrange(64) for _ in range(x[4])))
        return ("grp_read", b.gslot), lambda: ["0", hx(b"".join(b.raw.read(x[0], 0, x[4])[1] for x in t))]
    def op_grp_write(): return ("grp_write", b.gslot, hx(r.randbytes(sum(x[4] for x in b.grp)))), None
    def op_ovr_add(): t=b.tag(); return ("ovr_add", H_(t).s(), hx(bytes(t[4]))), None
    def op_ovr_get():
        i=b.raw.tag_add(b.fresh(), DINT, 2); b.raw.ovr_add(i, 0, r.randbytes(8), b"\xff"*8); x, v, m=b.raw.ovr_get(i, 0, 8); return ("ovr_get", H(i, 0, 0, 2, 8, DINT).s()), lambda: ["0", hx(v), hx(m)]
    def op_ovr_set(): i=b.raw.tag_add(b.fresh(), DINT, 2); b.raw.ovr_add(i, 0, r.randbytes(8), b"\xff"*8); return (r.choice(["ovr_set", "ovr_clr", "ovr_del"]), H(i, 0, 0, 2, 8, DINT).s()), None
    def op_atomic(): i=b.raw.tag_add(b.fresh(), DINT, 2); return ("atomic", H(i, 0, 0, 2, 8, DINT).s(), r.choice([4, 5, 8]), hx(struct.pack("<ii", r.randrange(99), r.randrange(99)))), None
    def op_ev_add(): i=b.raw.tag_add(b.fresh(), DINT, 2); nul=r.random() < 0.3; return ("ev_add", H(i, 0, 0, 2, 8, DINT).s(), E_CHANGE, 7, "-", *["null"]*nul), lambda: ["0", "%d:0" % (-1 if nul else i)]
    def op_ev_mod():
        x=b.d.cmd("ev_add", H(b.ev, 0, 0, 1, 4, DINT).s(), E_EQUAL, 7, hx(b"\x01\2\3\4"))
        if x[0] != "0": raise Violation("later-call", "ev_add gives %s" % x[0])
        return (r.choice(["ev_del", "ev_opt"]), x[1], 1), None
    def op_grp_del():
        x=b.d.cmd("grp_add", 2, *[H_(t).s() for t in r.sample(b.tags, 2)])
        if x[0] != "0": raise Violation("later-call", "grp_add gives %s" % x[0])
        return ("grp_del", x[1]), None
    return {k[3:]: v for k, v in locals().items() if k.startswith("op_")}
ASK=["typesize", "nested", "member", "s2t", "t2s", "ev_mod", "grp_del"]
def unconnected(b, ops, why):
    """every kind of call while there is no connection: all say so at once, and none keeps the next one from returning"""
    cm=[(nm, ops[nm]()[0]) for nm in ops if nm not in ASK]+[("ev_del", ("ev_del", "%d:0" % b.ev)), ("ev_opt", ("ev_opt", "%d:0" % b.ev, 1)), ("grp_del", ("grp_del", b.gslot)), ("disc", ("read", b.probe, 0, 8))]
    b.rng.shuffle(cm)
    for nm, cmd in cm:
        t0=time.time(); a=b.d.cmd(*cmd); dt=time.time()-t0; ok=a[0] == "0" and (nm != "cdt" or len(a) > 3 and a[3] == "0")
        if ok: raise Violation("false-success", "%s: %s without a connection says success: %s" % (why, nm, " ".join(a)[:100]))
        if dt > 0.4*TMO+SLACK: raise Violation("slow", "%s: %s without a connection takes %.1f s" % (why, nm, dt))
        b.c.count("calls without a connection")
def tagrow(b, t): x=b.raw.by_index(t[0])[1]; return x[0], x[1], x[2], x[3], hx(x[4])
NODATA=set("write mask twrite tag_del map_del grp_write ovr_add ovr_set atomic ev_mod".split())
def faults(r):
    """name, fault, does the call have to fail, what becomes of the connection: keep, lost, either"""
    x=r.randrange(17)
    if x == 0: return "truncated", f_trunc(r.choice([0, 1, 2, 3, 4, 7, 8, 13, 14, 15, -1, -2, -4, -8])), False, "keep"
    if x == 1: return "extended", f_extend(r.randbytes(r.choice([1, 2, 4, 8, 40, 300, 4088]))), False, "keep"
    if x == 2: return "oversize", f_over(r.choice([4089, 4096, 5000, 65536, 0x7fffffff, 0x80000000, 0xffffffff]), r.randbytes(r.choice([0, 10, 4089, 9000]))), True, "lost"
    if x == 3: k=r.choice([1, 2, 5, 26]); return "other command", f_type(lambda t: RESP|(((t & 0xFF)+k) % 40)), True, "keep"
    if x == 4: return "no flag", f_type(lambda t: t & 0xFF), True, "keep"
    if x == 5: return "error reply", f_err(r.choice([None, b"", b"\xff", b"\xff\xff", struct.pack("<i", -5), struct.pack("<i", 0), struct.pack("<i", 7), r.randbytes(4088), b"\0"*8])), True, "keep"
    if x == 6: return "dropped", f_drop, True, "either"
    if x == 7: return "late", f_delay(TMO+r.choice([0.1, 0.3])), True, "keep"
    if x == 8: return "slow", f_delay(r.choice([0.05, 0.15, 0.25])), None, "keep"
    if x == 9: return "split", f_split(sorted(r.sample(range(1, 40), r.randrange(1, 6))), 0.03), None, "keep"
    if x == 10: return "stall", f_stall(r.choice([8, 8, r.randrange(1, 30)]), TMO+0.3), True, "keep"
    if x == 11: return "stuck", f_stall(r.randrange(1, 30), None), True, "dead"
    if x == 12: return "closed", f_close(0, "close"), True, "lost"
    if x == 13: return "closed inside", f_close(r.randrange(1, 30), r.choice(["close", "rst"])), True, "lost"
    if x == 14: return "half closed", f_close(r.randrange(0, 30), "half"), True, "lost"
    if x == 15: e=r.choice([b"", r.randbytes(4), struct.pack("<ii", 0x7ffffff, 3)+b"xx", struct.pack("<ii", -1, -1), r.randbytes(4088)]); return "event first", f_two(frame(EVENT|r.randrange(0, 12), e)), None, "keep"
    return "request dropped", None, True, "either"
def single(c, bdir, exe, tcp, n):
    r=c.rng; b=Bed(c, bdir, exe, tcp)
    try:
        ops=operations(b); group(b)
        for k in range(n):
            if k % 60 == 59:        # the library is used from the start again now and then
                b.d.i("disconnect"); b.d.i("free"); b.d.cmd("init", "again", "-C", os.path.join(c.base, "empty.conf"), "-K", c.base, *(("-S", "127.0.0.1", "-I", "127.0.0.1", "-P", b.px.port) if tcp else ("-U", b.px.sock)), "-O", "500", "-Z", "1"); b.renew(); group(b)
            nm=r.choice(list(ops)); cmd, truth=ops[nm](); name, f, fail, conn=faults(r); why="%s of the reply to %s" % (name, nm)
            with b.px.lock:
                if f is None: b.px.request="drop"
                else: b.px.reply=[None]*(nm in ("nested", "member") and r.random() < 0.5)+[f]
            nd=len(b.px.done); t0=time.time(); ans=b.d.cmd(*cmd); dt=time.time()-t0
            with b.px.lock: applied=b.px.request is None and not b.px.reply; b.px.request=None; b.px.reply=[]
            c.count("fault:"+name); c.case((nm, name, ans[0][:3], tcp))
            res=ans[0]; ok=res == "0" if nm not in ("typesize", "nested", "s2t", "t2s", "cdt", "grp_add") else (nm == "grp_add" and res == "0" or nm == "cdt" and len(ans) > 3 and ans[3] == "0" or nm in ("typesize", "nested") and int(res) > 0 or nm == "s2t" and res != "0" or nm == "t2s" and res != "-")
            if not applied and nm in ("byname", "byindex", "handle"): fail=None; conn="keep"; c.count("cached")      # the library knew the tag
            elif not applied: raise Violation("harness", "%s: the call did not ask the server" % why)
            if dt > 2*TMO+SLACK: raise Violation("slow", "%s: the call took %.1f s" % (why, dt))
            if conn == "lost" and name != "half closed" and dt > 0.4*TMO+SLACK and dt > TMO: raise Violation("slow", "%s: the call took %.1f s although the connection was gone" % (why, dt))
            if fail and ok: raise Violation("false-success", "%s: the call says success: %s" % (why, " ".join(ans)[:200]))
            if fail is None and not ok: raise Violation("false-failure", "%s: the call fails: %s" % (why, " ".join(ans)[:200]))
            if ok and truth and not same(b, nm, ans, truth()): raise Violation("wrong-data", "%s: success with %s, right is %s" % (why, " ".join(ans)[:300], " ".join(truth())[:300]))
            if name in ("late", "stall", "slow") and r.random() < 0.5: time.sleep(0.6)
            res=b.prove(why)
            if conn == "keep":
                if res: raise Violation("later-call", "%s: a call afterwards fails with %d" % (why, res))
                if b.d.cmd("disc")[0] != "0": raise Violation("later-call", "%s: the connection is gone" % why)
            elif conn != "either" or res:
                # a reply that never comes and one that is late are the same to the client: it may have to connect again
                if not res: raise Violation("later-call", "%s: a call afterwards works without a connection" % why)
                if conn == "lost":
                    t0=time.time()
                    while b.d.i("disc") == 0:
                        if time.time()-t0 > 5: raise Violation("disconnect", "%s: the disconnect callback is not called" % why)
                        time.sleep(0.01)
                    t0=time.time(); res=b.prove(why)
                    if time.time()-t0 > 0.4*TMO+SLACK or res >= 0: raise Violation("slow", "%s: a call without a connection gives %d after %.2f s" % (why, res, time.time()-t0))
                    if k % 3 == 0: unconnected(b, ops, why)
                if r.random() < 0.5: t0=time.time(); b.d.i("disconnect"); dt=time.time()-t0
                else: dt=0
                if dt > TMO+SLACK: raise Violation("slow", "%s: disconnect takes %.1f s" % (why, dt))
                if r.random() < 0.5: b.px.cut()
                t0=time.time(); b.renew(); b.d.i("disc0")
                if time.time()-t0 > TMO+SLACK: raise Violation("slow", "%s: connecting again takes %.1f s" % (why, time.time()-t0))
                if b.prove(why): raise Violation("later-call", "%s: a call after connecting again fails" % why)
                group(b); c.count("reconnects")
            b.srv.check()
        c.count("frames", b.px.frames)
    finally: b.close()
def group(b):
    b.grp=[t for t in b.rng.sample(b.tags, 12) if t[2] != BOOL][:4]; a=b.d.cmd("grp_add", len(b.grp), *[H(t[0], 0, 0, t[3], t[4], t[2]).s() for t in b.grp])
    if a[0] != "0": raise Violation("later-call", "grp_add gives %s" % a[0])
    b.gslot=int(a[1])
def same(b, nm, a, t):
    if nm in ("map_add", "ev_add"): return a[0] == t[0] and a[1].split(":")[0] == t[1].split(":")[0]
    if nm == "cdt": return a[-1] == t[-1]
    return a == t

def within(t0, why, limit=TMO):
    dt=time.time()-t0
    if dt > limit+SLACK: raise Violation("slow", "%s took %.1f s" % (why, dt))
    return dt
# ------------------------------------------------------------------ registration
def registration(c, bdir, exe, tcp, n):
    r=c.rng; b=Bed(c, bdir, exe, tcp)
    try:
        for k in range(n):
            b.d.i("disconnect") if r.random() < 0.7 else b.px.cut(); why=None
            x=r.randrange(5)
            if x == 0:
                b.px.hold=r.choice(["silent", "close"]); why="connecting to a server that %s" % ("says nothing" if b.px.hold == "silent" else "closes the connection"); t0=time.time(); res=b.d.connect(); within(t0, why); b.px.hold=None
            elif x == 1:
                q=r.choice([f_trunc(r.randrange(0, 30)), f_garbage(r, 3), f_type(lambda t: t & 0xFF), f_type(lambda t: RESP|TAG_ADD), f_type(lambda t: EVENT|4), f_err(r.choice([None, b"", b"\xff", struct.pack("<i", -5), b"\0"*4, struct.pack("<i", 9)])), f_over(r.choice([4089, 0xffffffff, 0x80000000]), b"x"*5000),
                            f_two(frame(EVENT|2, struct.pack("<ii", 0, 0))), f_drop, f_delay(TMO+0.2), f_stall(r.randrange(1, 30), None), f_close(r.randrange(0, 30), r.choice(["close", "rst", "half"]))]); why="connecting with a bad answer to the registration"
                with b.px.lock: b.px.reply=[q]
                t0=time.time(); res=b.d.connect(); within(t0, why)
                with b.px.lock: b.px.reply=[]
            elif x == 2:
                with b.px.lock: b.px.reply=[f_split(sorted(r.sample(range(1, 38), 3)), 0.03)]
                if b.d.connect(): raise Violation("connect", "connecting fails when the answer to the registration comes in pieces")
                res=None
            elif x == 3:        # twice without a disconnect
                b.renew(); b.renew(); res=None
            else:               # the server goes away while it is connected
                b.d.i("disc0"); b.renew(); b.px.cut(); t0=time.time()
                while b.d.i("disc") == 0: within(t0, "the disconnect callback"); time.sleep(0.005)
                res=None; b.renew()
            if res is not None:
                if res == 0: raise Violation("false-success", "%s is reported as a success" % why)
                if not b.prove(why): raise Violation("later-call", "%s: calls work although it failed" % why)
                for q in (("byname", hx("probe")), ("write", b.probe, 0, "00"*8), ("ev_poll", 0), ("ev_wait", 100, 0), ("disconnect",)):
                    if r.random() < 0.4:
                        t0=time.time(); a=b.d.cmd(*q); within(t0, "%s after a failed connect" % q[0])
                        if a[0] == "0": raise Violation("false-success", "%s works although connecting failed" % q[0])
                b.renew()
            if b.prove("registration"): raise Violation("later-call", "calls fail after connecting (%s)" % why)
            c.case(("reg", x, tcp)); c.count("registrations")
    finally: b.close()
# ------------------------------------------------------------------ events
def events(c, bdir, exe, tcp, n):
    r=c.rng; b=Bed(c, bdir, exe, tcp)
    try:
        ids={}
        for k in range(3):
            i=b.raw.tag_add(b.fresh(), DINT, 4); a=b.d.cmd("ev_add", H(i, 0, 0, 4, 16, DINT).s(), E_WRITE, k, "-"); ids[k]=(i, a[1])
            if a[0] != "0" or b.d.cmd("ev_opt", a[1], 1)[0] != "0": raise Violation("later-call", "ev_add")
        for k in range(n):
            j=r.randrange(3); i, idt=ids[j]; ii, id_=[int(x) for x in idt.split(":")]; w=r.randrange(8); v=r.randbytes(16)
            if w < 4:
                f=r.choice([f_trunc(r.choice([0, 1, 4, 7, 8, 9, 12, 23])), f_extend(r.randbytes(r.choice([1, 16, 4000]))), f_garbage(r, r.randrange(4)), f_split(sorted(r.sample(range(1, 30), 3)), 0.02), f_drop, f_two(frame(RESP|TAG_READ, b"\xee"*8)), f_two(frame(ERRF|TAG_READ, struct.pack("<i", 0)))])
                with b.px.lock: b.px.event=f
                b.raw.write(i, 0, v); b.d.cmd("read", b.probe, 0, 8); time.sleep(0.02)
            elif w < 6:     # out of the blue
                m=r.choice([frame(EVENT|r.randrange(0, 20), struct.pack("<ii", r.choice([ii, ii+1, -1, 0x7fffffff]), r.choice([id_, id_+1, -1, 99]))[:r.choice([8, 8, 0, 4, 7])]+r.randbytes(r.choice([0, 1, 16, 4000]))), frame(EVENT|0x7fffffff, b""), frame(RESP|TAG_READ, b"\xee"*8), frame(RESP|MOD_REG, b""), frame(ERRF|TAG_READ, b""), frame(0, b"")])
                for _ in range(r.choice([1, 3, 30])): b.px.send(m)
                time.sleep(0.05)
            else:
                while b.d.cmd("ev_poll", 16)[0] != "-5": pass
                b.raw.write(i, 0, v); t0=time.time(); a=b.d.cmd("ev_wait", 2000, 16); within(t0, "ev_wait", 2.0)
                if a[0] != "0" or a[1] != idt or a[3] != "1" or a[4] != "%d/16/%s" % (j, v.hex()): raise Violation("event", "after damaged events a good one (%s of tag %d) gives %s" % (v.hex(), i, a))
                c.count("good_events")
            # nothing but callbacks of events that exist
            for _ in range(40):
                t0=time.time(); a=b.d.cmd(r.choice(["ev_poll", "ev_poll", "ev_wait 50"]), 16); within(t0, "event call")
                if a[0] in ("-5", "-14"): break
            b.d.cmd("ev_poll", 20); res=b.prove("event fault")
            if res: raise Violation("later-call", "after a damaged event a call fails with %d" % res)
            c.case(("event", w, tcp)); c.count("event_faults")
        # waiting while the connection goes away
        for how in ("cut", "over"):
            b.d.i("disc0"); t=threading.Timer(0.3, b.px.cut if how == "cut" else lambda: b.px.send(struct.pack(">II", 0xfffffff, EVENT|2)+b"x"*100)); t.start(); t0=time.time(); a=b.d.cmd("ev_wait", 1500, 0); within(t0, "waiting for an event on a connection that goes away", 1.5)
            if a[0] == "0": raise Violation("false-success", "waiting for an event on a connection that goes away gives an event")
            t0=time.time()
            while b.d.i("disc") == 0: within(t0, "the disconnect callback"); time.sleep(0.01)
            b.renew()
            if b.prove("reconnect"): raise Violation("later-call", "calls fail after connecting again")
    finally: b.close()
def stop(b):
    os.kill(b.srv.p.pid, signal.SIGSTOP); t0=time.time()
    while any(open("/proc/%d/task/%s/stat" % (b.srv.p.pid, t)).read().rsplit(")", 1)[1].split()[0] != "T" for t in os.listdir("/proc/%d/task" % b.srv.p.pid)):
        if time.time()-t0 > 10: raise Violation("harness", "the server cannot be stopped")
        time.sleep(0.002)
def truth_of(b, cmd):
    t=[t for t in b.tags if cmd[1] in (hx(t[1]), t[0])][0]; return ["0", str(t[0]), str(t[2]), str(t[3]), "0", hx(t[1])]
# ------------------------------------------------------------------ several late replies, a server that is stopped or killed
def hanging(c, bdir, exe, tcp, n):
    r=c.rng; b=Bed(c, bdir, exe, tcp)
    try:
        ops=operations(b); group(b)
        for k in range(n):
            m=r.randrange(1, 5); q=[b.rng.choice(["read", "byname", "byindex", "write", "map_get", "ovr_get", "grp_read"]) for _ in range(m)]; cm=[ops[x]() for x in q]; stop(b)
            try:
                for x, (cmd, truth) in zip(q, cm):
                    t0=time.time(); a=b.d.cmd(*cmd); within(t0, "%s to a server that hangs" % x)
                    if a[0] == "0" and x[:2] != "by": raise Violation("false-success", "%s succeeds while the server hangs" % x)
                    if a[0] == "0" and a != truth_of(b, cmd): raise Violation("wrong-data", "%s gives %s while the server hangs" % (x, a))
                if r.random() < 0.3: t0=time.time(); b.d.i("disconnect"); within(t0, "disconnect from a server that hangs", 2*TMO); gone=True
                else: gone=False
                if gone:
                    t0=time.time(); res=b.d.connect(); within(t0, "connecting to a server that hangs", 2*TMO)
                    if res == 0: raise Violation("false-success", "connecting to a server that hangs succeeds")
            finally: os.kill(b.srv.p.pid, signal.SIGCONT)
            if gone: time.sleep(0.1); b.renew(); group(b)
            for _ in range(3):
                x=r.choice(["read", "byname", "byindex", "map_get", "ovr_get", "grp_read", "map_add"])
                if r.random() < 0.3: time.sleep(0.1)
                cmd, truth=ops[x](); a=b.d.cmd(*cmd)
                if a[0] != "0" or not same(b, x, a, truth()): raise Violation("wrong-data" if a[0] == "0" else "later-call", "after %d calls to a server that hung (%s): %s gives %s, right is %s" % (m, q, x, a, truth()))
            c.case(("hang", m, gone, tcp)); c.count("hangs", m)
        # a data type and a tag that will be something else at the next server
        nm="ty%d" % r.randrange(10); ms=[(r.choice([INT, DINT, LINT]), r.randrange(1, 9)), (r.choice([BYTE, REAL]), r.randrange(1, 9))]; alt=[(LREAL, r.randrange(3, 9))]+ms; r.shuffle(alt)
        txt=lambda n, m: n+"".join(":m%d,%s,%d" % (k, NAMES[t], ct) for k, (t, ct) in enumerate(m)); size=lambda m: sum(tsize(t)*ct for t, ct in m)
        ty=b.raw.cdt(txt(nm, ms))[1]; b.raw.tag_add("changing", ty, 3); i0=int(b.d.cmd("byname", hx("changing"))[1])
        if b.d.i("typesize", ty) != size(ms) or b.d.cmd("s2t", hx(nm)) != [str(ty)]: raise Violation("wrong-data", "a data type of %d bytes has the size %s" % (size(ms), b.d.cmd("typesize", ty)))
        b.d.i("disc0"); b.srv.kill9(); t0=time.time(); a=b.d.cmd("read", b.probe, 0, 8); within(t0, "a call to a server that was killed")
        if a[0] == "0": raise Violation("false-success", "a call to a server that was killed succeeds")
        while b.d.i("disc") == 0: within(t0, "the disconnect callback"); time.sleep(0.01)
        t0=time.time(); res=b.d.connect(); within(t0, "connecting to a server that was killed")
        if res == 0: raise Violation("false-success", "connecting to a server that was killed succeeds")
        b.srv.start(); b.raw=Raw(b.srv, "truth"); b.probe=b.raw.tag_add("probe", LINT, 1); b.renew()
        if b.prove("new server"): raise Violation("later-call", "calls fail with the new server")
        ty2=b.raw.cdt(txt("other", alt))[1]; b.raw.tag_add("between", INT, 1); i1=b.raw.tag_add("changing", ty2, 2)
        for _ in range(2):
            for cmd, want in r.sample([(("typesize", ty2), [str(size(alt))]), (("t2s", ty2), [hx("other")]), (("s2t", hx("other")), [str(ty2)]), (("s2t", hx(nm)), ["0"]), (("byname", hx("changing")), ["0", str(i1), str(ty2), "2", "0", hx("changing")]), (("handle", hx("changing"), 0), ["0", H(i1, 0, 0, 2, 2*size(alt), ty2).s()]), (("cdt_count", ty2), [str(len(alt))])], 7):
                a=b.d.cmd(*cmd)
                if a != want: raise Violation("wrong-data", "connected to another server: %s gives %s instead of %s" % (cmd, a, want))
        c.count("server changes")
    finally: b.close()
# ------------------------------------------------------------------ any bytes at all
CDTS=["x", "", ":", "x:", "x:a", "x:a,", "x:a,INT", "x:a,INT,", "x:a,INT,0", "x:a,INT,-1", "x:a,INT,99999999999", "x:a,INT,2147483647:b,LREAL,2147483647", "x:a,NOTYPE,1", "x:a,%s,1", "%s:a,%s,1", "%s:a,%s,1:b,INT,1", "x:a,BOOL,4294967295", ",,,,::::", "x:a,INT,1:"*200, "a"*3000, "x:"+"b"*3000+",INT,1", "x:a,"+"T"*3000+",1", "x:a,INT,"+"9"*3000, "x:,INT,1", "x:a,INT,1:a,INT,1", ":a,INT,1"]
def anything(c, bdir, exe, tcp, n):
    r=c.rng; b=Bed(c, bdir, exe, tcp)
    try:
        ops=operations(b)
        for k in range(n):
            if k % 12 == 0:
                if k: b.d.i("disconnect"); b.d.i("free"); b.d.cmd("init", "again", "-C", os.path.join(c.base, "empty.conf"), "-K", c.base, *(("-S", "127.0.0.1", "-I", "127.0.0.1", "-P", b.px.port) if tcp else ("-U", b.px.sock)), "-O", "500", "-Z", "1"); b.renew()
                group(b)
            nm=r.choice(list(ops)+["typesize", "nested", "member", "s2t", "t2s"]*3); cmd, truth=ops[nm](); x=r.randrange(5)
            if x < 3: f=[f_garbage(r, r.randrange(4)) for _ in range(r.choice([1, 1, 3]))]
            else:
                def cd(s, a, b_, t, p):
                    if t & 0xFF != CDT_GET: a.sendall(frame(t, p)); return
                    nm_=p[4:].split(b"\0")[0].split(b":")[0].decode("latin1"); txt=r.choice(CDTS); a.sendall(frame(t, p[:4]+txt.replace("%s", nm_).encode("latin1")[:4080]+r.choice([b"\0", b""])))
                f=[cd]*r.choice([1, 2, 8])
            with b.px.lock: b.px.reply=list(f)
            t0=time.time(); a=b.d.cmd(*cmd); within(t0, nm, 6*TMO)
            with b.px.lock: b.px.reply=[]
            if a[0] == "0" and nm in ("member", "handle"):
                # what was made of it can be used
                b.d.cmd("fqn", a[1])
            if nm in ("typesize", "nested", "t2s"): b.d.cmd("cdt_iter", cmd[1]); b.d.cmd("cdt_count", cmd[1]); b.d.cmd("fqn", H(b.probe, 3, 1, 1, 1, cmd[1]).s())
            res=b.prove("%s with any answer" % nm)
            if res: raise Violation("later-call", "%s with any answer: a call afterwards fails with %d" % (nm, res))
            c.case(("any", nm, x < 3, a[0][:3], tcp)); c.count("random_replies", len(f))
    finally: b.close()

def body(c):
    bdir=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    for i in range(c.n(2, 8)):
        tcp=i % 2 == 1
        c.run("single %s" % tcp, single, c, bdir, exe, tcp, c.n(90, 600))
        c.run("registration %s" % tcp, registration, c, bdir, exe, tcp, c.n(20, 100))
        c.run("events %s" % tcp, events, c, bdir, exe, tcp, c.n(80, 500))
        c.run("hanging %s" % tcp, hanging, c, bdir, exe, tcp, c.n(6, 40))
        c.run("anything %s" % tcp, anything, c, bdir, exe, tcp, c.n(400, 3000))
core.main("P19", "one case per (operation, fault, result); every call timed, compared with the server's own state over a second connection and followed by a probe of a known value", body)
