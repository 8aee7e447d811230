import sys, os, struct, time, threading, socket, select, tty, collections; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
from vf.proto import *
from vf.modbus import *

TIMEOUT=0.5; RETRIES=2       # of the ports, unless a workload says otherwise
READS=(1, 2, 3, 4)

# ------------------------------------------------------------------ the scripted slave
class Mem:
    """what a slave unit holds: 65536 of everything, made up on demand"""
    def __init__(m, rng): m.rng=rng; m.v={}
    def get(m, k, a, n, bits):
        d=m.v.setdefault(k, {})
        for i in range(a, a+n):
            if i not in d: d[i]=m.rng.randrange(2) if bits else m.rng.choice([0, 1, 0xFF, 0xFF00, 0xFFFF, m.rng.randrange(65536)])
        return [d[i] for i in range(a, a+n)]
    def fresh(m, k, a, n, bits):
        d=m.v.setdefault(k, {})
        for i in range(a, a+n): d[i]=m.rng.randrange(2) if bits else m.rng.randrange(65536)

class Brain:
    """judges requests, keeps the log and decides on the replies"""
    def __init__(b, rng): b.rng=rng; b.mem=collections.defaultdict(lambda: Mem(rng)); b.log=[]; b.lock=threading.RLock(); b.plan=collections.deque(); b.bad=[]; b.default="good"; b.hook=None
    def reply(b, where, unit, pdu):
        """the right reply; malformed requests are noted"""
        fc=pdu[0]
        def wrong(why): b.bad.append("%s: request unit %d %s" % (why, unit, pdu[:60].hex()))
        if fc not in (1, 2, 3, 4, 5, 6, 15, 16): wrong("unknown function"); return bytes([fc | 0x80, 1])
        if len(pdu) < 5: wrong("short"); return bytes([fc | 0x80, 3])
        a, n=struct.unpack(">HH", pdu[1:5]); m=b.mem[(where, unit)]
        if fc in READS:
            if len(pdu) != 5: wrong("wrong length")
            if n < 1 or n > (2000 if fc < 3 else 125): wrong("count"); return bytes([fc | 0x80, 3])
            if fc < 3: d=pack(m.get(fc, a, n, True))
            else: d=u16(*m.get(fc, a, n, False))
            return bytes([fc, len(d)])+d
        if fc == 5:
            if len(pdu) != 5 or n not in (0, 0xFF00): wrong("coil value")
            m.v.setdefault(1, {})[a]=1 if n else 0; return pdu[:5]
        if fc == 6:
            if len(pdu) != 5: wrong("wrong length")
            m.v.setdefault(3, {})[a]=n; return pdu[:5]
        need=(n+7)//8 if fc == 15 else 2*n
        if n < 1 or n > (1968 if fc == 15 else 123) or len(pdu) != 6+need or pdu[5] != need: wrong("multiple write"); return bytes([fc | 0x80, 3])
        if fc == 15 and n % 8 and pdu[-1] >> (n % 8): wrong("unused bits are set")
        v=unpack(pdu[6:], n) if fc == 15 else struct.unpack(">%dH" % n, pdu[6:])
        for i, x in enumerate(v): m.v.setdefault(1 if fc == 15 else 3, {})[a+i]=x
        return pdu[:5]
    def note(b, where, conn, unit, pdu):
        with b.lock:
            if b.hook: b.hook(where, unit, pdu)
            act=b.plan.popleft() if b.plan else b.default
            good=b.reply(where, unit, pdu); b.log.append((time.time(), where, conn, unit, bytes(pdu), act)); return act, good

def damage(rng, act, unit, good, pdu):
    """a reply that must not be taken; (unit, pdu)"""
    fc=good[0]
    if act == "exception": return unit, bytes([pdu[0] | 0x80, rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 11])])
    if act == "exc0": return unit, bytes([pdu[0] | 0x80, 0])
    if act == "excother": return unit, bytes([rng.choice([x for x in (1, 2, 3, 4, 5, 6, 15, 16) if x != fc]) | 0x80, 2])
    if act == "unit": return (unit+rng.choice([1, 2, 100]))%247+1 if unit != 247 else 1, good
    if act == "function":
        o={1: 2, 2: 1, 3: 4, 4: 3, 5: 6, 6: 5, 15: 16, 16: 15}[fc]; return unit, bytes([rng.choice([o, o, 0, 0x7F])])+good[1:]
    if act == "short":
        if len(good) > 6 and rng.random() < 0.5: return unit, good[:-rng.choice([1, 2])]
        return unit, good[:rng.randrange(1, len(good))]
    if act == "count":
        if fc in READS:
            n=rng.choice([0, good[1]-1, good[1]-2, good[1]+1, good[1]+2, 255])&0xFF
            if n == good[1]: n=(n+1)&0xFF
            d=(good[2:]+bytes(rng.randrange(256) for _ in range(255)))[:n]
            return unit, bytes([fc, n])+d[:250]
        return unit, good[:3]+u16((struct.unpack(">H", good[3:5])[0]+1)&0xFFFF) if fc in (15, 16) else bytes([fc | 0x80, 4])
    if act == "address": return (unit, good[:1]+u16((struct.unpack(">H", good[1:3])[0]+rng.choice([1, 255, 256]))&0xFFFF)+good[3:]) if fc not in READS else (unit, bytes([fc | 0x80, 2]))
    raise AssertionError(act)
DAMAGE=["exception", "exc0", "excother", "unit", "function", "short", "count", "address"]      # a reply comes, the request is over
STALL=["silent", "halfclose", "close", "badproto", "hugelen", "tinylen"]                       # no reply, the request may be repeated
GOODS=["good", "good", "split", "stale", "slow"]

class TCPSlave:
    def __init__(s, brain, port=None):
        s.b=brain; s.port=port or core.free_port(); s.conns=[]; s.n=0; s.up()
    def up(s):
        s.l=socket.socket(); s.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.l.bind(("127.0.0.1", s.port)); s.l.listen(64); s.run=True
        s.t=threading.Thread(target=s.accept, args=(s.l,), daemon=True); s.t.start()
    def accept(s, l):
        while True:
            try: k, _=l.accept()
            except OSError: return
            k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); s.n+=1; s.conns.append(k)
            threading.Thread(target=s.serve, args=(k, s.n), daemon=True).start()
    def down(s):
        s.run=False
        try: s.l.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        s.l.close()
        for k in s.conns:
            try: k.shutdown(socket.SHUT_RDWR)
            except OSError: pass
    def serve(s, k, conn):
        buf=b""; rng=s.b.rng; old=None
        try:
            while True:
                while len(buf) < 6 or len(buf) < 6+struct.unpack(">H", buf[4:6])[0]:
                    d=k.recv(65536)
                    if d == b"": return
                    buf+=d
                tid, prot, n, unit=struct.unpack(">HHHB", buf[:7]); pdu=buf[7:6+n]; buf=buf[6+n:]
                if prot != 0 or n < 2 or n > 254: s.b.bad.append("bad header tid %d protocol %d length %d" % (tid, prot, n)); return
                if buf: s.b.bad.append("something follows the request: %s" % buf[:40].hex())
                act, good=s.b.note(s.port, conn, unit, pdu)
                def f(tid, unit, pdu): return struct.pack(">HHHB", tid, 0, len(pdu)+1, unit)+pdu
                def lie(): return bytes([good[0]])+(bytes([good[1]])+bytes(x ^ 0x5A for x in good[2:]) if good[0] in READS else good[1:])
                g=f(tid, unit, good)
                if act == "good": k.sendall(g)
                elif act == "split":
                    i=0
                    while i < len(g):
                        j=i+rng.choice([1, 2, 3, 6, 7, 50]); k.sendall(g[i:j]); i=j; time.sleep(0.001 if i < 20 else 0)
                elif act == "stale": k.sendall(b"".join(f((tid-d) & 0xFFFF, unit, lie()) for d in rng.sample([1, 2, 3, 256, 0x8000], rng.choice([1, 2, 3])))+g)
                elif act == "slow": time.sleep(TIMEOUT*0.3); k.sendall(g)
                elif act == "silent": old=f(tid, unit, lie())
                elif act == "late":     # answers what was asked before, and then this
                    if old: k.sendall(old)
                    k.sendall(g)
                elif act == "close": return
                elif act == "halfclose": k.sendall(g[:rng.randrange(1, len(g))]); return
                elif act == "badproto": k.sendall(struct.pack(">HHHB", tid, rng.choice([1, 256, 65535]), len(good)+1, unit)+good)
                elif act == "hugelen": k.sendall(struct.pack(">HHHB", tid, 0, rng.choice([255, 256, 300, 1000, 65535]), unit)+good+bytes(rng.choice([0, 300])))
                elif act == "tinylen": k.sendall(struct.pack(">HHHB", tid, 0, rng.choice([0, 1]), unit)+good)
                else: u, p=damage(rng, act, unit, good, pdu); k.sendall(f(tid, u, p))
        except OSError: pass
        finally:
            k.close()
            try: s.conns.remove(k)
            except ValueError: pass

class RTUSlave:
    def __init__(s, brain, fd): s.b=brain; s.fd=fd; s.run=True; s.port="rtu"; s.t=threading.Thread(target=s.serve, daemon=True); s.t.start()
    def down(s): s.run=False
    def serve(s):
        buf=b""; rng=s.b.rng; mem=None
        while s.run:
            r, _, _=select.select([s.fd], [], [], 0.03 if buf else 0.2)
            if r:
                try: buf+=os.read(s.fd, 4096)
                except OSError: return
                if not (len(buf) >= 8 and crc16(buf[:-2]) == buf[-2:]): continue
            if not buf: continue
            if len(buf) < 4 or crc16(buf[:-2]) != buf[-2:]: s.b.bad.append("a frame with a bad CRC: %s" % buf[:60].hex()); buf=b""; continue
            unit=buf[0]; pdu=buf[1:-2]; buf=b""
            act, good=s.b.note("rtu", 1, unit, pdu)
            def f(unit, pdu): x=bytes([unit])+pdu; return x+crc16(x)
            g=f(unit, good)
            if act in ("good", "split", "stale", "slow", "late"): out=g
            elif act == "silent": continue
            elif act in ("close", "halfclose"): out=g[:-1]
            elif act == "badproto": out=g[:-2]+bytes(x ^ rng.randrange(1, 256) for x in g[-2:])
            elif act == "hugelen": out=bytes(rng.randrange(256) for _ in range(rng.choice([256, 1023, 1024, 1025, 3000])))
            elif act == "tinylen": out=bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3])))
            else: out=f(*damage(rng, act, unit, good, pdu))
            if out is not g and act in STALL and len(out) > 2 and crc16(out[:-2]) == out[-2:]: continue
            try: os.write(s.fd, out)
            except OSError: return

# ------------------------------------------------------------------ commands and their data
class Cmd:
    """one configured command; knows its tag, the part of it that is exchanged and what goes over the line"""
    def valid(k): return 1 <= k.node <= 247 and k.fc in (1, 2, 3, 4, 5, 6, 15, 16) and 0 <= k.reg <= 65535 and (k.fc in (5, 6) or 1 <= k.len <= {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}[k.fc])
    def size(k): return {5: 1, 6: 2}.get(k.fc) or ((k.len+7)//8 if k.fc in (1, 2, 15) else 2*k.len)
    def part(k, raw):
        """the exchanged part of the tag as bytes"""
        if k.isbool: return pack(unpack(raw, len(raw)*8)[k.bit0:k.bit0+k.nbits])
        return raw[k.off:k.off+k.nbytes]
    def pdu(k, raw):
        h=bytes([k.fc])+u16(k.reg)
        if k.fc in READS: return h+u16(k.len)
        d=(k.part(raw)+bytes(300))[:k.size()]
        if k.isbool and k.fc == 15: d=pack(unpack(d, len(d)*8)[:k.len])
        if k.fc == 5: return h+u16(0xFF00 if d[0] & (1 if k.isbool else 0xFF) else 0)
        if k.fc == 6: return h+u16(*struct.unpack("<H", d))
        if k.fc == 15: return h+u16(k.len)+bytes([len(d)])+pack(unpack(d, k.len))
        return h+u16(k.len)+bytes([len(d)])+u16(*struct.unpack("<%dH" % k.len, d))
    def apply(k, raw, good):
        """the tag after the good reply"""
        d=good[2:]
        if k.fc in (3, 4): d=struct.pack("<%dH" % k.len, *struct.unpack(">%dH" % k.len, d))
        if k.isbool:
            v=unpack(raw, len(raw)*8); n=min(k.nbits, k.len if k.fc < 3 else 16*k.len); v[k.bit0:k.bit0+n]=unpack(d, len(d)*8)[:n]; return pack(v)
        n=min(k.nbytes, len(d)); return raw[:k.off]+d[:n]+raw[k.off+n:]

def gen_cmd(rng, i, fc=None):
    k=Cmd(); k.i=i; k.fc=fc or rng.choice([1, 2, 3, 4, 5, 6, 15, 16]); k.node=rng.choice([1, 2, 17, 247, rng.randrange(1, 248)])
    lim={1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}.get(k.fc, 1)
    k.len=min(lim, rng.choice([1, 2, 3, 7, 8, 9, 16, 17, lim, lim-1, rng.randrange(1, lim+1), rng.randrange(1, lim+1)])); k.reg=rng.choice([0, 1, 255, 256, 65536-k.len, rng.randrange(65536-k.len+1)]) if lim > 1 else rng.choice([0, 255, 65535, rng.randrange(65536)])
    bits=k.len if k.fc in (1, 2, 15) else 1 if k.fc == 5 else 16*k.len if lim > 1 else 16
    fit=rng.choice(["same", "same", "same", "small", "big"]); name="d%d" % i
    x=rng.random(); first=rng.choice([0, 0, 1, 5, 8, 11]); extra=rng.choice([0, 1, 7, 20])
    k.name=name
    if x < (0.6 if k.fc in (1, 2, 5, 15) else 0.15):        # an array of BOOL
        n={"same": bits, "small": max(1, bits-rng.choice([1, 3, 8])), "big": bits+rng.choice([1, 3, 8, 100])}[fit]
        k.isbool=True; k.bit0=first; k.nbits=n; k.type=BOOL; k.tcount=first+n+extra; k.expr=name if first == 0 else "%s[%d]" % (name, first); k.count=n
        k.raw=(k.tcount+7)//8
        if n == k.tcount and first == 0 and rng.random() < 0.3: k.expr=name
    elif x < 0.67:          # bits of a word
        t=rng.choice([UINT, WORD, DWORD, LWORD, BYTE]); w=8*tsize(t); b=rng.randrange(w); n=min(w-b, max(1, {"same": bits, "small": bits-1, "big": bits+3}[fit])); el=rng.choice([0, 1])
        k.isbool=True; k.bit0=el*w+b; k.nbits=n; k.type=t; k.tcount=3; k.expr="%s[%d].%d" % (name, el, b); k.count=n; k.raw=3*tsize(t)
    elif x < 0.74:          # a custom type
        k.isbool=False; k.type="p26t"; k.tcount=2; k.raw=24+24
        j=rng.randrange(4); k.expr, k.off, k.nbytes, k.count=[(name, 0, 48, 2), (name+"[1]", 24, 24, 1), (name+"[0].a", 0, 12, 6), (name+"[1].b", 36, 12, 3)][j]
    else:
        t=rng.choice([UINT, UINT, UINT, WORD, INT, BYTE, SINT, DINT, UDINT, REAL, LREAL, LINT, DWORD]); w=tsize(t); nb=(bits+7)//8; f={"same": max(1, nb//w), "small": max(1, nb//w-rng.choice([1, 2])), "big": nb//w+rng.choice([1, 2, 30])}[fit]
        k.isbool=False; k.type=t; k.off=first*w; k.count=f; k.nbytes=f*w; k.tcount=first+f+extra; k.expr=name if first == 0 else "%s[%d]" % (name, first); k.raw=k.tcount*w
    if k.raw > 4000: return gen_cmd(rng, i, fc)
    return k

def invalid(rng, k):
    w=rng.randrange(6)
    if w == 0: k.node=rng.choice([0, 248, 255, 256, 257, 65537, -1])
    elif w == 1: k.fc=rng.choice([0, 7, 8, 17, 22, 23, 255, 257, 259, -1])
    elif w == 2: k.fc=rng.choice([1, 2]); k.len=rng.choice([0, 2001, 65536, 65537, -1])
    elif w == 3: k.fc=rng.choice([3, 4]); k.len=rng.choice([0, 126, 65537, -1])
    elif w == 4: k.fc, k.len=rng.choice([(15, 0), (15, 1969), (15, 2000), (16, 0), (16, 124), (16, 125), (16, 65537)])
    else: k.reg=rng.choice([-1, 65536, 65537])
    k.bogus=True; return k

def cmd_conf(var, k, mode, ip, port, extra=""):
    return 'add_command(%s, {enable=true, mode="%s", ipaddress="%s", port=%s, node=%d, fcode=%d, register=%d, length=%d, tagname="%s", tagcount=%d%s})\n' % (var, mode, ip, port or 0, k.node, k.fc, k.reg, k.len, k.expr, k.count, extra)
def client_conf(var, name, extra="", scan=20, timeout=TIMEOUT, retries=RETRIES, persist=True):
    return '%s = add_port({name="%s", enable=true, socket="TCP", type="CLIENT", protocol="TCP", scanrate=%d, timeout=%d, frame=30, retries=%d, persist=%s%s})\n' % (var, name, scan, timeout*1000, retries, "true" if persist else "false", extra)

class Bed:
    def __init__(b, c, bdir, name, conf, cmds=(), pre=None):
        b.c=c; b.rng=c.rng; SER[0]+=1; name="%s%d" % (name, SER[0]); b.mod=None
        b.srv=core.Server(bdir, c.base, name+"s").start(); b.raw=Raw(b.srv, "obs")
        b.cdt=b.raw.cdt("p26t:a,UINT,6:b,DINT,3")
        b.cdt=b.cdt[1] if isinstance(b.cdt, tuple) else b.cdt
        b.tags={}
        for k in cmds: b.tag(k)
        if pre: pre(b)
        b.mod=Module(bdir, c.base, name+"m", b.srv, conf)
    def tag(b, k):
        t=b.cdt if k.type == "p26t" else k.type
        k.idx=b.raw.tag_add(k.name, t, k.tcount)
        if k.idx < 0: raise Violation("harness", "cannot add %s: %d" % (k.name, k.idx))
        k.model=bytes(k.raw)
    def get(b, k):
        r, d=b.raw.read(k.idx, 0, k.raw)
        if r: raise Violation("tagread", "tag %s cannot be read: %d" % (k.name, r))
        return d
    def put(b, k, d):
        if k.type == BOOL and k.tcount % 8: d=d[:-1]+bytes([d[-1] & ((1 << (k.tcount % 8))-1)])
        if b.raw.write(k.idx, 0, d): raise Violation("tagwrite", "tag %s cannot be written" % k.name)
        k.model=d
    def fill(b, k): b.put(k, bytes(b.rng.getrandbits(8) for _ in range(k.raw)) if b.rng.random() < 0.8 else bytes(b.rng.choice([[0]*k.raw, [255]*k.raw])))
    def compare(b, k, why):
        d=b.get(k)
        if d != k.model:
            i=next(i for i in range(len(d)) if d[i] != k.model[i])
            raise Violation("tag-content:fc%d" % k.fc, "%s: tag %s (command fc %d length %d on %s count %d) byte %d is 0x%02x, should be 0x%02x" % (why, k.name, k.fc, k.len, k.expr, k.count, i, d[i], k.model[i]))
        b.c.count("tag_compares")
    def check(b):
        b.srv.check()
        if b.mod: b.mod.check()
    def wait(b, f, secs, why, key="noanswer"):
        t0=time.time()
        while True:
            r=f()
            if r: return r
            b.check()
            if time.time()-t0 > secs: raise Violation(key, why() if callable(why) else why)
            time.sleep(0.002)
    def stop(b):
        if b.mod: b.mod.kill9()
        b.srv.kill9()

def brain_ok(br):
    if br.bad: raise Violation("request-form", br.bad[0])

# ------------------------------------------------------------------ one command at a time, good and bad replies
def triggered(c, bdir, rtu, ncmds, nsteps):
    rng=c.rng; br=Brain(rng); fds=()
    cmds=[invalid(rng, gen_cmd(rng, i)) if rng.random() < 0.08 else gen_cmd(rng, i, [1, 2, 3, 4, 5, 6, 15, 16][i] if i < 8 else None) for i in range(ncmds)]
    if rtu:
        m, sl=os.openpty(); tty.setraw(m); tty.setraw(sl); fds=(m, sl); slaves=[RTUSlave(br, m)]
        conf='p0=add_port({name="P0", enable=true, device="%s", type="MASTER", protocol="RTU", baudrate=115200, databits=8, stopbits=1, parity="NONE", scanrate=20, timeout=%d, frame=5, retries=%d, persist=true})\n' % (os.ttyname(sl), TIMEOUT*1000, RETRIES)
    else:
        slaves=[TCPSlave(br), TCPSlave(br)]; conf=client_conf("p0", "P0", persist=rng.random() < 0.6)
    for k in cmds:
        k.slave=rng.choice(slaves); conf+=cmd_conf("p0", k, "TRIGGER", "127.0.0.1", 0 if rtu else k.slave.port, ', trigger="trig[%d]"' % k.i)
    def pre(b): b.trig=b.raw.tag_add("trig", BOOL, ncmds)
    b=Bed(c, bdir, "t", conf, cmds, pre)
    try:
        def settrig(i): o=i//8; mk=bytes([1 << (i % 8)]); return b.raw.mask(b.trig, o, mk, mk)
        def clrtrig(i): o=i//8; mk=bytes([1 << (i % 8)]); return b.raw.mask(b.trig, o, bytes(1), mk)
        def trig(i): r, d=b.raw.read(b.trig, i//8, 1); return d[0] >> (i % 8) & 1
        # the events are there when a trigger is taken back
        t0=time.time(); w=next(k for k in cmds if not hasattr(k, "bogus"))
        while True:
            settrig(w.i); t1=time.time()
            while time.time()-t1 < 1 and trig(w.i): time.sleep(0.005)
            if not trig(w.i): break
            clrtrig(w.i); b.check()
            if time.time()-t0 > 30: raise Violation("notrigger", "the trigger of a command is never taken")
        time.sleep(0.1)
        if w.fc in READS: w.model=b.get(w)
        used=set()
        for step in range(nsteps):
            k=rng.choice(cmds) if step >= len(cmds) else cmds[step]; used.add(k.i)
            b.fill(k); bogus=hasattr(k, "bogus")
            if not bogus and k.fc in READS: br.mem[(k.slave.port, k.node)].fresh(k.fc, k.reg, k.len, k.fc < 3) if rng.random() < 0.8 and k.reg+k.len <= 65536 else None
            plan=[]; x=rng.random()
            if not bogus:
                if x < 0.45: plan=[rng.choice(GOODS)]
                elif x < 0.8: plan=[rng.choice(DAMAGE)]
                else:
                    n=rng.choice([1, 1, RETRIES, RETRIES+1]); plan=[rng.choice(STALL if rng.random() < 0.7 else STALL[1:]) for _ in range(n)]
                    if n <= RETRIES: plan.append(rng.choice(GOODS+DAMAGE+(["late"]*3 if plan[-1] == "silent" else [])))
            with br.lock: br.plan.clear(); br.plan.extend(plan); n0=len(br.log)
            settrig(k.i)
            b.wait(lambda: not trig(k.i), 20, lambda: "the trigger of command %d (fc %d) was not taken back, plan %s" % (k.i, k.fc, plan), "trigger-stuck")
            with br.lock: log=br.log[n0:]; left=len(br.plan); br.plan.clear()
            what="command fc %d node %d register %d length %d on %s count %d, replies %s" % (k.fc, k.node, k.reg, k.len, k.expr, k.count, plan)
            if bogus:
                if log: raise Violation("invalid-sent", "a command that cannot be sent (%s) was sent as %s" % (what, log[0][4][:20].hex()))
                b.compare(k, what); c.count("invalid_triggers"); c.case(("invalid", k.fc, k.len)); continue
            brain_ok(br); want=k.pdu(k.model)
            if not log: raise Violation("not-sent", what+": nothing was sent")
            for (_, where, _, unit, pdu, act) in log:
                if where != k.slave.port or unit != k.node or pdu != want:
                    raise Violation("request:fc%d" % k.fc, "%s: sent to %s unit %d %s, should be unit %d %s" % (what, where, unit, pdu[:60].hex(), k.node, want[:60].hex()))
            acts=[a[5] for a in log]
            if len(acts) > RETRIES+1: raise Violation("retries", "%s: sent %d times with %d retries" % (what, len(acts), RETRIES))
            if acts != plan[:len(acts)]:        # the master gave up on a good reply: only a slow machine does that
                c.count("repeated"); k.model=b.get(k); continue
            last=acts[-1]; applied=last in GOODS or last == "late"
            if last in STALL and len(acts) < RETRIES+1: raise Violation("retries", "%s: given up after %d of %d attempts" % (what, len(acts), RETRIES+1))
            if last not in STALL and left: raise Violation("retries", "%s: %d attempts" % (what, len(acts)))
            if applied and k.fc in READS: k.model=k.apply(k.model, br.reply(k.slave.port, k.node, want))
            b.compare(k, what)
            if rng.random() < 0.1:
                for j in cmds:
                    if j.i in used: b.compare(j, "after another command")
            c.case((k.fc, tuple(plan), k.isbool, k.type if isinstance(k.type, str) else k.type), {"command": what, "request": want[:16].hex()} if rng.random() < 0.02 else None)
            c.count("commands"); c.count("requests", len(log)); c.count("applied" if applied else "refused")
            for a in acts: c.count("reply:"+a)
        time.sleep(0.05); br.plan.clear()
        for j in cmds:
            if j.i in used: b.compare(j, "at the end")
        if not rtu and b.mod.nfds() > 40: raise Violation("fd-leak", "the module has %d descriptors open" % b.mod.nfds())
        c.count("descriptors", b.mod.nfds()); b.check()
    finally:
        b.stop()
        for s in slaves: s.down()
        for f in fds: os.close(f)

# ------------------------------------------------------------------ scanning
def plain(rng, i, fc, ln, reg, node):
    """a command on a tag of its own size"""
    k=Cmd(); k.i=i; k.fc=fc; k.len=ln; k.reg=reg; k.node=node; k.name="d%d" % i; k.expr=k.name
    if fc in (1, 2, 15): k.isbool=True; k.bit0=0; k.nbits=ln; k.type=BOOL; k.tcount=ln; k.count=ln; k.raw=(ln+7)//8
    else: k.isbool=False; k.off=0; k.nbytes=2*ln; k.type=UINT; k.tcount=ln; k.count=ln; k.raw=2*ln
    return k

def scan(c, bdir, persist):
    """continuous commands on three ports: the requests come in the configured order at the configured intervals, blocks
    are never torn, a dead slave on one port does not concern the others, and disabled commands are left out"""
    rng=c.rng; br=Brain(rng); slaves=[TCPSlave(br), TCPSlave(br)]; dead=core.free_port()
    A=[]; conf=client_conf("p0", "A", scan=10, persist=persist)
    n=rng.randrange(6, 12); reg=0
    for i in range(n):
        fc=rng.choice([1, 3, 4, 3, 16, 15, 6]); ln=1 if fc == 6 else rng.choice([2, 16, 60, 120]); k=plain(rng, i, fc, ln, reg, 1+i); reg+=ln+3; k.iv=rng.choice([0, 1, 1, 2, 3, 5]); k.slave=slaves[0]; A.append(k)
        conf+=cmd_conf("p0", k, "CONTINUOUS", "127.0.0.1", slaves[0].port, ", interval=%d" % k.iv)
    B=plain(rng, 100, 3, 120, 0, 9); W=plain(rng, 101, 16, 120, 200, 9)
    conf+=client_conf("p1", "B", scan=5)+cmd_conf("p1", B, "CONTINUOUS", "127.0.0.1", slaves[1].port)+cmd_conf("p1", W, "CONTINUOUS", "127.0.0.1", slaves[1].port)
    D=plain(rng, 102, 3, 4, 0, 9); conf+=client_conf("p2", "C", scan=20, timeout=0.1)+cmd_conf("p2", D, "CONTINUOUS", "127.0.0.1", dead)
    E=plain(rng, 103, 3, 4, 0, 9); conf+=cmd_conf("p2", E, "CONTINUOUS", "127.0.0.1", slaves[1].port)
    count=[0]
    def hook(where, unit, pdu):     # the whole block changes with every request
        if where == slaves[1].port and pdu[0] == 3 and pdu[1:3] == b"\0\0" and pdu[3:5] == u16(120):
            count[0]+=1; br.mem[(where, unit)].v[3]={i: count[0] & 0xFFFF for i in range(120)}
    br.hook=hook
    b=Bed(c, bdir, "c", conf, A+[B, W, D, E])
    try:
        b.wait(lambda: b.raw.by_name("A_cmd_en")[0] == 0 and b.raw.by_name("B_cmd_en")[0] == 0, 30, "the enable tags do not appear")
        en=b.raw.by_name("A_cmd_en")[1]
        if en[1:3] != (BOOL, n): raise Violation("enable-tag", "the enable tag is %r, there are %d commands" % (en, n))
        if unpack(b.raw.read(en[0], 0, (n+7)//8)[1], n) != [1]*n: raise Violation("enable-tag", "not all commands are shown as enabled")
        t0=time.time(); v=0; last=0; seen=set()
        for k in A: b.fill(k)
        while time.time()-t0 < c.n(4, 20):
            v+=1; b.put(W, struct.pack("<120H", *[v & 0xFFFF]*120))
            x=struct.unpack("<120H", b.get(B)); c.count("block_reads")
            if len(set(x)) != 1: raise Violation("torn", "a block that the slave answers as a whole was seen with %d different values" % len(set(x)))
            if x[0] < last: raise Violation("backwards", "block value %d after %d" % (x[0], last))
            last=x[0]; seen.add(last); b.check(); brain_ok(br)
            time.sleep(0.001)
        with br.lock: log=list(br.log)
        if not last: raise Violation("no-data", "no data from the continuous command in %d s" % (time.time()-t0))
        c.count("block_values_seen", len(seen))
        # torn or stale write blocks
        w=[struct.unpack(">120H", l[4][6:]) for l in log if l[1] == slaves[1].port and l[4][0] == 16]
        for x, y in zip(w, w[1:]):
            if len(set(y)) != 1: raise Violation("torn-write", "a block written as a whole was sent with %d values" % len(set(y)))
            if y[0] < x[0]: raise Violation("write-backwards", "sent %d after %d" % (y[0], x[0]))
        if len(w) < 10: raise Violation("no-data", "only %d of the continuous writes were sent" % len(w))
        c.count("blocks_written", len(w))
        def want(a): return [k for s in [0] for k in a]
        # exact order
        seq=[(l[3], l[4]) for l in log if l[1] == slaves[0].port]; exp=schedule(A, len(seq))
        for i, ((u, p), k) in enumerate(zip(seq, exp)):
            if u != k.node or p[0] != k.fc or p[1:3] != u16(k.reg): raise Violation("schedule", "request %d is unit %d %s, the configuration calls for unit %d function %d register %d" % (i, u, p[:5].hex(), k.node, k.fc, k.reg))
        c.count("scheduled", len(seq)); c.case(("schedule", tuple((k.fc, k.iv) for k in A), persist))
        if len(seq) < 50: raise Violation("slow", "only %d requests in %d s at a scan rate of 10 ms" % (len(seq), time.time()-t0))
        for k in A:
            if k.fc in READS: k.model=k.apply(b.get(k), br.reply(k.slave.port, k.node, k.pdu(k.model)))
            b.compare(k, "after scanning")
        if not any(l[3] == 9 and l[4][3:5] == u16(4) for l in log): raise Violation("dead-slave", "a slave that is not there keeps another one on the same port from being asked")
        # disable some
        for rnd in range(c.n(3, 12)):
            off=set(i for i in range(n) if rng.random() < 0.4); b.raw.write(en[0], 0, pack([0 if i in off else 1 for i in range(n)]))
            if len(off) == n: off.discard(0); b.raw.write(en[0], 0, pack([0 if i in off else 1 for i in range(n)]))
            def window():
                with br.lock: l=[(x[3], x[4]) for x in br.log if x[1] == slaves[0].port]
                return l
            def settled():
                l=window()[mark[0]:]; hit=[j for j, (u, p) in enumerate(l) if u-1 in off]
                if hit: mark[0]+=hit[-1]+1; return False
                got=collections.Counter(u-1 for u, p in l)
                return all(got[i] >= 3 for i in range(n) if i not in off)
            mark=[len(window())]
            b.wait(settled, 20, lambda: "20 s after commands %s were disabled: %s" % (sorted(off), collections.Counter(u-1 for u, p in window()[mark[0]:])), "enable")
            c.count("enable_rounds"); c.case(("enable", len(off), n))
        b.raw.write(en[0], 0, pack([1]*n)); mark=[len(window())]; off=set(); b.wait(settled, 20, "commands that were enabled again are not sent", "enable")
        # the slave goes away and comes back
        slaves[0].down(); time.sleep(rng.choice([0.05, 0.5])); slaves[0].up(); mark=[len(window())]
        b.wait(settled, 20, "the commands do not resume after the slave was restarted", "resume"); c.count("slave_restarts")
        time.sleep(0.2)
        if len(slaves[1].conns) > 2 or len(slaves[0].conns) > 1: raise Violation("connections", "%d and %d connections to two slaves" % (len(slaves[0].conns), len(slaves[1].conns)))
        if b.mod.nfds() > 30: raise Violation("fd-leak", "the module has %d descriptors open" % b.mod.nfds())
        brain_ok(br); b.check()
    finally:
        b.stop()
        for s in slaves: s.down()

def schedule(cmds, n):
    out=[]; cnt={k.i: 0 for k in cmds}
    while len(out) < n:
        for k in cmds:
            cnt[k.i]+=1
            if cnt[k.i] >= k.iv: cnt[k.i]=0; out.append(k)
    return out

# ------------------------------------------------------------------ change and write events
def events(c, bdir):
    rng=c.rng; br=Brain(rng); sl=TCPSlave(br); conf=client_conf("p0", "E", persist=rng.random() < 0.5); cmds=[]
    for i, mode in enumerate(["CHANGE", "WRITE", "CHANGE", "WRITE", "CHANGE WRITE", "CHANGE"]):
        fc=[16, 15, 6, 5, 16, 15][i]; ln={5: 1, 6: 1}.get(fc) or rng.choice([1, 10, 100]); k=plain(rng, i, fc, ln, 300*i, 1+i); k.mode=mode
        if fc == 5: k.isbool=True; k.bit0=0; k.nbits=1; k.type=BOOL; k.raw=1
        cmds.append(k); conf+=cmd_conf("p0", k, mode, "127.0.0.1", sl.port)
    late=plain(rng, 9, 16, 5, 9000, 50); late.mode="CHANGE"; conf+=cmd_conf("p0", late, "CHANGE", "127.0.0.1", sl.port)      # its tag comes later
    b=Bed(c, bdir, "e", conf, cmds)
    def reqs(k, n0):
        with br.lock: return [l[4] for l in br.log[n0:] if l[3] == k.node]
    try:
        def newval(k):
            while True:
                d=bytes(rng.randrange(256) for _ in range(k.raw))
                if k.isbool and k.tcount % 8: d=d[:-1]+bytes([d[-1] & ((1 << (k.tcount % 8))-1)])
                if d != k.model: return d
        def fence(k):
            """the change event of k is delivered"""
            n0=len(br.log); b.put(k, newval(k)); w=k.pdu(k.model)
            b.wait(lambda: w in reqs(k, n0), 20, lambda: "a change of %s was not sent" % k.name, "change-lost")
        t0=time.time()
        for k in cmds:
            while True:
                n0=len(br.log); b.put(k, newval(k)); t1=time.time()
                while time.time()-t1 < 1 and not reqs(k, n0): time.sleep(0.005)
                if reqs(k, n0): break
                b.check()
                if time.time()-t0 > 30: raise Violation("noevent", "a change of %s is never sent" % k.name)
        b.tag(late)
        while True:
            n0=len(br.log); b.put(late, newval(late)); t1=time.time()
            while time.time()-t1 < 1 and not reqs(late, n0): time.sleep(0.005)
            if reqs(late, n0): break
            b.check()
            if time.time()-t0 > 40: raise Violation("noevent", "a command whose tag was created after the module started never works")
        cmds.append(late); time.sleep(0.1)
        for step in range(c.n(250, 1500)):
            k=rng.choice(cmds); how=rng.choice(["new", "new", "same", "burst"]); n0=len(br.log)
            if how == "new": b.put(k, newval(k)); vals=[k.model]
            elif how == "same": b.put(k, k.model); vals=[k.model]
            else:
                vals=[]
                for _ in range(rng.randrange(2, 7)): b.put(k, newval(k)); vals.append(k.model)
            w=[k.pdu(v) for v in vals]
            if how == "same" and "WRITE" not in k.mode:
                o=rng.choice([x for x in cmds if x is not k]); fence(o)
                if reqs(k, n0): raise Violation("spurious", "command %s on %s was sent though the tag did not change" % (k.mode, k.name))
            else:
                b.wait(lambda: (reqs(k, n0) or [None])[-1] == w[-1], 20, lambda: "%s %s: the last value of %d was not sent, only %s" % (how, k.name, len(vals), [x[:20].hex() for x in reqs(k, n0)][-3:]), "change-lost")
                o=rng.choice([x for x in cmds if x is not k]); fence(o)
                got=reqs(k, n0)
                if len(got) > len(vals): raise Violation("spurious", "%d requests for %d writes of %s" % (len(got), len(vals), k.name))
                if how == "burst":
                    j=0
                    for g in got:
                        while j < len(w) and w[j] != g: j+=1
                        if j == len(w): raise Violation("order", "%s: requests do not follow the order of the writes, or carry something that was never written" % k.name)
                elif got != w: raise Violation("event-request", "%s of %s: sent %s, should be %s" % (how, k.name, [x[:20].hex() for x in got], [x[:20].hex() for x in w]))
            brain_ok(br); c.count("event:"+how); c.case((how, k.fc, k.mode, len(vals)))
        for k in cmds: b.compare(k, "after the events")
        # the slave is away for a while: the first change after it is back is sent
        sl.down(); k=rng.choice(cmds); b.put(k, newval(k)); time.sleep(0.3); sl.up(); time.sleep(0.1)
        n0=len(br.log); b.put(k, newval(k)); w=k.pdu(k.model); b.wait(lambda: w in reqs(k, n0), 20, "after the slave was restarted a change was not sent", "resume")
        if b.mod.nfds() > 30: raise Violation("fd-leak", "the module has %d descriptors open" % b.mod.nfds())
        b.check()
    finally: b.stop(); sl.down()

# ------------------------------------------------------------------ commands through the command tag
def asynchronous(c, bdir):
    rng=c.rng; br=Brain(rng); slaves=[TCPSlave(br), TCPSlave(br)]; nobody=core.free_port()
    cont=plain(rng, 0, 3, 20, 0, 77); idle=plain(rng, 1, 3, 1, 0, 78)
    conf=client_conf("p0", "Y0", persist=rng.random() < 0.5)+cmd_conf("p0", cont, "CONTINUOUS", "127.0.0.1", slaves[0].port)+client_conf("p1", "Y1")+cmd_conf("p1", idle, "CONTINUOUS", "127.0.0.1", slaves[1].port, ", interval=1000")
    b=Bed(c, bdir, "y", conf, [cont, idle])
    try:
        tag=[]
        for nm in ("Y0_cmd", "Y1_cmd"):
            b.wait(lambda: b.raw.by_name(nm)[0] == 0, 30, "the command tag %s does not appear" % nm, "cmdtag"); tag.append(b.raw.by_name(nm)[1][0])
        time.sleep(0.3); N=15+240
        def img(node, fc, reg, ln, ip, port, data, send): return bytes([send])+struct.pack("<h", 0x7777)+bytes(int(x) for x in ip.split("."))+struct.pack("<HBBHH", port, node, fc, reg, ln)+data
        for step in range(c.n(250, 1500)):
            i=rng.randrange(2); sl=rng.choice(slaves); k=gen_cmd(rng, 0); node, fc, reg, ln=k.node, k.fc, k.reg, k.len; port=sl.port; ip="127.0.0.1"
            x=rng.random(); valid=True
            if x < 0.2:
                node, fc, ln=rng.choice([(0, fc, ln), (248, fc, ln), (255, fc, ln), (node, 0, ln), (node, 7, ln), (node, 200, ln), (node, 1, 0), (node, 1, 1921), (node, 2, 2001), (node, 3, 0), (node, 3, 121), (node, 4, 126), (node, 4, 65535), (node, 15, 1969), (node, 15, 0), (node, 16, 0), (node, 16, 121), (node, 16, 124)]); valid=False
            if valid and ln > {1: 1920, 2: 1920, 3: 120, 4: 120, 15: 1920, 16: 120}.get(fc, 65536): valid=False
            gone=valid and rng.random() < 0.03
            if gone: port=nobody
            data=bytes(rng.getrandbits(8) for _ in range(240)); plan=[]
            if valid and not gone:
                y=rng.random(); plan=[rng.choice(GOODS)] if y < 0.6 else [rng.choice(DAMAGE)] if y < 0.9 else ([rng.choice(STALL[1:])]*(RETRIES+1) if rng.random() < 0.5 else [rng.choice(STALL[1:]), "good"])
            q=Cmd(); q.fc=fc; q.len=ln; q.reg=reg; q.node=node; q.isbool=False; q.off=0; q.nbytes=240
            done=collections.deque(plan)
            def hook(where, unit, pdu):
                # the plan is for this command only, not for the one that is sent all the time
                br.plan.clear()
                if unit not in (77, 78) and done: br.plan.append(done.popleft())
            while node in (77, 78): node=rng.randrange(1, 248); q.node=node
            with br.lock: br.hook=hook; n0=len(br.log)
            if valid and fc in READS: br.mem[(port, node)].fresh(fc, reg, ln, fc < 3)
            b.raw.write(tag[i], 1, img(node, fc, reg, ln, ip, port, data, 0)[1:])
            b.raw.mask(tag[i], 0, b"\x01", b"\x01")
            what="command through Y%d_cmd: node %d function %d register %d length %d, replies %s" % (i, node, fc, reg, ln, plan)
            b.wait(lambda: not b.raw.read(tag[i], 0, 1)[1][0] & 1, 20, what+": the send bit stays set", "send-stuck")
            raw=b.raw.read(tag[i], 0, N)[1]; resp=struct.unpack("<h", raw[1:3])[0]
            with br.lock: log=[l for l in br.log[n0:] if l[3] not in (77, 78)]
            brain_ok(br)
            if raw[3:15] != img(node, fc, reg, ln, ip, port, data, 0)[3:15]: raise Violation("cmdtag", what+": the fields of the command tag changed")
            want=data
            if not valid or gone:
                if log: raise Violation("invalid-sent", what+": sent as %s" % log[0][4][:20].hex())
                ok=False
            else:
                w=q.pdu(data)
                if not log: raise Violation("not-sent", what+": nothing was sent, response %d" % resp)
                for l in log:
                    if l[1] != port or l[3] != node or l[4] != w: raise Violation("request:async", "%s: sent to %s unit %d %s, should be %s" % (what, l[1], l[3], l[4][:40].hex(), w[:40].hex()))
                acts=[l[5] for l in log]
                if acts != plan[:len(acts)]: c.count("repeated"); continue
                ok=acts[-1] in GOODS
                if ok and fc in READS: want=q.apply(data, br.reply(port, node, w))
            if raw[15:] != want: raise Violation("cmd-data", what+": the data area is %s.., should be %s.." % (raw[15:35].hex(), want[:20].hex()))
            if ok != (resp == 0): raise Violation("response", what+": response %d" % resp)
            c.count("async_good" if ok else "async_refused"); c.case(("async", fc, tuple(plan), valid), {"command": what, "response": resp} if rng.random() < 0.02 else None)
        br.hook=None
        cont.model=cont.apply(b.get(cont), br.reply(slaves[0].port, 77, cont.pdu(bytes(cont.raw)))); time.sleep(0.1); b.compare(cont, "the continuous command meanwhile")
        if b.mod.nfds() > 30: raise Violation("fd-leak", "the module has %d descriptors open" % b.mod.nfds())
        b.check()
    finally:
        b.stop()
        for s in slaves: s.down()

def body(c):
    bdir=core.build("asan", ["tagserver", "dax", "daxlog", "modbus_module"])
    for i in range(c.n(3, 12)): c.run("tcp %d" % i, triggered, c, bdir, False, c.n(40, 60), c.n(250, 800))
    for i in range(c.n(1, 4)): c.run("rtu %d" % i, triggered, c, bdir, True, c.n(30, 60), c.n(150, 600))
    for i in range(c.n(2, 6)): c.run("scan %d" % i, scan, c, bdir, i % 2 == 0)
    for i in range(c.n(1, 4)): c.run("events %d" % i, events, c, bdir)
    for i in range(c.n(1, 4)): c.run("async %d" % i, asynchronous, c, bdir)
core.main("P26", "one evaluation = one command sent through a trigger, a change, a write or the command tag with its scripted replies, or one schedule; distinct = function x reply plan x tag type; requests, tag contents, retries, order and responses are compared with an independent model", body)
