"""Fixture for the Modbus module: tag server + daxmodbus (both sanitized), raw masters, models of the register tables."""
import os, socket, struct, time, random, select, tty, termios, signal
from . import core
from .core import Violation, Died
from .proto import *

COIL, DISC, HOLD, INP = "COIL", "DISCRETE", "HOLDING", "INPUT"
RFC = {1: COIL, 2: DISC, 3: HOLD, 4: INP}
FCK = {1: COIL, 2: DISC, 3: HOLD, 4: INP, 5: COIL, 6: HOLD, 15: COIL, 16: HOLD}

def crc16(b):
    c = 0xFFFF
    for x in b:
        c ^= x
        for _ in range(8): c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return struct.pack("<H", c)

class Module:
    """a daxmodbus process of its own"""
    def __init__(m, bdir, base, name, srv, conf, wait=(), args=()):
        m.cwd = os.path.join(base, name); os.makedirs(m.cwd, exist_ok=True); m.srv = srv; m.bdir = bdir
        m.conf = os.path.join(m.cwd, "modbus.conf"); open(m.conf, "w").write(conf)
        m.log = os.path.join(m.cwd, "log"); m.args = list(args)
        m.p = core.spawn([os.path.join(bdir, "src/modules/modbus/daxmodbus"), "-C", m.conf, "-U", srv.sock] + m.args, m.cwd, m.log, stdout=open(os.devnull, "w"))
        t0 = time.time()
        for port in wait:
            while True:
                try: s = socket.socket(); s.connect(("127.0.0.1", port)); s.close(); break
                except OSError:
                    m.check()
                    if time.time() - t0 > 30: raise Died("modbus module does not listen", {"key": "nolisten", "text": open(m.log, errors="replace").read()[-2000:]})
                    time.sleep(0.01)
    def alive(m): return m.p.poll() is None
    def check(m):
        if not m.alive():
            r = core.san_report(m.log)
            raise Died("modbus module exited rc=%s %s" % (m.p.returncode, r["key"] if r else ""), r or {"key": "modbus-exit:%s" % m.p.returncode, "text": open(m.log, errors="replace").read()[-3000:]})
        return True
    def rss(m):
        for l in open("/proc/%d/status" % m.p.pid):
            if l.startswith("VmRSS"): return int(l.split()[1])
        return 0
    def nfds(m): return len(os.listdir("/proc/%d/fd" % m.p.pid))
    def kill9(m):
        if m.alive(): m.p.kill()
        m.p.wait()

class Master:
    """one TCP connection to a server port"""
    def __init__(s, mod, port, timeout=20):
        s.mod = mod; s.port = port; s.buf = b""; s.tid = random.randrange(65536); s.timeout = timeout
        s.s = socket.socket(); s.s.connect(("127.0.0.1", port)); s.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); s.s.settimeout(timeout)
    def dead(s, why):
        time.sleep(0.05)
        try: s.mod.p.wait(0.5)
        except Exception: pass
        s.mod.check(); s.mod.srv.check()
        raise Died("Modbus server stopped answering (%s)" % why, {"key": "mb-noanswer", "text": why})
    def frame(s, unit, pdu, tid=None):
        if tid is None: s.tid = (s.tid + 1) & 0xFFFF; tid = s.tid
        return struct.pack(">HHHB", tid, 0, len(pdu) + 1, unit) + pdu
    def send(s, b):
        try: s.s.sendall(b)
        except OSError as e: s.dead("send: %s" % e)
    def pop(s):
        if len(s.buf) < 7: return None
        tid, prot, n, unit = struct.unpack(">HHHB", s.buf[:7])
        if prot != 0 or n < 2 or n > 254: raise Violation("reply-header", "reply header %s" % s.buf[:20].hex())
        if len(s.buf) < 6 + n: return None
        r = (tid, unit, s.buf[7:6 + n]); s.buf = s.buf[6 + n:]; return r
    def recv(s, timeout=None):
        t0 = time.time(); t = s.timeout if timeout is None else timeout
        while True:
            r = s.pop()
            if r is not None: return r
            left = t - (time.time() - t0)
            if left <= 0: return None
            s.s.settimeout(left)
            try: d = s.s.recv(65536)
            except socket.timeout: return None
            except OSError as e: s.dead(str(e))
            if d == b"": s.dead("connection closed")
            s.buf += d
    def req(s, unit, pdu):
        s.send(s.frame(unit, pdu)); r = s.recv()
        if r is None: s.dead("no reply within %ss to unit %d %s" % (s.timeout, unit, pdu.hex()))
        if r[0] != s.tid or r[1] != unit: raise Violation("reply-ids", "request tid %d unit %d, reply tid %d unit %d" % (s.tid, unit, r[0], r[1]))
        return r[2]
    def rst(s):
        s.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.s.close()
    def close(s): s.s.close()

class Table:
    """what a register table should hold; bits are a list of 0/1, registers a list of integers"""
    def __init__(t, kind, tag, size): t.kind = kind; t.tag = tag; t.size = size; t.v = [0] * size; t.idx = None
    @property
    def bits(t): return t.kind in (COIL, DISC)
    def nbytes(t): return (t.size + 7) // 8 if t.bits else t.size * 2
    def raw(t):
        if t.bits: return pack(t.v)
        return struct.pack("<%dH" % t.size, *t.v)
    def from_raw(t, b):
        t.v = unpack(b, t.size) if t.bits else list(struct.unpack("<%dH" % t.size, b))

def pack(v):
    n = 0
    for i, x in enumerate(v):
        if x: n |= 1 << i
    return n.to_bytes((len(v) + 7) // 8, "little")
def unpack(b, n):
    x = int.from_bytes(b, "little"); return [(x >> i) & 1 for i in range(n)]

def u16(*a): return struct.pack(">%dH" % len(a), *a)

def expect(units, unit, pdu):
    """the reply PDU to a request PDU and the tables it changed; None when the request must be ignored.  units: {id: {kind: Table}}"""
    u = units.get(unit) if unit < 248 else None
    if u is None: u = units.get(0)
    if u is None: return None
    fc = pdu[0]
    def exc(n): return bytes([fc | 0x80, n])
    k = FCK.get(fc); t = u.get(k) if k else None
    if t is None: return exc(1)
    if len(pdu) < 5: return exc(3)
    a, n = struct.unpack(">HH", pdu[1:5])
    if fc <= 4:
        if n < 1 or n > (2000 if fc <= 2 else 125): return exc(3)
        if a + n > t.size: return exc(2)
        d = pack(t.v[a:a + n]) if fc <= 2 else u16(*t.v[a:a + n])
        return bytes([fc, len(d)]) + d
    if fc == 5:
        if n not in (0, 0xFF00): return exc(3)
        if a >= t.size: return exc(2)
        t.v[a] = 1 if n else 0; return pdu[:5]
    if fc == 6:
        if a >= t.size: return exc(2)
        t.v[a] = n; return pdu[:5]
    if n < 1 or n > (1968 if fc == 15 else 123): return exc(3)
    if a + n > t.size: return exc(2)
    need = (n + 7) // 8 if fc == 15 else n * 2
    if len(pdu) < 6 or pdu[5] != need or len(pdu) < 6 + need: return exc(3)
    d = pdu[6:6 + need]
    t.v[a:a + n] = unpack(d, n) if fc == 15 else list(struct.unpack(">%dH" % n, d))
    return pdu[:5]

def port_conf(var, name, port, extra=""):
    return '%s = add_port({name="%s", enable=true, ipaddress="127.0.0.1", socket="TCP", bindport=%d, type="SERVER", protocol="TCP", scanrate=1000, timeout=1000, frame=30, retries=2%s})\n' % (var, name, port, extra)
def rtu_conf(var, name, dev, typ="SLAVE", frame=3, extra=""):
    return '%s = add_port({name="%s", enable=true, device="%s", type="%s", protocol="RTU", baudrate=115200, databits=8, stopbits=1, parity="NONE", scanrate=100, timeout=1000, frame=%d, retries=2%s})\n' % (var, name, dev, typ, frame, extra)

def gen_pdu(rng, units, unit, bad=0.15, maxn=None):
    """a request PDU that mostly fits the unit"""
    u = units.get(unit) or units.get(0) or {}
    fc = rng.choice([1, 2, 3, 4, 5, 6, 15, 16])
    if rng.random() < bad * 0.2: fc = rng.choice([0, 7, 8, 9, 11, 17, 20, 22, 23, 24, 43, 65, 100, 127])
    t = u.get(FCK.get(fc)); size = t.size if t else 10
    lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}.get(fc, 1)
    m = max(1, min(lim, size, maxn or lim))
    n = rng.choice([1, m, min(m, 8), min(m, 9), rng.randrange(1, m + 1), rng.randrange(1, min(m, 40) + 1)])
    a = rng.choice([0, size - n, rng.randrange(0, size - n + 1), rng.randrange(0, size - n + 1)])
    x = rng.random() < bad
    if x:
        k = rng.randrange(7)
        if k == 0: a = rng.choice([size - n + 1, size, 65535, rng.randrange(65536)])
        elif k == 1: n = rng.choice([0, lim + 1, 65535, 2048, 126, rng.randrange(65536)])
        elif k == 2: a, n = rng.choice([(size - 1, 2), (65535, 1), (65535, 65535), (0, min(size + 1, 65535))])
    a &= 0xFFFF
    if fc <= 4 or fc not in FCK: return bytes([fc]) + u16(a, n) + (b"" if rng.random() < 0.99 or not x else b"")
    if fc == 5:
        v = rng.choice([0, 0xFF00])
        if x and rng.random() < 0.6: v = rng.choice([1, 0xFF, 0xFFFF, 0xFF01, 0x0100, 0x00FF, rng.randrange(65536)])
        return bytes([5]) + u16(a, v)
    if fc == 6: return bytes([6]) + u16(a, rng.choice([0, 1, 0xFF, 0xFF00, 0xFFFF, 0x8000, rng.randrange(65536)]))
    need = (n + 7) // 8 if fc == 15 else n * 2
    cnt = need & 0xFF; d = bytes(rng.randrange(256) for _ in range(min(need, 246)))
    if x:
        k = rng.randrange(5)
        if k == 0: cnt = rng.choice([0, (cnt + 1) & 255, (cnt - 1) & 255, 255])
        elif k == 1: d = d[:rng.randrange(len(d) + 1)]
        elif k == 2: return (bytes([fc]) + u16(a, n))[:rng.randrange(1, 6)]
    return bytes([fc]) + u16(a, n) + bytes([cnt]) + d

SER=[0]
def tables(rng, pre, big=False):
    """register tables of a few units; some lack tables, unit 0 stands in for the ones that are not there"""
    units={}; ids=[1, rng.randrange(2, 247), 247]+([0] if rng.random() < 0.6 else [])
    for u in ids:
        d={}
        for k in (COIL, DISC, HOLD, INP):
            if u == 1 or rng.random() < 0.7:
                size=rng.choice([1, 7, 8, 9, 16, 17, 63, 64, 100, 125, 126, 300, 2000, 2001, 2500])
                if big and u == 1: size=rng.choice([65535, 40000, 2500])
                d[k]=Table(k, "%s_u%d_%s" % (pre, u, k.lower()), size)
        if d: units[u]=d
    return units

def conf_of(var, units):
    return "".join('add_register(%s, %d, "%s", %d, %s)\n' % (var, u, t.tag, t.size, t.kind) for u, d in units.items() for t in d.values())

class Serial:
    def __init__(s, c, bdir, name):
        SER[0]+=1; name="%s%d" % (name, SER[0]); s.c=c
        s.m, s.sl=os.openpty(); tty.setraw(s.m); tty.setraw(s.sl); s.srv=core.Server(bdir, c.base, name+"s").start()
        s.units=tables(c.rng, "r"); conf=rtu_conf("p0", "RTU", os.ttyname(s.sl))+conf_of("p0", s.units)
        s.mod=Module(bdir, c.base, name+"m", s.srv, conf); s.raw=Raw(s.srv, "obs")
        t0=time.time()
        for d in s.units.values():
            for t in d.values():
                while True:
                    r=s.raw.by_name(t.tag)
                    if r[0] == 0: t.idx=r[1][0]; break
                    s.mod.check()
                    if time.time()-t0 > 30: raise Died("register tag does not appear", {"key": "notag", "text": ""})
                    time.sleep(0.01)
        # the port thread has opened the device once a request is answered
        while True:
            os.write(s.m, s.frame(1, bytes([3])+u16(0, 1)))
            if s.recv(0.5): break
            s.mod.check()
            if time.time()-t0 > 30: raise Died("RTU slave does not answer", {"key": "noslave", "text": ""})
        while s.recv(0.3): pass
    def frame(s, unit, pdu): f=bytes([unit])+pdu; return f+crc16(f)
    def recv(s, timeout, quiet=0.03):
        d=b""; t=time.time()+timeout
        while True:
            r, _, _=select.select([s.m], [], [], quiet if d else max(0, t-time.time()))
            if not r: return d
            d+=os.read(s.m, 1000)
            if len(d) >= 5 and crc16(d[:-2]) == d[-2:]: return d
    def stop(s): s.mod.kill9(); s.srv.kill9(); os.close(s.m); os.close(s.sl)

