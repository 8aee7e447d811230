import sys, os, struct, time, threading, select, socket, resource; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
from vf.proto import *
from vf import modbus as mb
from vf.modbus import *
PROBE=0x4D                              # the unit of the honest master; no hostile byte ever has this value
CLEAN=bytes(0x4E if x == PROBE else x for x in range(256))
def clean(b): return b.translate(CLEAN)

CONF='''
add_register(p0, 1, "h1", 300, HOLDING)
add_register(p0, 1, "i1", 200, INPUT)
add_register(p0, 1, "c1", 2500, COIL)
add_register(p0, 1, "d1", 77, DISCRETE)
add_register(p0, 2, "h2", 65535, HOLDING)
add_register(p0, 2, "c2", 1, COIL)
add_register(p0, 247, "h3", 1, HOLDING)
%s
add_register(p0, 77, "hp", 60, HOLDING)
add_register(p0, 77, "cp", 200, COIL)
'''
class Bed:
    def __init__(b, c, bdir, name, limit=None):
        b.c=c; SER[0]+=1; name="%s%d" % (name, SER[0]); b.srv=core.Server(bdir, c.base, name+"s").start(); b.port=core.free_port()
        zero='add_register(p0, 0, "h0", 20, HOLDING)' if c.rng.random() < 0.5 else ""
        args=()
        b.mod=Module(bdir, c.base, name+"m", b.srv, port_conf("p0", "P0", b.port)+CONF % zero, [b.port], args)
        if limit: resource.prlimit(b.mod.p.pid, resource.RLIMIT_NOFILE, (limit, limit))
        b.units={PROBE: {HOLD: Table(HOLD, "hp", 60), COIL: Table(COIL, "cp", 200)}}
        b.fuzzunits={1: {HOLD: Table(HOLD, "h1", 300), INP: Table(INP, "i1", 200), COIL: Table(COIL, "c1", 2500), DISC: Table(DISC, "d1", 77)}, 2: {HOLD: Table(HOLD, "h2", 65535), COIL: Table(COIL, "c2", 1)}, 247: {HOLD: Table(HOLD, "h3", 1)}}
        time.sleep(0.02)
        b.m=Master(b.mod, b.port); b.probe(); b.fds=b.mod.nfds()
    def probe(b, n=3, fresh=False):
        """an honest master must get its answers, and the right ones"""
        m=Master(b.mod, b.port) if fresh else b.m
        for _ in range(n):
            pdu=gen_pdu(b.c.rng, b.units, PROBE, 0.1, maxn=40); want=expect(b.units, PROBE, pdu); g=m.req(PROBE, pdu)
            if g != want: raise Violation("probe", "an honest master's request %s: reply %s, should be %s" % (pdu[:20].hex(), g[:40].hex(), want[:40].hex()))
            b.c.count("probes")
        if fresh: m.close()
        b.mod.check()
    def stop(b): b.mod.kill9(); b.srv.kill9()
    def settle(b, slack=0):
        """every descriptor of a connection that is gone comes back"""
        t0=time.time()
        while b.mod.nfds() > b.fds+slack:
            if time.time()-t0 > 10: raise Violation("fd-leak", "%d descriptors are open, %d before the hostile connections" % (b.mod.nfds(), b.fds))
            b.probe(1); time.sleep(0.01)

def hostile(rng, b):
    """(bytes, what)"""
    k=rng.randrange(12); V=[0, 1, 2, 3, 5, 6, 7, 8, 125, 126, 127, 128, 247, 253, 254, 255, 256, 257, 260, 1000, 2000, 2001, 0x7FFF, 0x8000, 65529, 65535]
    unit=rng.choice([0, 1, 1, 2, 247, 248, 249, 255, rng.randrange(256)])
    def fr(pdu, n=None, prot=0): return struct.pack(">HHHB", rng.randrange(65536), prot, len(pdu)+1 if n is None else n, unit)+pdu
    if k == 0: return bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 6, 7, 8, 100, 256, 300, 3000]))), "noise"
    if k == 1: return bytes([rng.choice([0, 255, 1])])*rng.choice([1, 6, 7, 12, 255, 256, 260, 261, 5000]), "constant"
    pdu=gen_pdu(rng, b.fuzzunits, unit if unit in b.fuzzunits else 1, 0.5)
    if k in (2, 3):
        fc=rng.choice([1, 2, 3, 4, 5, 6, 15, 16, 8, 0, 255]); pdu=bytes([fc])+u16(rng.choice(V), rng.choice(V))
        if fc in (15, 16) and rng.random() < 0.8: pdu+=bytes([rng.choice(V) & 255])+bytes(rng.choice([0, 1, 2, 100, 240, 246]))
        return fr(pdu[:rng.choice([1, 2, 3, 4, 5, 6, 300, 300, 300])]), "fields"
    if k in (4, 5): return fr(pdu, rng.choice(V)), "length"
    if k == 6: return fr(pdu, None, rng.choice([1, 256, 65535])), "protocol"
    if k == 7: f=fr(pdu); return f[:rng.randrange(1, len(f))], "cut"
    if k == 8:
        f=bytearray(b"".join(fr(gen_pdu(rng, b.fuzzunits, 1, 0.4)) for _ in range(rng.randrange(1, 30))))
        for _ in range(rng.randrange(1, 6)): f[rng.randrange(len(f))]=rng.choice([0, 255, rng.randrange(256)])
        return bytes(f), "mutated stream"
    if k == 9: return fr(bytes([rng.randrange(256)])+bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 100, 252])))), "function"
    if k == 10: return b"".join(fr(bytes([rng.choice([1, 3])])+u16(0, rng.choice([125, 2000, 1]))) for _ in range(rng.choice([2, 50, 300]))), "burst"
    return fr(pdu)+fr(pdu)[:rng.randrange(1, 8)], "and a half"

def wellformed(buf):
    """what a hostile peer gets back is still a sequence of well-formed replies"""
    while len(buf) >= 6:
        tid, prot, n=struct.unpack(">HHH", buf[:6])
        if prot or n < 3 or n > 254: raise Violation("reply-form", "the server sent %s" % buf[:40].hex())
        if len(buf) < 6+n: break
        p=buf[7:6+n]
        if p[0] & 0x80 and len(p) != 2: raise Violation("reply-form", "exception of %d bytes: %s" % (len(p), p.hex()))
        if p[0] in (1, 2, 3, 4) and len(p) != 2+p[1]: raise Violation("reply-form", "reply with a wrong byte count: %s" % p[:40].hex())
        if p[0] in (5, 6, 15, 16) and len(p) != 5: raise Violation("reply-form", "write reply of %d bytes" % len(p))
        buf=buf[6+n:]
    return buf

def fuzz(c, bdir, i):
    b=Bed(c, bdir, "f"); rng=c.rng; conns=[]
    try:
        for step in range(c.n(3000, 15000)):
            if len(conns) < rng.choice([1, 5, 20]):
                s=socket.socket(); s.connect(("127.0.0.1", b.port)); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); s.settimeout(0.0); conns.append([s, b""])
            x=rng.choice(conns); data, what=hostile(rng, b); data=clean(data)
            c.case((what, len(data), data[7:8]), {"what": what, "bytes": data[:24].hex()} if rng.random() < 0.02 else None); c.count("hostile:"+what)
            gone=False; cuts=sorted(rng.sample(range(len(data)+1), min(len(data), rng.choice([0, 0, 1, 3, 10]))))
            for a, z in zip([0]+cuts, cuts+[len(data)]):
                try: x[0].send(data[a:z])
                except BlockingIOError: pass
                except OSError: gone=True; break
            try:
                while True:
                    d=x[0].recv(65536)
                    if d == b"": gone=True; break
                    x[1]=wellformed(x[1]+d); c.count("bytes_back", len(d))
            except BlockingIOError: pass
            except OSError: gone=True
            if gone: c.count("closed_by_server")
            if gone or rng.random() < 0.2:
                k=rng.randrange(3)
                try:
                    if k == 0: x[0].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); c.count("resets")
                    elif k == 1: x[0].shutdown(socket.SHUT_WR)
                except OSError: pass
                x[0].close(); conns.remove(x)
            if step % 10 == 0: b.probe(1, rng.random() < 0.2)
        for x in conns: x[0].close()
        b.settle(); b.probe(5, True); b.srv.check()
    finally: b.stop()

def stalled(c, bdir):
    """masters that ask and never read the answers"""
    b=Bed(c, bdir, "n"); rng=c.rng
    try:
        socks=[]; t0=time.time()
        for k in range(4):
            s=socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048); s.connect(("127.0.0.1", b.port)); s.settimeout(0.0); socks.append(s)
        sent=[0]*4; f=struct.pack(">HHHB", 1, 0, 6, 1)+bytes([3])+u16(0, 125); dead=set(); last=[time.time()]*4
        while time.time()-t0 < c.n(6, 20) and len(dead) < 4:
            for k, s in enumerate(socks):
                if k in dead: continue
                try: sent[k]+=s.send(f*50); last[k]=time.time()
                except BlockingIOError:
                    if time.time()-last[k] > 2: dead.add(k)        # the server does not take any more: fine as long as others are served
                except OSError: dead.add(k)
            b.probe(1)
        c.count("bytes_to_stalled", sum(sent)); c.case(("stalled", len(dead)))
        b.probe(10, True)
        for s in socks: s.close()
        b.settle(); b.probe(3)
    finally: b.stop()

def crowd(c, bdir, n):
    """more connections than a select() set can hold, half of them with half a request"""
    soft, hard=resource.getrlimit(resource.RLIMIT_NOFILE); want=n+400
    if soft < want:
        if hard != resource.RLIM_INFINITY and hard < want:
            try: resource.setrlimit(resource.RLIMIT_NOFILE, (want, want))
            except (OSError, ValueError): c.notes.append("descriptor limit"); c.count("crowd_skipped"); return
        else: resource.setrlimit(resource.RLIMIT_NOFILE, (want, hard))
    b=Bed(c, bdir, "w", limit=want); rng=c.rng; socks=[]
    try:
        for i in range(n):
            s=socket.socket(); s.settimeout(10)
            try: s.connect(("127.0.0.1", b.port)); s.send(clean(struct.pack(">HHHB", i, 0, 6, 1)+bytes([3]))[:rng.randrange(1, 8)])
            except OSError: pass
            socks.append(s)
            if i % 3 == 0: b.probe(1)
        b.probe(5); c.count("crowd", len(socks)); c.case(("crowd", n))
        for s in socks: s.close()
        b.settle(); b.probe(5, True)
    finally: b.stop()

def churn(c, bdir):
    """connections that come and go; a new connection never inherits what an old one left behind"""
    b=Bed(c, bdir, "u"); rng=c.rng
    try:
        for i in range(c.n(600, 3000)):
            s=socket.socket(); s.connect(("127.0.0.1", b.port))
            pdu=bytes([6])+u16(rng.randrange(60), rng.randrange(65536)); f=struct.pack(">HHHB", i & 0xFFFF, 0, len(pdu)+1, 1)+clean(pdu)
            s.send(f[:rng.randrange(1, len(f))])
            if rng.random() < 0.5: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close(); b.probe(1, True); c.case(("churn", i % 50)); c.count("churned")
        b.settle()
    finally: b.stop()

def rtu(c, bdir):
    rng=c.rng
    s=Serial(c, bdir, "hr")
    try:
        for i in range(c.n(60, 400)):
            k=rng.randrange(6)
            if k == 0: d=bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 4, 255, 256, 260, 300, 600])))
            elif k == 1: d=bytes(rng.choice([259, 260, 261, 520]))
            elif k == 2: d=s.frame(rng.choice([1, 247, 248, 255]), bytes([rng.randrange(256)])+bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 250]))))
            elif k == 3: d=s.frame(1, bytes([rng.choice([1, 2, 3, 4, 5, 6, 8, 15, 16])])+u16(rng.randrange(65536), rng.randrange(65536))+bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 100]))))
            elif k == 4: d=s.frame(1, gen_pdu(rng, s.units, 1, 0))[:rng.randrange(1, 8)]
            else: d=s.frame(1, b"")[:rng.choice([1, 3])]
            os.write(s.m, d); c.case(("rtu", k, len(d))); c.count("rtu_hostile")
            r=s.recv(0.05)
            while s.recv(0.03): pass
            if i % 3 == 0:
                t=next(iter(s.units[1].values())); fc={COIL: 1, DISC: 2, HOLD: 3, INP: 4}[t.kind]
                for a in range(3):
                    os.write(s.m, s.frame(1, bytes([fc])+u16(0, 1))); r=s.recv(5)
                    if r and crc16(r[:-2]) == r[-2:] and r[:2] == bytes([1, fc]): break
                    s.mod.check(); time.sleep(0.2)
                else: raise Violation("rtu-probe", "the RTU slave does not answer any more after %s: %s" % (d[:40].hex(), r.hex() if r else None))
                c.count("probes")
            s.mod.check()
    finally: s.stop()

def body(c):
    bdir=core.build("asan", ["tagserver", "dax", "daxlog", "modbus_module"])
    for i in range(c.n(3, 10)): c.run("fuzz %d" % i, fuzz, c, bdir, i)
    c.run("stalled", stalled, c, bdir)
    c.run("churn", churn, c, bdir)
    c.run("crowd", crowd, c, bdir, c.n(1100, 1300))
    c.run("rtu", rtu, c, bdir)
core.main("P21", "one evaluation = one hostile message or connection pattern; distinct = kind x length x function byte; probes = honest requests whose answer was compared with a model meanwhile", body)
