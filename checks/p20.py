import sys, os, struct, time, threading, select, tty; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
from vf.proto import *
from vf import modbus as mb
from vf.modbus import *

class Bed:
    def __init__(b, c, bdir, name, big=False, extra=None, nports=1, share=False):
        b.c=c; SER[0]+=1; name="%s%d" % (name, SER[0])
        b.srv=core.Server(bdir, c.base, name+"s").start()
        b.ports=[core.free_port() for _ in range(nports)]
        b.units=[]; conf=""
        for i, p in enumerate(b.ports):
            u=b.units[0] if share and i else tables(c.rng, "t%d" % i, big)
            b.units.append(u); conf+=port_conf("p%d" % i, "P%d" % i, p)+conf_of("p%d" % i, u)
        if extra: conf+=extra(b)
        b.mod=Module(bdir, c.base, name+"m", b.srv, conf, b.ports)
        b.raw=Raw(b.srv, "obs")
        for u in b.units:
            for d in u.values():
                for t in d.values():
                    if t.idx is None:
                        r=b.raw.by_name(t.tag)
                        if r[0] != 0: raise Violation("tag", "the register tag %s does not exist" % t.tag)
                        idx, typ, cnt=r[1][0], r[1][1], r[1][2]
                        if cnt != t.size or typ != (BOOL if t.bits else UINT): raise Violation("tag", "register tag %s has type %d count %d, configured %d" % (t.tag, typ, cnt, t.size))
                        t.idx=idx
    def alltables(b):
        seen={}
        for u in b.units:
            for d in u.values():
                for t in d.values(): seen[t.tag]=t
        return list(seen.values())
    def compare(b, t, why):
        raw=t.raw(); off=0
        while off < len(raw):
            l=min(4000, len(raw)-off); r, d=b.raw.read(t.idx, off, l)
            if r != 0: raise Violation("tagread", "register tag %s cannot be read: %d" % (t.tag, r))
            if d != raw[off:off+l]:
                k=next(i for i in range(l) if d[i] != raw[off+i])
                raise Violation("tag-content:"+t.kind, "%s: %s byte %d is 0x%02x, should be 0x%02x" % (why, t.tag, off+k, d[k], raw[off+k]))
            off+=l
        b.c.count("tag_compares")
    def tagwrite(b, t):
        """another client changes the tag"""
        rng=b.c.rng; n=t.nbytes(); o=rng.randrange(n); l=rng.randrange(1, min(n-o, 400)+1); d=rng.getrandbits(8*l).to_bytes(l, "little")
        if t.bits and t.size % 8 and o+l == n: d=d[:-1]+bytes([d[-1] & ((1 << (t.size % 8))-1)])
        if b.raw.write(t.idx, o, d) != 0: raise Violation("tagwrite", "cannot write register tag %s" % t.tag)
        raw=bytearray(t.raw()); raw[o:o+l]=d; t.from_raw(bytes(raw)); b.c.count("tag_writes")
    def check(b): b.mod.check(); b.srv.check()
    def stop(b): b.mod.kill9(); b.srv.kill9()

def short(pdu):
    """a multiple write without all the data its byte count promises: in a stream that is no request of its own"""
    return pdu[0] in (15, 16) and (len(pdu) < 6 or pdu[5] > len(pdu)-6)

def op(b, m, units, bad=0.15, stream=False):
    while True:
        unit, pdu=op1(b, m, units, bad)
        if not stream or not short(pdu): return unit, pdu

def op1(b, m, units, bad):
    rng=b.c.rng; ids=list(units)
    unit=rng.choice(ids) if rng.random() < 0.93 else rng.choice([0, 3, 248, 250, 255, rng.randrange(256)])
    pdu=gen_pdu(rng, units, unit, bad)
    return unit, pdu

def verdict(b, unit, pdu, got, want):
    if got != want:
        k="data" if got[:1] == want[:1] else "exception"
        raise Violation("reply:%s:fc%d" % (k, pdu[0]), "unit %d request %s: reply %s, should be %s" % (unit, pdu[:20].hex(), got[:60].hex(), want[:60].hex()))
    b.c.case((pdu[0], want[0] >> 7, want[1] if want[0] & 0x80 else 0, len(want), unit), {"unit": unit, "request": pdu[:12].hex(), "reply": want[:12].hex()} if b.c.rng.random() < 0.02 else None)
    b.c.count("exceptions" if want[0] & 0x80 else "replies")

def sequential(c, bdir, big):
    b=Bed(c, bdir, "q", big); rng=c.rng
    try:
        ms=[Master(b.mod, b.ports[0]) for _ in range(3)]; units=b.units[0]; every=1 if big else 6
        for i in range(c.n(500 if big else 2500, 8000)):
            m=rng.choice(ms)
            if rng.random() < 0.15: b.tagwrite(rng.choice(b.alltables()))
            unit, pdu=op(b, m, units); before=None
            if short(pdu) and unit not in units and 0 not in units: continue
            want=expect(units, unit, pdu)
            if want is None:
                # nobody is home: no reply, and the connection goes on
                m.send(m.frame(unit, pdu)); c.count("ignored"); c.case(("ignored", pdu[0])); m.loose=True
                continue
            if pdu[0] in (15, 16) and not short(pdu) and len(pdu) == 6+pdu[5] and rng.random() < 0.1 and not getattr(m, "loose", False):
                # a client that forgets to count some of it in the header
                f=bytearray(m.frame(unit, pdu)); f[4:6]=struct.pack(">H", len(pdu)+1-3); m.send(bytes(f)); g=m.recv(); c.count("short_headers")
                if g is None: m.dead("no reply to a request whose header forgets 3 bytes")
                if g[:2] != (m.tid, unit): raise Violation("reply-ids", "request tid %d unit %d, reply tid %d unit %d" % (m.tid, unit, g[0], g[1]))
                g=g[2]
            else: g=m.req(unit, pdu)
            m.loose=False; verdict(b, unit, pdu, g, want)
            if i % 25 == 0 or (pdu[0] >= 5 and rng.random() < 0.3):
                u=units.get(unit) or units.get(0); t=u.get(FCK.get(pdu[0]))
                if t and not (big and rng.random() < 0.8): b.compare(t, "after %s" % pdu[:8].hex())
            if rng.random() < 0.01:
                k=rng.randrange(3); ms[k].close() if rng.random() < 0.5 else ms[k].rst(); ms[k]=Master(b.mod, b.ports[0])
        for t in b.alltables(): b.compare(t, "at the end")
        b.check()
    finally: b.stop()

def pipelined(c, bdir):
    """streams of requests cut at random, from several masters on disjoint tables"""
    b=Bed(c, bdir, "s", nports=2); rng=c.rng
    try:
        for rnd in range(c.n(25, 80)):
            cl=[]
            for k in range(2):
                m=Master(b.mod, b.ports[k]); units=b.units[k]; out=b""; exp=[]; tid=rng.randrange(65536)
                for _ in range(rng.choice([2, 5, 30, 60])):
                    unit, pdu=op(b, m, units, stream=True); tid=(tid+rng.choice([1, 1, 7])) & 0xFFFF
                    w=expect(units, unit, pdu); out+=m.frame(unit, pdu, tid)
                    if w is not None: exp.append((tid, unit, w, pdu))
                cl.append(dict(m=m, out=out, exp=exp, got=0))
            mode=rng.choice(["byte", "mixed", "whole"])
            live=list(cl)
            while live:
                x=rng.choice(live)
                n={"byte": rng.choice([1, 1, 2, 3, 5]), "mixed": rng.choice([1, 6, 7, 11, 12, 13, 100, 255, 256, 260, 300]), "whole": 100000}[mode]
                x["m"].send(x["out"][:n]); x["out"]=x["out"][n:]; c.count("pieces")
                if rng.random() < 0.05: time.sleep(rng.choice([0, 0.001, 0.004]))
                while True:     # keep the replies from piling up
                    if not select.select([x["m"].s], [], [], 0)[0]: break
                    if not take(b, x): break
                if not x["out"]: live.remove(x)
            for x in cl:
                while x["got"] < len(x["exp"]): take(b, x, True)
                r=x["m"].recv(0.02)
                if r is not None: raise Violation("extra-reply", "one reply too many: %r" % (r,))
                x["m"].close()
            for t in b.alltables(): b.compare(t, "after the streams")
        b.check()
    finally: b.stop()

def take(b, x, must=False):
    r=x["m"].recv(20 if must else 0.01)
    if r is None:
        if must:
            e=x["exp"][x["got"]]; x["m"].dead("no reply to request %d of %d in the stream, %s" % (x["got"], len(x["exp"]), e[3][:12].hex()))
        return False
    if x["got"] >= len(x["exp"]): raise Violation("extra-reply", "one reply too many: %r" % (r,))
    tid, unit, w, pdu=x["exp"][x["got"]]; x["got"]+=1
    if r[:2] != (tid, unit): raise Violation("reply-ids", "request tid %d unit %d, reply tid %d unit %d" % (tid, unit, r[0], r[1]))
    verdict(b, unit, pdu, r[2], w); return True

def together(c, bdir):
    """many masters at the same time on two ports that show the same tags: each owns a stripe, a shared block is written
    and read as a whole, other clients read the tag too"""
    b=Bed(c, bdir, "c", nports=2, share=True, extra=lambda b: "".join('add_register(p%d, 200, "sh_hold", 400, HOLDING)\nadd_register(p%d, 200, "sh_coil", 800, COIL)\n' % (i, i) for i in range(2))); rng=c.rng
    bad=[]; obs=[0, 0]; seen=set(); stop=threading.Event(); lock=threading.Lock()
    N=8
    try:
        def work(k, seed):
            r=random.Random(seed)
            try:
                m=Master(b.mod, b.ports[k % 2]); regs=[0]*20; bits=[0]*40; R0=40+k*20; B0=100+k*40+k
                hv=m.req(200, bytes([3])+u16(R0, 20)); cv=m.req(200, bytes([1])+u16(B0, 40))
                for it in range(c.n(400, 2000)):
                    q=r.randrange(8)
                    if q == 0:
                        a=r.randrange(20); n=r.randrange(1, 21-a); v=[r.randrange(65536) for _ in range(n)]; regs[a:a+n]=v; w=bytes([16])+u16(R0+a, n); g=m.req(200, w+bytes([2*n])+u16(*v))
                    elif q == 1:
                        a=r.randrange(20); regs[a]=r.randrange(65536); w=bytes([6])+u16(R0+a, regs[a]); g=m.req(200, w)
                    elif q == 2:
                        a=r.randrange(20); n=r.randrange(1, 21-a); w=bytes([3, 2*n])+u16(*regs[a:a+n]); g=m.req(200, bytes([3])+u16(R0+a, n))
                    elif q == 3:
                        a=r.randrange(40); n=r.randrange(1, 41-a); v=[r.randrange(2) for _ in range(n)]; bits[a:a+n]=v; w=bytes([15])+u16(B0+a, n); d=pack(v); g=m.req(200, w+bytes([len(d)])+d)
                    elif q == 4:
                        a=r.randrange(40); bits[a]^=1; w=bytes([5])+u16(B0+a, 0xFF00 if bits[a] else 0); g=m.req(200, w)
                    elif q == 5:
                        a=r.randrange(40); n=r.randrange(1, 41-a); d=pack(bits[a:a+n]); w=bytes([1, len(d)])+d; g=m.req(200, bytes([1])+u16(B0+a, n))
                    elif q == 6:
                        v=r.randrange(65536); w=bytes([16])+u16(0, 40); g=m.req(200, w+bytes([80])+u16(*[v]*40))
                    else:
                        g=m.req(200, bytes([3])+u16(0, 40)); w=g
                        vs=set(struct.unpack(">40H", g[2:])) if len(g) == 82 else {-1, -2}
                        with lock: obs[1]+=1; seen.add(min(vs))
                        if len(vs) != 1: bad.append(Violation("torn", "a block that is always written as a whole was read with %d different values" % len(vs))); return
                    if g != w: bad.append(Violation("together:fc%d" % w[0], "master %d of %d: reply %s, should be %s" % (k, N, g[:40].hex(), w[:40].hex()))); return
                    with lock: obs[0]+=1
                m.close()
            except (Violation, Died) as e: bad.append(e)
            except Exception as e: bad.append(Violation("together", "master %d: %r" % (k, e)))
        ths=[threading.Thread(target=work, args=(k, rng.random())) for k in range(N)]
        for t in ths: t.start()
        hi=b.raw.by_name("sh_hold")[1][0]
        while any(t.is_alive() for t in ths):
            r, d=b.raw.read(hi, 0, 80)
            if len({d[i:i+2] for i in range(0, 80, 2)}) != 1: bad.append(Violation("torn-tag", "the tag shows a block that was written as a whole half done")); break
            c.count("tag_reads_meanwhile")
        for t in ths: t.join()
        if bad: raise bad[0]
        c.count("concurrent_requests", obs[0]); c.count("block_reads", obs[1]); c.count("block_values_seen", len(seen)); c.case(("together", len(seen)))
        b.check()
    finally: b.stop()

CB='''
add_register(p0, 50, "cbh", 30, HOLDING)
add_register(p0, 50, "cbc", 30, COIL)
function rcb(node, fc, reg, count)
  tag_write("cb_args", {node, fc, reg, count})
  if reg == 9 then return 6 end
  if fc == 3 and reg == 4 then tag_write("cbh[4]", (tag_read("cbh[4]", 1) + 3) % 65536) end
  if reg == 11 then error("no") end
  return 0
end
function wcb(node, fc, reg, count)
  tag_write("cb_wargs", {node, fc, reg, count})
  if reg == 13 then return 4 end
end
add_read_callback(p0, 50, rcb)
add_write_callback(p0, 50, wcb)
'''
def callbacks(c, bdir):
    b=Bed.__new__(Bed); rng=c.rng
    Bed.__init__(b, c, bdir, "cb", extra=lambda b: CB)
    try:
        ra=b.raw.tag_add("cb_args", DINT, 4); wa=b.raw.tag_add("cb_wargs", DINT, 4)
        units={50: {HOLD: Table(HOLD, "cbh", 30), COIL: Table(COIL, "cbc", 30)}}; t=units[50]
        for x in t.values(): x.idx=b.raw.by_name(x.tag)[1][0]
        m=Master(b.mod, b.ports[0])
        def args(i): return struct.unpack("<4i", b.raw.read(i, 0, 16)[1])
        lw=None
        for i in range(c.n(400, 2000)):
            while True:
                pdu=gen_pdu(rng, units, 50, 0.1)
                if len(pdu) >= 5 and pdu[0] in FCK: break
            fc=pdu[0]; a, n=struct.unpack(">HH", pdu[1:5])
            if rng.random() < 0.4: a=rng.choice([4, 9, 11, 13]); pdu=pdu[:1]+u16(a)+pdu[3:]
            if fc <= 4:
                if a == 9: want=bytes([fc | 0x80, 6])
                else:
                    if fc == 3 and a == 4: t[HOLD].v[4]=(t[HOLD].v[4]+3) % 65536
                    want=expect(units, 50, pdu)
                verdict(b, 50, pdu, m.req(50, pdu), want)
                if args(ra) != (50, fc, a, n): raise Violation("callback-args", "read callback got %r for %r" % (args(ra), (50, fc, a, n)))
            else:
                want=expect(units, 50, pdu); ok=not want[0] & 0x80
                if ok and a == 13: want=bytes([fc | 0x80, 4])
                verdict(b, 50, pdu, m.req(50, pdu), want)
                if ok: lw=(50, fc, a, 1 if fc in (5, 6) else n)
                if lw and args(wa) != lw: raise Violation("callback-args", "the last successful write was %r, the callback saw %r" % (lw, args(wa)))
            c.count("callback_requests")
        for x in t.values(): b.compare(x, "callbacks")
        # a register whose tag is gone answers with an exception and comes back with nothing invented
        if b.raw.tag_del(t[HOLD].idx) == 0:
            for pdu in (bytes([3])+u16(0, 2), bytes([6])+u16(1, 7), bytes([16])+u16(0, 1)+b"\x02\x00\x07"):
                g=m.req(50, pdu)
                if g != bytes([pdu[0] | 0x80, 4]): raise Violation("gone-tag", "request %s on a register whose tag is gone: %s" % (pdu.hex(), g.hex()))
                c.case(("gone", pdu[0]))
        b.check()
    finally: b.stop()

def rtu(c, bdir):
    s=Serial(c, bdir, "rtu"); rng=c.rng
    try:
        for i in range(c.n(300, 1500)):
            unit=rng.choice(list(s.units)); pdu=gen_pdu(rng, s.units, unit, 0.12); f=s.frame(unit, pdu)
            if rng.random() < 0.08:
                g=bytearray(f); g[rng.randrange(len(g))]^=1 << rng.randrange(8); os.write(s.m, bytes(g)); r=s.recv(0.06)
                if r: raise Violation("rtu-badcrc", "a frame with a bad checksum was answered: %s -> %s" % (bytes(g).hex(), r.hex()))
                c.case("badcrc"); c.count("bad_crc_frames"); continue
            if len(pdu) == 5 and pdu[0] == 8: want=pdu if pdu[1:3] == b"\0\0" else bytes([0x88, 1])
            else: want=expect(s.units, unit, pdu)
            os.write(s.m, f); r=s.recv(10)
            if not r: s.mod.check(); raise Violation("rtu-noreply", "no reply to %s" % f.hex())
            if r != s.frame(unit, want): raise Violation("rtu-reply:fc%d" % pdu[0], "request %s: reply %s, should be %s" % (f[:20].hex(), r[:60].hex(), s.frame(unit, want)[:60].hex()))
            c.case(("rtu", pdu[0], want[0] >> 7, len(want))); c.count("rtu_requests")
        for d in s.units.values():
            for t in d.values(): Bed.compare(type("B", (), dict(raw=s.raw, c=c))(), t, "rtu")
        s.mod.check(); s.srv.check()
    finally: s.stop()

def body(c):
    bdir=core.build("asan", ["tagserver", "dax", "daxlog", "modbus_module"])
    for i in range(c.n(3, 12)):
        c.run("sequential %d" % i, sequential, c, bdir, i % 3 == 2)
        c.run("pipelined %d" % i, pipelined, c, bdir)
        if i < c.n(2, 6): c.run("together %d" % i, together, c, bdir)
        if i < c.n(1, 4): c.run("callbacks %d" % i, callbacks, c, bdir); c.run("rtu %d" % i, rtu, c, bdir)
core.main("P20", "one evaluation = one Modbus request whose reply (or silence) was compared with the model of the register tables; distinct = function x outcome x length x unit", body)
