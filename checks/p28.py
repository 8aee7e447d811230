"""P28: the MQTT client moves messages to tags and tags to messages as configured.

The real daxmqtt module runs under sanitizers between a real tag server and a small broker of ours.  The broker records and
orders what the module sends and sends it messages; an outside client watches and drives the tags; a model says what must come."""
import sys, os, struct, time, signal, random, threading; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
from vf.proto import *
from vf.mqtt import Broker, match

SER=[0]
def lq(s): return '"'+"".join(c if c.isalnum() or c in " /+#_-.$:" else "\\%d" % ord(c) if ord(c) > 99 else "\\%03d" % ord(c) for c in s)+'"'
CDT="p28t:a,DINT,1:b,INT,3:c,LREAL,1:f,BOOL,8"

REC=[0]
class Bed:
    def __init__(b, c, bdir, name):
        SER[0]+=1; b.c=c; b.r=c.rng; b.bdir=bdir; b.name="%s%d" % (name, SER[0]); b.srv=core.Server(bdir, c.base, b.name+"s").start(); b.raw=Raw(b.srv, "obs")
        b.port=core.free_port(); b.br=Broker(b.port); b.idx={}; b.sz={}; b.conf=""; b.p=None; b.cdt=b.raw.cdt(CDT)[1]; b.cdtsize=None; b.bools={}; b.pos=0; b.gen=0; b.attrs=""
        b.tag("sy", DINT); b.tag("syo", DINT)
    def tag(b, name, type, count=1):
        i=b.raw.tag_add(name, type, count)
        if i < 0: raise Violation("harness", "cannot add %s: %d" % (name, i))
        if type & CUSTOM and b.cdtsize is None: b.cdtsize=4+6+8+1
        if type == BOOL and count % 8: b.bools[name]=(1 << count % 8)-1
        b.idx[name]=i; b.sz[name]=(count+7)//8 if type == BOOL else b.cdtsize*count if type & CUSTOM else tsize(type)*count
    def get(b, name):
        r, d=b.raw.read(b.idx[name], 0, b.sz[name])
        if r: raise Violation("tagread", "tag %s cannot be read: %d" % (name, r))
        return d
    def put(b, name, d, off=0):
        r=b.raw.write(b.idx[name], off, d)
        if r: raise Violation("tagwrite", "tag %s cannot be written: %d" % (name, r))
    def sub(b, topic, tags=None, filter=None, qos=None):
        b.conf+="add_sub({topic=%s" % lq(topic)+("" if tags is None else ", tags="+(lq(tags) if isinstance(tags, str) else "{"+", ".join(map(lq, tags))+"}"))+("" if filter is None else ", filter="+filter)+("" if qos is None else ", qos=%d" % qos)+"})\n"
    def pub(b, topic, tags=None, filter=None, qos=None, retained=None, trigger=None, type=None, value=None):
        b.conf+="add_pub({topic=%s" % lq(topic)+("" if tags is None else ", tags="+(lq(tags) if isinstance(tags, str) else "{"+", ".join(map(lq, tags))+"}"))+("" if filter is None else ", filter="+filter)+("" if qos is None else ", qos=%d" % qos)
        b.conf+=("" if retained is None else ", retained="+str(retained).lower())+("" if trigger is None else ", trigger_tag="+lq(trigger))+("" if type is None else ", trigger_type="+type)+("" if value is None else ", trigger_value=%s" % value)+"})\n"
    def start(b, args=(), sync=True):
        if sync and b.gen == 0: b.sub("sync/in", "sy"); b.pub("sync/out", "syo")
        b.gen+=1; b.cwd=os.path.join(b.c.base, b.name+"m%d" % b.gen); os.makedirs(b.cwd, exist_ok=True); f=os.path.join(b.cwd, "daxmqtt.conf")
        open(f, "w").write('broker_ip="127.0.0.1"\nbroker_port="%d"\n' % b.port+b.attrs+b.conf); b.log=os.path.join(b.cwd, "log"); b.nc=len(b.br.connects); b.sent=getattr(b, "sent", 0)
        b.p=core.spawn([os.path.join(b.bdir, "src/modules/mqtt/daxmqtt"), "-C", f, "-U", b.srv.sock]+list(args), b.cwd, b.log, stdout=open(os.path.join(b.cwd, "out"), "w"))
        if sync: b.live()
        return b
    def check(b):
        b.srv.check()
        if b.br.errors: raise Violation("protocol", "the broker got what no client may send: %s" % b.br.errors[0])
        if b.p.poll() is not None:
            r=core.san_report(b.log); raise Died("daxmqtt exited rc=%s %s" % (b.p.returncode, r["key"] if r else ""), r or {"key": "daxmqtt-exit:%s" % b.p.returncode, "text": open(b.log, errors="replace").read()[-3000:]})
    def wait(b, f, secs, why, key):
        t0=time.time()
        while True:
            r=f()
            if r: return r
            b.check()
            if time.time()-t0 > secs: raise Violation(key, why() if callable(why) else why)
            time.sleep(0.002)
    def live(b, secs=40):
        """the configuration is in place in both directions"""
        b.wait(lambda: "sync/in" in b.br.subs, secs, "the module does not subscribe", "nosub"); b.sync()
        t0=time.time()
        while True:
            b.sent+=1; b.put("syo", struct.pack("<i", b.sent))
            if b.br.wait(lambda: any(m[0] == "sync/out" and m[1] == struct.pack("<i", b.sent) for m in b.br.msgs), 1): break
            b.check()
            if time.time()-t0 > secs: raise Violation("nopub", "the module does not publish")
        time.sleep(0.05); b.pos=len(b.br.msgs)
    def sync(b, secs=15):
        """what was delivered before this has been handled"""
        b.sent+=1; v=struct.pack("<i", b.sent)
        if not b.br.deliver("sync/in", v): raise Violation("nosub", "the subscription of sync/in is gone")
        b.wait(lambda: b.get("sy") == v, secs, lambda: "message %d of sync/in never arrives at its tag (%s)" % (b.sent, b.get("sy").hex()), "notwritten")
    def deliver(b, topic, payload, qos=0, split=0):
        if not b.br.deliver(topic, payload, qos, split): b.check(); raise Violation("nosub", "topic %s: the module has no subscription for it or does not acknowledge (subscribed: %s)" % (topic, sorted(b.br.subs)[:8]))
    def outsync(b, secs=15):
        """all messages published until now, without those of sync/out"""
        b.sent+=1; v=struct.pack("<i", b.sent); b.put("syo", v); f=lambda: any(m[0] == "sync/out" and m[1] == v for m in b.br.msgs[b.pos:])
        if not b.br.wait(f, secs): b.check(); raise Violation("nopub", "message %d of sync/out is never published" % b.sent)
        with b.br.lock: o=[m for m in b.br.msgs[b.pos:] if m[0] != "sync/out"]; b.pos=len(b.br.msgs)
        return o
    def expect(b, want, why):
        got=[m[:4] for m in b.outsync()]
        if got != want: raise Violation("publish", "%s: published %s, should be %s" % (why, [(t, p[:40], q, r) for t, p, q, r in got][:6], [(t, p[:40], q, r) for t, p, q, r in want][:6]))
        for m in want: b.c.count("published")
    def finish(b, sig):
        n=b.br.disconnects; b.p.send_signal(sig); t0=time.time()
        while b.p.poll() is None:
            if time.time()-t0 > 20: raise Violation("end", "daxmqtt still runs 20 s after signal %d" % sig)
            time.sleep(0.01)
        if b.p.returncode: b.check()
        if b.br.disconnects != n+1: raise Violation("end", "at the orderly end the broker got %d disconnects" % (b.br.disconnects-n))
        b.c.count("orderly ends")
    def stop(b):
        if b.p:
            if b.p.poll() is None: b.p.kill()
            b.p.wait()
        b.br.close(); b.srv.kill9()

def rnd(r, n): return bytes(r.getrandbits(8) for _ in range(n))
TYPES=[BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, LWORD, LINT, ULINT, TIME, REAL, LREAL, BOOL]

def raw(c, bdir, steps):
    """copies without filters: single tags, arrays, compound types and groups in, with all qualities of service, whole, short and long"""
    b=Bed(c, bdir, "raw"); r=b.r
    try:
        subs=[]; val={}
        def mk(n):
            t=r.choice(TYPES); cnt=r.choice([1, 1, 2, 3, 7, 8, 16, 33]) if r.random() < 0.5 else 1
            if r.random() < 0.15: t=b.cdt; cnt=r.choice([1, 2])
            b.tag(n, t, cnt); return n
        for k in range(r.randrange(6, 12)):
            tags=[mk("r%d_%d" % (k, i)) for i in range(1 if r.random() < 0.5 else r.randrange(2, 6))]
            tp=r.choice(["in/%d", "a/b/%d", "%d", "/x/%d", "t %d", "q/%d/"]) % k; q=r.choice([None, 0, 1, 2]); subs.append((tp, tags, q))
            b.sub(tp, tags[0] if len(tags) == 1 and r.random() < 0.5 else tags, None, q)
            for t in tags: v=rnd(r, b.sz[t]); b.put(t, v); val[t]=b.get(t)
        b.start(); asked=dict(b.br.sublog)
        for tp, tags, q in subs:
            if asked.get(tp) != (q or 0): raise Violation("qos", "topic %s configured with qos %s was subscribed to with %s" % (tp, q, asked.get(tp)))
        for s in range(steps):
            tp, tags, q=r.choice(subs); n=sum(b.sz[t] for t in tags); w=r.random()
            m=n if w < 0.7 else r.randrange(0, n) if w < 0.85 else n+r.choice([1, 2, 100, 3000]); p=rnd(r, m)
            b.deliver(tp, p, r.choice([0, q or 0]), r.choice([0, 0, 0, 1, 2, 3, 5]))
            off=0
            for t in tags:
                part=p[off:off+b.sz[t]]; off+=b.sz[t]; val[t]=part+val[t][len(part):]
            if r.random() < 0.4 or s == steps-1:
                b.sync()
                for t, v in val.items():
                    d=b.get(t)
                    if t[1] in "0123456789" and d != v and not same(d, v, t, b): raise Violation("payload", "after a payload of %d bytes (topic %s, tags of %d bytes) tag %s has %s, should have %s" % (m, tp, n, t, d.hex()[:60], v.hex()[:60]))
                    val[t]=d
            b.c.count("raw messages"); b.c.case((len(tags), m-n if abs(m-n) < 3 else 9, q))
        b.expect([], "nothing is to be published")
        b.finish(r.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]))
    finally: b.stop()
def same(d, v, t, b):
    """the unused bits of the last byte of a BOOL array have no meaning"""
    return len(d) == len(v) and d[:-1] == v[:-1] and t in b.bools and (d[-1] ^ v[-1]) & b.bools[t] == 0

FILTERS="""
function f_num(topic, p) return tonumber(p) end
function f_arr(topic, p) local t = {} local i = 0 for x in string.gmatch(p, "([^,]+)") do i = i + 1 if x ~= "-" then t[i] = tonumber(x) end end return t end
function f_grp(topic, p) local t = f_arr(topic, p) return {t[1], {t[2], t[3], t[4]}, t[5]} end
function f_len(topic, p) local s = 0 for i = 1, #p do s = (s * 31 + string.byte(p, i)) % 1000003 end return {#p, s, #topic, string.byte(topic, #topic)} end
function f_err(topic, p) if string.sub(p, 1, 1) == "E" then error("no " .. p) end return tonumber(p) end
function f_self(topic, p) local n = string.match(topic, "/(%d+)$") tag_write("self" .. n, tonumber(p) + tag_read("selfadd", 0)) end
function f_chr(topic, p) return p end
function f_bad(topic, p) if p == "nil" then return nil end if p == "str" then return {"x", {}, 1.0} end if p == "num" then return 7 end if p == "short" then return {1} end if p == "fun" then return {1, {1, 2, 3}, print} end if p == "err" then error({}) end return {4, {5, 6, 7}, 8.5} end
function g_fmt(topic, v) return "v=" .. v end
function g_arr(topic, v) return topic .. ":" .. table.concat(v, ",") end
function g_grp(topic, v) return v[1] .. ";" .. table.concat(v[2], ",") .. ";" .. string.format("%.3f", v[3]) end
function g_bin(topic, v) return string.pack("<i4", v) .. "\\0\\255\\0" .. topic end
function g_nil(topic, v) if v % 4 == 0 then return nil end if v % 4 == 1 then error("odd " .. v) end if v % 4 == 2 then return {} end return "ok " .. v end
function g_num(topic, v) return v end
function g_none(topic, v) return topic .. "=" .. tostring(v) .. tag_read("selfadd", 0) end
function g_big(topic, v) return string.rep("x" .. v .. "\\0", 700) end
"""
def ints(l): return struct.pack("<%di" % len(l), *l)
def infilters(c, bdir, steps):
    """messages that go through Lua functions: good values are written whole, bad ones change nothing"""
    b=Bed(c, bdir, "flt"); r=b.r
    try:
        for n, t, k in [("num", DINT, 1), ("arr", INT, 5), ("g1", DINT, 1), ("g2", INT, 3), ("g3", LREAL, 1), ("len", DINT, 4), ("l1", DINT, 1), ("l2", DINT, 1), ("l3", UDINT, 1), ("l4", DINT, 1), ("er", LINT, 1), ("self1", DINT, 1), ("self2", DINT, 1), ("selfadd", DINT, 1), ("chr", CHAR, 12), ("b1", DINT, 1), ("b2", INT, 3), ("b3", LREAL, 1), ("one", DINT, 1)]: b.tag(n, t, k)
        b.conf=FILTERS; val={}
        b.sub("f/num", "num", "f_num", r.randrange(3)); b.sub("f/arr", "arr", "f_arr"); b.sub("f/grp", ["g1", "g2", "g3"], "f_grp", 1); b.sub("f/len/#", "len", "f_len", 2); b.sub("f/+/grp", ["l1", "l2", "l3", "l4"], "f_len"); b.sub("f/err", ["er"], "f_err")
        b.sub("self/+", None, "f_self", 1); b.sub("f/chr", "chr", "f_chr"); b.sub("f/bad", ["b1", "b2", "b3"], "f_bad"); b.sub("f/one", ["one"], "f_bad")
        for n in b.idx: val[n]=b.get(n)
        b.start(); num=lambda: str(r.choice([0, 1, -1, 2147483647, -2147483648, r.randrange(-10**6, 10**6)])); sm=lambda: str(r.randrange(-32768, 32768)); pk=struct.pack
        for s in range(steps):
            k=r.randrange(11); sp=r.choice([0, 0, 0, 1, 2, 7]); q=r.choice([0, 0, 1, 2])
            if k == 0: x=num(); b.deliver("f/num", x.encode(), q, sp); val["num"]=pk("<i", int(x))
            elif k == 1:
                l=[sm() for _ in range(5)]
                if r.random() < 0.4:
                    for i in r.sample(range(1, 5), 2): l[i]="-"
                b.deliver("f/arr", ",".join(l).encode(), q, sp); old=list(struct.unpack("<5h", val["arr"])); val["arr"]=pk("<5h", *[old[i] if l[i] == "-" else int(l[i]) for i in range(5)])
            elif k == 2:
                l=[num(), sm(), sm(), sm(), str(r.randrange(-1000, 1000)+0.5)]; h=r.random()
                if h < 0.2: l[r.choice([0, 4])]="-"
                elif h < 0.4: l[3]="-"
                b.deliver("f/grp", ",".join(l).encode(), q, sp)
                if "-" not in (l[0], l[4]):
                    o=struct.unpack("<3h", val["g2"]); val["g1"]=pk("<i", int(l[0])); val["g2"]=pk("<3h", *[o[i] if l[1+i] == "-" else int(l[1+i]) for i in range(3)]); val["g3"]=pk("<d", float(l[4]))
                else: b.c.count("bad values")
            elif k in (3, 4):
                p=rnd(r, r.choice([0, 1, 2, 127, 128, 129, 1000, 20000])); tp="f/len"+r.choice(["", "/a", "/b/cc", "/x/y/z/"]) if k == 3 else "f/%s/grp" % r.choice(["", "one", "2"])
                h=0
                for x in p: h=(h*31+x) % 1000003
                b.deliver(tp, p, q, sp); l=[len(p), h, len(tp), ord(tp[-1])]
                if k == 3: val["len"]=ints(l)
                else:
                    for i in range(4): val["l%d" % (i+1)]=pk("<i", l[i])
            elif k == 5:
                x=num(); e=r.random() < 0.4; b.deliver("f/err", (("E" if e else "")+x).encode(), q, sp)
                if not e: val["er"]=pk("<q", int(x))
                else: b.c.count("filter errors")
            elif k in (6, 7):
                a=r.randrange(1000); b.sync(); b.put("selfadd", pk("<i", a)); val["selfadd"]=pk("<i", a); n=r.choice("12"); x=r.randrange(10**6); b.deliver("self/"+n, str(x).encode(), q, sp); val["self"+n]=pk("<i", x+a)
                if r.random() < 0.2: b.deliver("self/3", b"1", q)    # a tag that is not there: the filter fails
            elif k == 8: x=bytes(r.randrange(33, 127) for _ in range(12)); b.deliver("f/chr", x, q, sp); val["chr"]=x
            elif k == 9:
                x=r.choice(["nil", "str", "num", "short", "fun", "err", "good"]); b.deliver("f/bad", x.encode(), q, sp)
                if x == "good": val["b1"]=pk("<i", 4); val["b2"]=pk("<3h", 5, 6, 7); val["b3"]=pk("<d", 8.5)
                else: b.c.count("bad values")
            else:
                x=r.choice(["nil", "str", "num", "short", "err"]); b.deliver("f/one", x.encode(), q, sp)
                if x == "num": val["one"]=pk("<i", 7)
                else: b.c.count("bad values")
            if r.random() < 0.3:       # somebody else writes
                t=r.choice(["num", "arr", "arr", "g2", "g2", "g2", "g3", "b2", "chr", "one"]); b.sync(); x=bytes(r.randrange(33, 100) for _ in range(b.sz[t])); b.put(t, x); val[t]=x
            if r.random() < 0.5 or s == steps-1:
                b.sync()
                for t, v in val.items():
                    d=b.get(t)
                    if t not in ("sy", "syo") and d != v: raise Violation("filter", "step kind %d: tag %s has %s, should have %s" % (k, t, d.hex(), v.hex()))
            b.c.count("filtered messages"); b.c.case(("in", k))
        b.expect([], "nothing is to be published"); b.finish(signal.SIGTERM)
    finally: b.stop()

class Pub:
    """a publisher and what it must say"""
    def __init__(p, b, k):
        r=b.r; p.k=k; p.topic=r.choice(["out/%d", "o %d", "/p/%d/", "deep/er/%d"]) % k; p.qos=r.choice([0, 0, 1, 2]); p.ret=r.choice([None, True, False]); p.kind=r.choice(["raw", "rawgrp", "rawcdt", "rawbool", "fmt", "arr", "grp", "bin", "nil", "num", "none", "big"])
        one=lambda s, t=DINT, n=1: (b.tag("p%d%s" % (k, s), t, n), "p%d%s" % (k, s))[1]
        kd=p.kind
        if kd == "raw": p.tags=[one("a", r.choice(TYPES[:-1]), r.choice([1, 1, 2, 5, 40]))]
        elif kd == "rawbool": p.tags=[one("a", BOOL, r.choice([1, 3, 8, 9, 30]))]
        elif kd == "rawcdt": p.tags=[one("a", b.cdt, r.choice([1, 2]))]
        elif kd == "rawgrp": p.tags=[one("a", INT, 3), one("b", LREAL), one("c", b.cdt), one("d", BYTE, 5)][:r.randrange(2, 5)]
        elif kd == "arr": p.tags=[one("a", DINT, 4)]
        elif kd == "grp": p.tags=[one("a"), one("b", INT, 3), one("c", LREAL)]
        elif kd == "none": p.tags=[]
        else: p.tags=[one("a")]
        p.trig=None; p.type=None; p.value=None; w=r.random()
        if kd == "none" or w < 0.6:
            p.type=r.choice(["WRITE", "CHANGE", "EQUAL", "SET", "RESET", "GREATER", "LESS", None]); p.trig=one("t", BOOL if p.type in ("SET", "RESET") else DINT)
            if p.type == "RESET": b.put(p.trig, b"\1")
            if p.type in ("EQUAL", "GREATER", "LESS"): p.value=r.choice([0, 5, -3, 100000]); b.put(p.trig, struct.pack("<i", p.value+(7 if p.type != "GREATER" else -7)))
        elif w < 0.8: p.type=r.choice(["WRITE", "CHANGE"])
        b.pub(p.topic, None if not p.tags else p.tags[0] if len(p.tags) == 1 and r.random() < 0.5 else p.tags, None if kd.startswith("raw") else "g_"+kd, p.qos, p.ret, p.trig, p.type, None if p.value is None else r.choice(["%d", '"%d"']) % p.value)
    def text(p, b):
        """what would be published now, None for nothing"""
        kd=p.kind; v=[b.get(t) for t in p.tags]; i=lambda d: struct.unpack("<%di" % (len(d)//4), d)
        if kd.startswith("raw"): return b"".join(v)
        if kd == "fmt": return b"v=%d" % i(v[0])
        if kd == "arr": return p.topic.encode()+b":"+",".join(map(str, i(v[0]))).encode()
        if kd == "grp": return b"%d;%d,%d,%d;%.3f" % (i(v[0])+struct.unpack("<3h", v[1])+struct.unpack("<d", v[2]))
        if kd == "bin": return v[0]+b"\0\xff\0"+p.topic.encode()
        if kd == "nil": n=i(v[0])[0]; return b"ok %d" % n if n % 4 == 3 else None
        if kd == "num": return b"%d" % i(v[0])
        if kd == "none": return b"%s=nil%d" % (p.topic.encode(), i(b.get("selfadd"))[0])
        if kd == "big": return (b"x%d\0" % i(v[0]))*700
    def msg(p, b):
        t=p.text(b); return [] if t is None else [(p.topic, t, p.qos, 1 if p.ret else 0)]
    def newval(p, b, t):
        r=b.r; n=b.sz[t]
        if p.kind.startswith("raw"):
            d=bytearray(rnd(r, n))
            if t in b.bools: d[-1]&=b.bools[t]
            return bytes(d)
        if t.endswith("c"): return struct.pack("<d", r.randrange(-10**6, 10**6)/8)
        if n == 4: return struct.pack("<i", r.randrange(-2**31, 2**31) if r.random() < 0.3 else r.randrange(-100, 100))
        return rnd(r, n)

def outpubs(c, bdir, steps):
    """every trigger publishes one message with the present values; nothing else does"""
    b=Bed(c, bdir, "pub"); r=b.r
    try:
        b.conf=FILTERS; b.tag("selfadd", DINT); pubs=[Pub(b, k) for k in range(r.choice([6, 12, 20, 40]))]; b.start(); b.outsync()
        for s in range(steps):
            p=r.choice(pubs); want=[]
            for t in p.tags[1:] if p.trig is None else p.tags:       # does not trigger anything
                if r.random() < 0.7: b.put(t, p.newval(b, t))
            if r.random() < 0.3: b.put("selfadd", struct.pack("<i", r.randrange(1000)))
            x=p.trig or p.tags[0]; ty=p.type or "WRITE"
            if ty == "WRITE" or ty == "CHANGE":
                n=r.choice([1, 1, 1, 2, 4]) if p.kind != "big" and ty == "WRITE" else 1; old=b.get(x)
                if p.trig: v=struct.pack("<i", r.randrange(-50, 50))
                else: v=p.newval(b, x)
                if ty == "CHANGE" and r.random() < 0.3: v=old
                if n > 1 and p.trig is None: v=old
                part=r.randrange(len(v)) if p.trig is None and n == 1 and len(v) > 8 and r.random() < 0.3 and p.kind.startswith("raw") and p.kind != "rawbool" else 0
                if part: v=v[part:]
                for _ in range(n): b.put(x, v, part)
                if ty == "WRITE" or b.get(x) != old: want=p.msg(b)*n
            elif ty in ("SET", "RESET"):
                old=b.get(x)[0] & 1; v=r.randrange(2); b.put(x, bytes([v]))
                if v != old and v == (ty == "SET"): want=p.msg(b)
            else:
                old=struct.unpack("<i", b.get(x))[0]; v=p.value+r.choice([-1, 0, 1, 1, -1, 40]); b.put(x, struct.pack("<i", v)); sat=lambda z: z == p.value if ty == "EQUAL" else z > p.value if ty == "GREATER" else z < p.value
                if sat(v) and not sat(old): want=p.msg(b)
            b.expect(want, "%s publisher %s, trigger %s of %s" % (p.kind, p.topic, ty, x)); b.c.case(("out", p.kind, ty, bool(want))); b.c.count("triggers")
        b.finish(signal.SIGTERM)
    finally: b.stop()

def topics(c, bdir, steps):
    """many subscriptions with wildcards: a message goes to the first one that matches and to no other"""
    b=Bed(c, bdir, "top"); r=b.r; lv=["a", "b", "c", "", "dd", "e f", "+x".replace("+", "p"), "0"]
    try:
        subs=[]; n=r.choice([10, 20, 36, 70])
        for k in range(n):
            parts=[r.choice(lv) if r.random() < 0.7 else "+" for _ in range(r.randrange(1, 5))]
            if k % 7 == 3: parts=["s%d" % k]+parts[:1]+["#"]
            elif k % 7 == 5: parts=["w%d" % k, "+"]
            elif r.random() < 0.8: parts[0]="s%d" % k
            if r.random() < 0.25: parts=parts[:3]+["#"]
            t="/".join(parts)
            if not t.strip("/") or t[0] in "#+" and k < n-3: t="only/%d" % k
            if t in [x for x, _ in subs]: t="uniq/%d/+" % k
            subs.append((t, "n%d" % k)); b.tag("n%d" % k, DINT)
        if r.random() < 0.5: t=r.choice(["#", "+/#", "+/+"]); subs.append((t, "nall")); b.tag("nall", DINT)
        b.sub("sync/in", "sy"); b.pub("sync/out", "syo")
        for t, g in subs: b.sub(t, g, None, r.choice([None, 0, 1, 2]))
        b.gen=1; b.start(sync=False); b.live(); b.wait(lambda: len(b.br.subs) >= len(subs)+1, 30, lambda: "%d of %d subscriptions were made" % (len(b.br.subs), len(subs)+1), "nosub")
        time.sleep(0.05); val={g: b.get(g) for _, g in subs}
        for s in range(steps):
            t, g=r.choice(subs); p=t.split("/")
            if p[-1] == "#": p=p[:-1]+[r.choice(lv+["zz"]) for _ in range(r.randrange(0, 3))]
            p=[r.choice(lv+["any", "+".replace("+", "plus")]) if x == "+" else x for x in p]
            if r.random() < 0.2 and p: p[r.randrange(len(p))]=r.choice(lv)
            if r.random() < 0.1: p.append(r.choice(lv))
            topic="/".join(p)
            if not topic or topic == "sync/in": continue
            want=[h for u, h in subs if match(u, topic)]; v=struct.pack("<i", s+1)
            sent=b.br.deliver(topic, v, r.randrange(3))
            if not want: continue
            if not sent: b.check(); raise Violation("nosub", "topic %s cannot be delivered" % topic)
            val[want[0]]=v; b.c.count("topics"); b.c.case(("top", len(want) if len(want) < 3 else 3, "#" in t, "+" in t, topic.count("/")))
            if r.random() < 0.4 or s == steps-1:
                b.sync()
                for u, h in subs:
                    d=b.get(h)
                    if d != val[h]: raise Violation("topic", "after a message on %r the tag of subscription %r has %d, should have %d (first match: %r)" % (topic, u, struct.unpack("<i", d)[0], struct.unpack("<i", val[h])[0], [x for x, y in subs if match(x, topic)][:2]))
        b.finish(signal.SIGTERM)
    finally: b.stop()

def reconnect(c, bdir, rounds):
    """the broker goes and comes: everything works again afterwards; tags that come late; credentials; retained messages"""
    b=Bed(c, bdir, "rec"); r=b.r
    try:
        b.conf=FILTERS; b.tag("a", DINT); b.tag("b", INT, 3); b.tag("k", DINT); b.tag("o", DINT); b.tag("rt", DINT)
        user=r.choice([None, "user name", "u"]); pw=r.choice(["secret", "p w"]) if user else None; cid=r.choice(["p28", "Client %d" % r.randrange(99)]); b.attrs='clientid="%s"\n' % cid+('username="%s"\npassword="%s"\n' % (user, pw) if user else "")
        b.sub("in/a", "a", None, 1); b.sub("in/b", ["b", "k"]); b.pub("out/o", "o", "g_fmt", 2); b.tag("gt", DINT); b.pub("out/g", ["a", "k"], trigger="gt"); cnt=[0]; b.sub("late/in", ["lt", "a"], None, 2); b.pub("late/out", ["o", "lo"], trigger="lo"); b.sub("never/in", "nevertag"); b.sub("banned", "a"); b.pub("late/trig", "o", None, 0, None, "ltrig"); b.sub("ret/+", "rt", None, 1)
        b.br.ban.add("banned"); b.br.early=r.random() < 0.5; b.br.retained["ret/1"]=struct.pack("<i", 77)
        if r.random() < 0.4: b.br.refuse=r.randrange(1, 3)
        b.start(); n0=len(b.br.connects)
        def creds():
            for x in b.br.connects:
                if x["name"] not in (b"MQTT", b"MQIsdp") or x["id"] != cid.encode() or x["user"] != (user.encode() if user else None) or x["pw"] != (pw.encode() if pw else None): raise Violation("connect", "the broker was asked for a connection with %r, configured id %r user %r password %r" % (x, cid, user, pw))
        def both(i):
            v=rnd(r, 4); w=rnd(r, 10); b.deliver("in/a", v, 1); b.deliver("in/b", w); b.sync()
            if b.get("a") != v or b.get("b")+b.get("k") != w: raise Violation("payload", "round %d: tags do not have what was delivered" % i)
            x=r.randrange(10**6); b.put("o", struct.pack("<i", x)); b.expect([("out/o", b"v=%d" % x, 2, 0)], "round %s" % i)
            b.put("gt", rnd(r, 4)); b.expect([("out/g", v+b.get("k"), 0, 0)], "round %s" % i); g=sum(1 for m in b.br.msgs if m[0] == "out/g"); cnt[0]+=1
            if g != cnt[0]: raise Violation("spurious", "round %s: out/g has been published %d times, it was triggered %d times" % (i, g, cnt[0]))
        b.wait(lambda: b.get("rt") == struct.pack("<i", 77), 15, "a retained message sent with the subscription never arrives at its tag", "retained")
        creds(); both(0)
        late=rounds-1 if not REC[0] or r.random() < 0.6 else 0; REC[0]+=1
        for i in range(rounds):
            asked=len(b.br.sublog); down=r.random() < 0.3; v=struct.pack("<i", 100+i); b.br.retained["ret/1"]=v
            if down: b.br.down(); b.put("o", rnd(r, 4)); time.sleep(r.uniform(0, 1)); b.br.again()
            else:
                b.br.refuse=r.choice([0, 0, 0, 1]); b.br.drop()
                if r.random() < 0.5: b.put("o", rnd(r, 4))
            b.wait(lambda: len(b.br.connects) > n0 and b.br.up and "in/b" in b.br.subs and "in/a" in b.br.subs and "ret/+" in b.br.subs, 60, lambda: "after the connection was lost the module has %s and is subscribed to %s" % ("a connection" if b.br.up else "no connection", sorted(b.br.subs)), "reconnect")
            n0=len(b.br.connects); b.live(); both(i+1); b.wait(lambda: b.get("rt") == v, 15, "a retained message sent with the renewed subscription never arrives at its tag", "retained"); c.count("reconnections")
            if i == late: b.tag("lt", DINT); b.tag("lo", DINT); b.tag("ltrig", DINT); lt=time.time()
        b.wait(lambda: "late/in" in b.br.subs, max(20, lt+40-time.time()), "a subscription whose tag came late is never made", "late")
        t0=time.time(); got=set()
        while got != {"late/out", "late/trig"}:
            b.put("lo", rnd(r, 4)); b.put("ltrig", rnd(r, 4)); o=b.outsync(); d={"late/out": b.get("o")+b.get("lo"), "late/trig": b.get("o")}
            for m in o:
                if m[0] not in d or m[1] != d[m[0]]: raise Violation("late", "a late publisher says %r" % (m,))
                got.add(m[0])
            if time.time()-t0 > 40: raise Violation("late", "publishers whose tags came late publish nothing (%s did)" % sorted(got))
            time.sleep(0.2)
        w=rnd(r, 8); b.deliver("late/in", w, 2); b.sync()
        if b.get("lt")+b.get("a") != w: raise Violation("late", "the late subscription does not write its tags")
        both("last"); creds(); c.count("late tags"); b.finish(signal.SIGINT)
    finally: b.stop()

def crowd(c, bdir, secs):
    """messages stream in through filters while others are published through filters: each is what its own function made of it"""
    b=Bed(c, bdir, "crowd"); r=b.r
    try:
        b.conf=FILTERS+"""
function h_in(topic, p) local t = {} for i = 1, 40 do t[i] = p .. "," .. i end local s = table.concat(t, ";") return {tonumber(p), #s, tonumber(string.match(topic, "(%d+)$"))} end
function h_out(topic, v) local t = {} for i = 1, 40 do t[i] = v .. ":" .. i end return topic .. "|" .. table.concat(t, "/") end
"""
        for k in range(3): b.tag("c%d" % k, DINT); b.tag("d%d" % k, DINT); b.tag("e%d" % k, DINT); b.tag("o%d" % k, DINT); b.sub("h/in%d" % k, ["c%d" % k, "d%d" % k, "e%d" % k], "h_in", k); b.pub("h/out%d" % k, "o%d" % k, "h_out", k)
        b.start(); stop=[False]; last={}; bad=[]
        def feed():
            q=random.Random(1); i=0
            while not stop[0]:
                i+=1; k=q.randrange(3)
                if not b.br.deliver("h/in%d" % k, str(i).encode(), q.choice([0, 0, k])): bad.append(i); return
                last[k]=i; c.count("crowd in")
                if i % 16 == 0: time.sleep(0.001)
        th=threading.Thread(target=feed, daemon=True); th.start(); end=time.time()+secs; n=0
        while time.time() < end and not bad:
            k=r.randrange(3); n+=1; b.put("o%d" % k, struct.pack("<i", n)); want="h/out%d|" % k+"/".join("%d:%d" % (n, i) for i in range(1, 41)); f=lambda: len(b.br.msgs) > b.pos
            if not b.br.wait(f, 30): b.check(); raise Violation("nopub", "message %d is never published" % n)
            m=b.br.msgs[b.pos]; b.pos+=1
            if m[0] != "h/out%d" % k or m[1] != want.encode() or m[2] != k: raise Violation("crowd", "published %r, should be %r" % (m[:3], ("h/out%d" % k, want, k)))
            c.count("crowd out")
        stop[0]=True; th.join(40)
        if bad: b.check(); raise Violation("nosub", "message %d was not accepted" % bad[0])
        def settled():
            for k, i in last.items():
                ln=40*(len(str(i))+1)+9+62+39
                if [b.get("%s%d" % (x, k)) for x in "cde"] != [struct.pack("<i", z) for z in (i, ln, k)]: return False
            return True
        b.wait(settled, 60, lambda: "at the end the tags have %s, the last messages were %s" % ([struct.unpack("<i", b.get("%s%d" % (x, k)))[0] for k in last for x in "cde"], last), "crowd")
        b.expect([], "after the crowd"); b.finish(signal.SIGTERM)
    finally: b.stop()

BAD=["add_sub()", "add_sub(1)", "add_sub({})", "add_sub({topic={}})", "add_sub({topic=true, tags='a'})", "add_sub({topic='x', tags={{}}})", "add_sub({topic='x', tags={true}})", "add_sub({topic='x', tags=true})", "add_sub({topic='x', tags='a', filter=1})", "add_sub({topic='x'})", "add_sub({topic='x', tags={}})", "add_sub({topic='', tags='a'})", "add_sub({topic='a#b/#/c', tags='a'})",
     "add_pub()", "add_pub('x')", "add_pub({})", "add_pub({topic={}, tags='a'})", "add_pub({topic='x', tags={{}}})", "add_pub({topic='x', tags=print})", "add_pub({topic='x'})", "add_pub({topic='x', tags={}})", "add_pub({topic='x', tags='a', filter='f'})", "add_pub({topic='x', tags='a', trigger_tag={}})", "add_pub({topic='x', tags='a', trigger_tag='a', trigger_type=EQUAL, trigger_value={}})", "add_pub({topic='x', tags='a', trigger_type=EQUAL, trigger_value='abc'})", "add_pub({topic='x', tags='a', trigger_type=77})",
     "add_pub({topic='x', tags='a[9999]'})", "add_sub({topic='x', tags='a[9999]'})", "add_sub({topic='x', tags={'a', 'a.b.c'}})", "add_pub({topic='x', filter=function() return 'x' end, trigger_tag='a'})", "add_sub({topic='x', filter=function() error('x') end})", "add_sub({topic='x', tags={'big', 'big'}})", "add_pub({topic='x', tags={'big', 'big'}, trigger_tag='a'})", "add_pub({topic='x/+', tags='a'})", "add_pub({topic='', tags='a'})", "syntax error here", "error('x')", "for i=1,100 do add_sub({topic='t'..i, tags='a'}) add_pub({topic='t'..i, tags='a'}) end"]
def odd(c, bdir, n):
    """configurations that make no sense are refused or left out; never a crash, and what makes sense goes on"""
    r=c.rng
    for x in r.sample(BAD, n):
        b=Bed(c, bdir, "odd")
        try:
            b.tag("a", DINT); b.tag("big", BYTE, 40000); b.sub("sync/in", "sy"); b.pub("sync/out", "syo"); b.conf+=x+"\n"; b.gen=1; b.start(sync=False); t0=time.time()
            while time.time()-t0 < 25:
                if b.p.poll() is not None or "sync/in" in b.br.subs: break
                time.sleep(0.01)
            if b.p.poll() is not None:
                if b.p.returncode < 0 or b.p.returncode in (66, 99, 134, 139) or core.san_report(b.log): b.check()
                if b.p.returncode == 0: raise Violation("config", "with %s the module ends as if all were well" % x)
                c.count("refused configurations")
            else: b.live(); b.put("a", b"\1\0\0\0"); b.br.deliver("x", b"12345678"); b.sync(); b.outsync(); c.count("configurations left running")
            c.case(("odd", x))
        finally: b.stop()

def body(c):
    bdir=core.build("asan", ["tagserver", "mqtt_module"])
    for k in range(c.n(2, 12)): c.run("raw%d" % k, raw, c, bdir, c.n(120, 600))
    for k in range(c.n(1, 8)): c.run("filters%d" % k, infilters, c, bdir, c.n(250, 800))
    for k in range(c.n(3, 16)): c.run("publish%d" % k, outpubs, c, bdir, c.n(150, 500))
    for k in range(c.n(2, 10)): c.run("topics%d" % k, topics, c, bdir, c.n(200, 800))
    for k in range(c.n(2, 10)): c.run("reconnect%d" % k, reconnect, c, bdir, c.n(4, 10))
    c.run("crowd", crowd, c, bdir, c.n(6, 60))
    c.run("odd", odd, c, bdir, c.n(12, len(BAD)))

if __name__ == "__main__": core.main("P28", "random configurations, messages and triggers against a model of the MQTT module", body)
