import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import struct, datetime, math
from vf import core
from vf.core import Violation, Drv, hx, uhx
from vf.proto import *
INTS=[BYTE, SINT, WORD, UINT, INT, DWORD, UDINT, DINT, LWORD, ULINT, LINT]
def lim(t):
    n=tsize(t)*8; return (0, 2**n-1) if FMT[t] in "BHIQ" else (-2**(n-1), 2**(n-1)-1)
OVERFLOW, UNDERFLOW=-24, -25
def civil(days):
    """days since 1970 -> proleptic Gregorian year, month, day, any range"""
    z=days+719468; era=z//146097; doe=z-era*146097; yoe=(doe-doe//1460+doe//36524-doe//146096)//365
    y=yoe+era*400; doy=doe-(365*yoe+yoe//4-yoe//100); mp=(5*doy+2)//153; d=doy-(153*mp+2)//5+1; m=mp+3 if mp < 10 else mp-9
    return y+(m <= 2), m, d
def timetext(v):
    s, ms=divmod(v, 1000); days, sec=divmod(s, 86400); y, m, d=civil(days)
    return "%d-%02d-%02dT%02d:%02d:%02d.%03d" % (y, m, d, sec//3600, sec//60 % 60, sec % 60, ms)
def pack(t, v): return struct.pack("<"+FMT[t], v)
class W:
    def __init__(w, c, exe, srv): w.c=c; w.r=c.rng; w.d=Drv(exe, c.base, srv, "d")
    def bad(w, k, m): raise Violation(k, m)
    def texts(w, t, vals):
        """every value to text; yields (value, text)"""
        r=w.r; cmds=[]; meta=[]
        for v in vals:
            n=r.choice([1, 1, 2, 5]); i=r.randrange(n)
            if t == BOOL:
                n=r.choice([1, 8, 13, 40]); i=r.randrange(n); x=r.getrandbits((n+7)//8*8); x=x & ~(1 << i) | v << i; b=x.to_bytes((n+7)//8, "little")
            else: b=b"".join(v if k == i else r.getrandbits(tsize(t)*8).to_bytes(tsize(t), "little") for k in range(n))
            bs=r.choice([64, 64, 64, 256, 33]); cmds.append(("v2s", t, i, bs, hx(b))); meta.append(v)
        for v, (a, o) in zip(meta, w.d.batch(cmds)):
            if int(o[0]): w.bad("text:refused", "value %r of type 0x%x not converted (%s)" % (v, t, o[0]))
            yield v, uhx(o[1])
    def vals(w, t, items):
        """text to value: items (text, expected bytes or None, expected result or None)"""
        r=w.r; cmds=[]; meta=[]
        for s, want, res in items:
            if t == BOOL:
                n=r.choice([1, 8, 13, 40]); i=r.randrange(n); nb=(n+7)//8
            else: n=r.choice([1, 2, 4]); i=r.randrange(n); nb=n*tsize(t)
            b=r.getrandbits(8*nb).to_bytes(nb, "little"); m=(r.getrandbits(8*nb) if r.random() < 0.3 else 0).to_bytes(nb, "little") if r.random() < 0.8 else None
            cmds.append(("s2v", t, i, hx(s), hx(b), hx(m))); meta.append((s, want, res, n, i, b, m))
        for (s, want, res, n, i, b, m), (a, o) in zip(meta, w.d.batch(cmds)):
            rr=int(o[0]); nb=uhx(o[1]); what="text %r as %s at index %d" % (s, NAMES[t], i)
            if res is not None and rr != res: w.bad("value:result", "%s returned %d, expected %d" % (what, rr, res))
            if t == BOOL:
                bit=1 << i; x=int.from_bytes(nb, "little"); y=int.from_bytes(b, "little")
                if (x ^ y) & ~bit: w.bad("value:other", "%s changed other bits: %s to %s" % (what, b.hex(), nb.hex()))
                if want is not None and (x >> i & 1) != want: w.bad("value:wrong", "%s gave %d" % (what, x >> i & 1))
                mm=bit
            else:
                e=tsize(t); lo, hi=i*e, i*e+e
                if nb[:lo] != b[:lo] or nb[hi:] != b[hi:]: w.bad("value:other", "%s changed other elements: %s to %s" % (what, b.hex(), nb.hex()))
                if want is not None and nb[lo:hi] != want: w.bad("value:wrong", "%s gave %s, expected %s" % (what, nb[lo:hi].hex(), want.hex()))
                mm=((1 << 8*e)-1) << 8*lo
            if m is not None and int.from_bytes(uhx(o[2]), "little") != int.from_bytes(m, "little") | mm: w.bad("value:mask", "%s: mask %s became %s" % (what, m.hex(), o[2]))
            w.c.case((t, s)); w.c.count("texts_converted")
            yield s, nb if t == BOOL else nb[i*tsize(t):(i+1)*tsize(t)]
    def all(w, t, items):
        for _ in w.vals(t, items): pass
def ints(r, t, n):
    lo, hi=lim(t)
    if tsize(t) == 1: return list(range(lo, hi+1))
    if tsize(t) == 2 and n > 3000: return list(range(lo, hi+1))
    v=[lo, lo+1, hi, hi-1, 0, 1, 2, 9, 10, 99, 100]+[x for x in (-1, -2, -10, -128, -129) if x >= lo]
    for k in range(tsize(t)*8):
        for d in (-1, 0, 1):
            if lo <= (1 << k)+d <= hi: v.append((1 << k)+d)
            if lo <= -(1 << k)+d <= hi: v.append(-(1 << k)+d)
    for k in range(20):
        for d in (-1, 0, 1):
            for s in (1, -1):
                if lo <= s*10**k+d <= hi: v.append(s*10**k+d)
    while len(v) < n: v.append(max(lo, min(hi, r.choice([1, -1])*r.getrandbits(r.randrange(1, tsize(t)*8+1)))))
    return v
def integers(c, exe, srv, n):
    w=W(c, exe, srv); r=c.rng
    for t in INTS:
        vs=ints(r, t, n); back=[]
        for v, s in w.texts(t, [pack(t, v) for v in vs]):
            want=str(struct.unpack("<"+FMT[t], v)[0]).encode()
            if s != want: w.bad("text:wrong", "%s value %s converted to %r" % (NAMES[t], want.decode(), s))
            back.append((s.decode(), v, 0)); c.count("values_converted")
        w.all(t, back)
        lo, hi=lim(t); items=[]
        for v in r.sample(vs, min(len(vs), n//4)):
            k=r.randrange(5)
            s=["+%d" % v if v >= 0 else "%d" % v, " %d" % v, ("-0x%x" % -v if v < 0 else "0x%X" % v), ("-0%o" % -v if v < 0 else "0%o" % v), "\t%d" % v][k]
            if t in (LWORD, ULINT) and v < 0: continue
            items.append((s, pack(t, v), 0))
        for d in [1, 2, 10, 255, 65535, 65536, 2**31, 2**32, 2**40, 2**63, 2**64, 2**70, 10**30]+[r.getrandbits(r.randrange(1, 90))+1 for _ in range(n//20)]:
            items.append((str(hi+d), pack(t, hi), OVERFLOW)); items.append((str(lo-d), pack(t, lo), UNDERFLOW))
            if d < 2**60: items.append((hex(hi+d), pack(t, hi), OVERFLOW))
        for s in ("junk", "", "--1", ".5", "1e3", "12abc", "0x", "9"*200, "-"): items.append((s, None, None))
        w.all(t, items)
    # bits
    for v, s in w.texts(BOOL, [r.randrange(2) for _ in range(200)]):
        if s != b"%d" % v: w.bad("text:wrong", "BOOL %d converted to %r" % (v, s))
        c.count("values_converted")
    w.all(BOOL, [(s, x, 0) for s, x in (("0", 0), ("1", 1), ("2", 1), ("-1", 1), ("0x0", 0), ("0x10", 1), ("00", 0), ("256", 1), ("65536", 1), ("4294967296", 1), ("-0", 0))*8])
    # characters
    back=[]
    for v, s in w.texts(CHAR, [bytes([x]) for x in range(256)]*2):
        if s != (v if v != b"\0" else b""): w.bad("text:wrong", "character %s converted to %r" % (v.hex(), s))
        back.append((s.decode("latin1"), v, 0)); c.count("values_converted")
    w.all(CHAR, back)
    w.all(CHAR, [("65", b"A", 0), ("-128", b"\x80", 0), ("127", b"\x7f", 0), ("128", b"\x7f", OVERFLOW), ("-129", b"\x80", UNDERFLOW), ("0x41", b"A", 0), ("1000000", b"\x7f", OVERFLOW), ("9"*40, b"\x7f", OVERFLOW)])
    w.d.close()
def floats(c, exe, srv, n):
    w=W(c, exe, srv); r=c.rng
    for t, bits, eb, dig in ((REAL, 32, 8, 8), (LREAL, 64, 11, 16)):
        f="<"+FMT[t]; vs=[]
        for x in (0.0, -0.0, 1.0, -1.0, 0.1, 1/3, 2.5, 1e10, 1e-10, 123456.789, math.inf, -math.inf): vs.append(pack(t, x))
        nb=bits//8
        for x in (1, 0x7f7ffff0 if bits == 32 else 0x7fe1234567890abc, 0x00800000 if bits == 32 else 0x0010000000000000, 2): vs.append(x.to_bytes(nb, "little"))
        while len(vs) < n:
            b=r.getrandbits(bits).to_bytes(nb, "little"); x=struct.unpack(f, b)[0]
            if x == x and abs(x) < (3.4e38 if t == REAL else 1.79e308): vs.append(b)
            vs.append(pack(t, r.choice([r.uniform(-100, 100), r.randrange(-10**6, 10**6)/1000, float(r.randrange(-10**7, 10**7))])))
        sent=[]
        for v, s in w.texts(t, vs):
            x=struct.unpack(f, v)[0]; y=float(s)
            if not (x == y or abs(x-y) <= abs(x)*0.6*10**(1-dig)): w.bad("text:wrong", "%s %r converted to %r" % (NAMES[t], x, s))
            if x == 0 and math.copysign(1, x) != math.copysign(1, y): w.bad("text:wrong", "%r converted to %r" % (x, s))
            sent.append((s.decode(), v)); c.count("values_converted")
        for (s, v), (s2, b) in zip(sent, w.vals(t, [(s, None, 0) for s, v in sent])):
            x=struct.unpack(f, v)[0]; y=struct.unpack(f, b)[0]
            if not (x == y or abs(x-y) <= abs(x)*1.2*10**(1-dig) or abs(x) < (1e-36 if t == REAL else 1e-300) and abs(x-y) <= (1e-44 if t == REAL else 1e-323)): w.bad("roundtrip", "%s %r came back as %r via %r" % (NAMES[t], x, y, s))
            if abs(x) < 1e7 and x == int(x) and y != x: w.bad("roundtrip", "%r came back as %r via %r" % (x, y, s))
        w.all(t, [(s, pack(t, x), 0) for s, x in (("1", 1.0), ("-2.5", -2.5), ("1e3", 1000.0), (" 4", 4.0), ("+0.5", 0.5), ("0x10", 16.0), ("1e0", 1.0), (".5", 0.5), ("5.", 5.0))])
        w.all(t, [("nan", None, 0), ("junk", None, None), ("", None, None)])
    w.d.close()
def times(c, exe, srv, n):
    w=W(c, exe, srv); r=c.rng
    vs=[0, 1, -1, 999, 1000, -999, -1000, -1001, 86400000, -86400000, 951782400000, 951868799999, 951868800000, 4107542400000, 2**31*1000, (2**31-1)*1000, -(2**31)*1000-1, 253402300799999, 253402300800000, -62135596800000, -62135596800001, 2**53, 1582934400000, 68169600000]
    while len(vs) < n: vs.append(r.choice([1, -1])*r.getrandbits(r.choice([10, 31, 36, 41, 41, 41, 43, 45, 47])))
    vs=[v for v in vs if -62135596800000 <= v <= 2**56]
    back=[]
    for v, s in w.texts(TIME, [struct.pack("<q", v) for v in vs]):
        x=struct.unpack("<q", v)[0]; want=timetext(x).encode()
        if s != want: w.bad("text:wrong", "time %d converted to %r, expected %r" % (x, s, want))
        back.append((s.decode(), v, 0)); c.count("values_converted")
    w.all(TIME, back)
    items=[]
    for v in r.sample(vs, min(len(vs), n//3)): items.append((str(v), struct.pack("<q", v), 0)); items.append((timetext(v//1000*1000)[:-4], struct.pack("<q", v//1000*1000), 0))
    items+=[(str(2**63-1), struct.pack("<q", 2**63-1), 0), (str(-2**63), struct.pack("<q", -2**63), 0), (str(2**63), struct.pack("<q", 2**63-1), OVERFLOW), (str(-2**63-1), struct.pack("<q", -2**63), UNDERFLOW), ("9"*30, struct.pack("<q", 2**63-1), OVERFLOW)]
    items+=[(s, None, None) for s in ("", "junk", "2020-01-01", "2020-01-01T", "2020-01-01T10:00", "99999999999-1-1T1:1:1", "2147483647-99-99T99:99:99.999", "-2147483648-1-1T0:0:0")]
    w.all(TIME, items)
    w.d.close()
def bounds(c, exe, srv, n):
    """small output buffers: terminated, never overrun, a prefix of the full text"""
    w=W(c, exe, srv); r=c.rng
    for k in range(n):
        t=r.choice(BASE); b=r.getrandbits(64).to_bytes(8, "little") if t != TIME else struct.pack("<q", r.getrandbits(44))
        if t == BOOL: b=b[:1]
        b=b[:max(1, tsize(t))] if t != BOOL else b
        full=w.d.cmd("v2s", t, 0, 128, hx(b)); bs=r.randrange(1, 30); o=w.d.cmd("v2s", t, 0, bs, hx(b))
        s=uhx(o[1])
        if len(s) >= bs: w.bad("text:unterminated", "%s into %d bytes is not terminated: %r" % (NAMES[t], bs, s))
        if t != TIME and not uhx(full[1]).startswith(s): w.bad("text:prefix", "%s into %d bytes gave %r instead of a prefix of %r" % (NAMES[t], bs, s, uhx(full[1])))
        c.case(("small", t, bs)); c.count("small_buffers")
    w.d.close()
def names(c, exe, srv):
    w=W(c, exe, srv); d=w.d
    if d.connect(): w.bad("connect", "client does not connect")
    for t, n in NAMES.items():
        if uhx(d.cmd("t2s", t)[0]).decode() != n: w.bad("name:type", "type 0x%x is called %s" % (t, d.cmd("t2s", t)))
        for x in (n, n.lower(), n.capitalize()):
            if d.i("s2t", hx(x)) != t: w.bad("name:type", "%s gives type %s" % (x, d.cmd("s2t", hx(x))))
        if d.i("typesize", t) != max(1, tsize(t) if t != BOOL else 1): w.bad("name:size", "size of %s is %s" % (n, d.cmd("typesize", t)))
        c.case(n)
    for t in range(256):
        v=d.cmd("t2s", t)[0]
        if (v != "-") != (t in NAMES): w.bad("name:unknown", "type 0x%x is called %s" % (t, v))
        c.case(("type", t))
    for s in ("", "NOSUCH", "DINTX", "DIN", " DINT", "INT8", "STRING"):
        if d.i("s2t", hx(s)) != 0: w.bad("name:unknown", "%r is a type" % s)
    E=["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND", "DELETED"]
    for k, n in enumerate(E):
        v=d.cmd("e2s", k+2)[0]
        if v == "-" or uhx(v).decode() != n: w.bad("name:event", "event %d is called %s, not %s" % (k+2, v, n))
        for x in (n, n.lower()):
            if d.i("s2e", hx(x)) != k+2: w.bad("name:event", "event %s is %s" % (x, d.cmd("s2e", hx(x))))
        c.case(n)
    for k in (0, 11, 12, 100, -1):
        if d.cmd("e2s", k)[0] != "-": w.bad("name:event", "event type %d has a name" % k)
    for s in ("", "WRITES", "WRIT", "NONE"):
        if d.i("s2e", hx(s)) > 0: w.bad("name:event", "%r is an event" % s)
    seen={}
    for k in range(0, -32, -1):
        v=uhx(d.cmd("errstr", k)[0]).decode()
        if v in seen: w.bad("name:error", "errors %d and %d are both %r" % (k, seen[v], v))
        seen[v]=k; c.case(("err", k))
    T=["MINOR", "MAJOR", "WARN", "ERROR", "FATAL", "MODULE", "COMM", "MSG", "MSGERR", "CONFIG", "PROTOCOL", "INFO", "DEBUG"]
    for k in range(60):
        l=[x for x in T if c.rng.random() < 0.3]; v=d.i("topics", hx(",".join(l))) & 0xFFFFFFFF
        want=sum(1 << T.index(x) for x in l)
        if v != want: w.bad("name:topic", "log topics %s give 0x%x" % (l, v))
        c.case(tuple(l))
    if d.i("topics", hx("ALL")) & 0xFFFFFFFF != 0xFFFFFFFF: w.bad("name:topic", "ALL is not every topic")
    d.close()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    srv=core.Server(b, c.base, "srv").start()
    c.samples+=["INT 32768 -> 32767 OVERFLOW", "-1 -> TIME 1969-12-31T23:59:59.999", timetext(951868799999)]
    c.run("integers", integers, c, exe, srv, c.n(2000, 70000)); c.run("floats", floats, c, exe, srv, c.n(6000, 60000))
    c.run("times", times, c, exe, srv, c.n(4000, 60000)); c.run("bounds", bounds, c, exe, srv, c.n(2000, 20000)); c.run("names", names, c, exe, srv)
    srv.kill9()
core.main("P15", "one evaluation per text converted to a value (buffer, mask and result compared), small buffer or name; every value was first converted to text; distinct ones differ in type and text", body)
