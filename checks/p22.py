import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ctypes, math, struct, subprocess, threading
from vf import core, layout
from vf.core import Violation, Died
from vf.proto import *
serial=0
class LuaErr(Exception): pass
class Lua:
    """Lua interpreters with the dax package, in their own sanitized process"""
    def __init__(s, exe, base, name, timeout=60):
        s.log=os.path.join(base, "lua.%s.log" % name); s.timeout=timeout; s.last=""
        s.p=core.spawn([exe], base, s.log, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def run(s, chunk, k=0):
        if isinstance(chunk, str): chunk=chunk.encode("latin1")
        s.last=chunk.decode("latin1")
        try: s.p.stdin.write(b"%d %d\n" % (k, len(chunk))+chunk); s.p.stdin.flush()
        except OSError: s.dead()
        t=threading.Timer(s.timeout, s.p.kill); t.start(); l=s.p.stdout.readline(); t.cancel()
        if not l.endswith(b"\n"): s.dead()
        st, v=l.decode().split(); v=b"" if v == "." else bytes.fromhex(v)
        if st == "ERR": raise LuaErr(v.decode("latin1"))
        return v
    def val(s, expr, k=0): return parse(s.run("return ser(%s)" % expr, k))
    def dead(s):
        try: s.p.wait(3)
        except subprocess.TimeoutExpired: s.p.kill(); s.p.wait()
        r=core.san_report(s.log)
        raise Died("the Lua host ended rc=%s in: %s" % (s.p.returncode, s.last[:1500]), r or {"key": "lua-exit:%s" % s.p.returncode, "text": open(s.log, errors="replace").read()[-3000:]})
    def close(s):
        s.p.stdin.close()
        try: s.p.wait(5)
        except subprocess.TimeoutExpired: s.p.kill(); s.p.wait()
        r=core.san_report(s.log)
        if r: raise Violation(r["key"], "Lua host", r["text"])
class U(str): pass
def parse(b):
    pos=0
    def one():
        nonlocal pos
        ch=b[pos:pos+1]; pos+=1
        if ch == b"n": return None
        if ch == b"t": return True
        if ch == b"F": return False
        if ch == b"i": e=b.index(b";", pos); v=int(b[pos:e]); pos=e+1; return v
        if ch == b"d": v=struct.unpack(">d", bytes.fromhex(b[pos:pos+16].decode()))[0]; pos+=16; return v
        if ch in b"su": e=b.index(b":", pos); n=int(b[pos:e]); v=b[e+1:e+1+n]; pos=e+1+n; return v if ch == b"s" else U(v)
        if ch == b"{":
            d={}
            while b[pos:pos+1] != b"}": k=one(); d[k]=one()
            pos+=1; return d
        raise Violation("serial", "cannot parse %r" % b[pos-1:pos+30])
    return one()
def lit(v):
    """a Lua expression"""
    if v is None: return "nil"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int): return "math.mininteger" if v == -2**63 else "(%d)" % v
    if isinstance(v, float):
        if math.isnan(v): return "(0/0)"
        if math.isinf(v): return "(1/0)" if v > 0 else "(-1/0)"
        return "(%s)" % v.hex()
    if isinstance(v, bytes): return '"'+"".join("\\%03d" % x for x in v)+'"'
    if isinstance(v, dict): return "{"+",".join("[%s]=%s" % (lit(k), lit(x)) for k, x in v.items())+"}"
    return v                      # a Lua expression in a str
INTS=[t for t in BASE if t not in (BOOL, REAL, LREAL)]
def number(r, t):
    """a suitable value for an element"""
    if t == BOOL: return r.random() < 0.5
    if t in (REAL, LREAL):
        k=r.randrange(9)
        if k == 0: return r.randrange(-2**63, 2**63)
        if k == 1: return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 1e300, -1e300, 1e-310, 1e-45, 3.4028234663852886e38, 16777217, 2**53+1])
        if k == 2: return r.randrange(-1000, 1000)
        if k == 3: return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        return r.uniform(-1e6, 1e6)
    n=8*tsize(t); k=r.randrange(10)
    lo, hi=(-(2**(n-1)), 2**(n-1)-1) if FMT[t] in "bhiq" else (0, 2**n-1)
    if k == 0: v=r.choice([lo, hi, lo+1, hi-1, 0, 1, -1, hi+1, lo-1, 2**31, 2**32-1, 2**32, 2**53+1, 2**63-1, -2**63])
    elif k == 1: v=r.getrandbits(64)-2**63
    elif k == 2: return r.choice([0.5, -0.5, 3.7, -3.7, 2.0**53, -2.0**62, 2.0**63, 1.5*2.0**63, 2.0**64-2048, -2.0**63, 65535.99, -0.99])
    elif k == 3: return float(r.randrange(max(lo, -2**53), min(hi, 2**53)+1))
    else: v=r.randrange(lo, hi+1)
    if not -2**63 <= v < 2**63: v=(v+2**63) % 2**64-2**63     # as Lua would hold it
    return v
def tree(r, T, t, count, full=False):
    """a suitable value for count items of a type, with parts left out"""
    skip=0 if full else r.choice([0, 0, 0.2, 0.6])
    if count > 1:
        if t == CHAR and r.random() < 0.6:
            n=r.choice([count, count, count-1, count+1, 0, 1, r.randrange(count+6)]); return bytes(r.choice([r.randrange(256), r.randrange(32, 127)]) for _ in range(n))
        d={i+1: tree(r, T, t, 1, full) for i in range(count) if r.random() >= skip}
        if r.random() < 0.15: d[r.choice([0, -1, count+1, b"x", 1.5])]=r.choice([7, b"junk", {}])     # means nothing
        return d
    if t & CUSTOM:
        d={n.encode(): tree(r, T, mt, c, full) for n, mt, c, p in T.members(t)[0] if r.random() >= skip}
        if r.random() < 0.1: d[b"no such member"]=1
        if r.random() < 0.1: d[1]=1
        return d
    return number(r, t)
def unsuitable(r, T, t, count):
    """a value that must be refused, None if there is none of that kind"""
    bad=["print", "coroutine.create(print)", "io.stdout"]
    if count > 1:
        k=r.random()
        if k < 0.5:
            v=tree(r, T, t, count, True); u=unsuitable(r, T, t, 1)
            if isinstance(v, dict) and u is not None: v[r.randrange(count)+1]=u; return v
        return r.choice(bad+[True, 5, 2.5]+([b"text"] if t != CHAR else []))
    if t & CUSTOM:
        if r.random() < 0.7:
            v=tree(r, T, t, 1, True); ms=T.members(t)[0]; m=r.choice(ms); u=unsuitable(r, T, m[1], m[2])
            if u is not None: v[m[0].encode()]=u; return v
        return r.choice(bad+[b"text", 12, True])
    if t == BOOL: return None
    return r.choice(bad+[b"text", b"", {}, {1: 1}, True]+([math.nan, math.inf, -math.inf, 1e30, -1e30, 2.0**64] if t in INTS else []))
def conv(t, v):
    """bytes of one element"""
    if t in (REAL, LREAL):
        f=float(v)
        return bytes(ctypes.c_float(f)) if t == REAL else struct.pack("<d", f)
    n=int(v) if not isinstance(v, float) else math.trunc(v)
    return (n % 2**(8*tsize(t))).to_bytes(tsize(t), "little")
def put(T, t, count, pos, v, data):
    """what a value makes of the bytes; pos in bits"""
    if v is None: return
    if count > 1:
        if isinstance(v, bytes): data[pos//8:pos//8+count]=v[:count]+bytes(max(0, count-len(v))); return
        for i in range(count):
            if i+1 in v: put(T, t, 1, pos+i*T.bits(t), v[i+1], data)
    elif t & CUSTOM:
        for n, mt, c, p in T.members(t)[0]: put(T, mt, c, pos+p, v.get(n.encode()), data)
    elif t == BOOL:
        if v: data[pos >> 3]|=1 << (pos & 7)
        else: data[pos >> 3]&=~(1 << (pos & 7))
    else: data[pos//8:pos//8+tsize(t)]=conv(t, v)
def see(T, t, count, pos, data):
    """what Lua should see"""
    if count > 1:
        if t == CHAR: return bytes(data[pos//8:pos//8+count]).split(b"\0")[0]
        return {i+1: see(T, t, 1, pos+i*T.bits(t), data) for i in range(count)}
    if t & CUSTOM: return {n.encode(): see(T, mt, c, pos+p, data) for n, mt, c, p in T.members(t)[0]}
    if t == BOOL: return bool(data[pos >> 3] >> (pos & 7) & 1)
    v=struct.unpack("<"+FMT[t], data[pos//8:pos//8+tsize(t)])[0]
    if t in (ULINT, LWORD) and v >= 2**63: v-=2**64      # Lua integers are signed
    return v
def same(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(x, b[k]) for k, x in a.items())
    if type(a) != type(b): return False
    if isinstance(a, float): return (math.isnan(a) and math.isnan(b)) or struct.pack("<d", a) == struct.pack("<d", b)
    return a == b
class Tags:
    def __init__(s, c, b, exe, hosted):
        global serial; serial+=1
        s.c=c; s.r=c.rng; s.srv=core.Server(b, c.base, "s%d" % serial).start(); s.T=layout.Types(); s.tags={}; s.raw=Raw(s.srv, "obs")
        s.L=Lua(exe, c.base, str(serial)); s.k=0
        if hosted: s.k=1; s.L.run('hoststate("%s")' % s.srv.sock, 1)
        else: s.L.run('arg={"-U", "%s"}; dax.init("luamod")' % s.srv.sock)
        if hosted is None: pass
    def full(s, n):
        i, t, c=s.tags[n]; size=T_size(s.T, t, c); return bytearray(b"".join(s.raw.read(i, o, min(4000, size-o))[1] for o in range(0, size, 4000)))
    def fill(s, n):
        i, t, c=s.tags[n]; size=T_size(s.T, t, c); d=s.r.randbytes(size) if s.r.random() < 0.8 else bytes([s.r.choice([0, 255, 0x80, 0x7f])])*size
        for o in range(0, size, 4000):
            if s.raw.write(i, o, d[o:o+4000]): raise Violation("raw", "raw write refused")
        return bytearray(d)
    def newtype(s):
        mem=layout.randtype(s.r, s.T, "", 700)
        name="T%d" % len(s.T.defs); text="{"+",".join('{%s,%s,%d}' % (lit(n.encode()), lit(s.T.tname(t).encode() if s.r.random() < 0.7 else s.T.tname(t).encode()), k) for n, t, k in mem)+"}"
        t=s.L.val('dax.cdt_create("%s",%s)' % (name, text), s.k); t&=0xFFFFFFFF
        rr, ty, d=s.raw.cdt_get(name=name)
        if rr or ty != t or d != s.T.text(name, mem): raise Violation("cdt_create", "datatype made by %s is %r at the server" % (text, d))
        s.T.add(t, name, mem); s.c.count("datatypes"); return t
    def newtag(s):
        r=s.r; t=r.choice(BASE+list(s.T.defs)*3); c=r.choice([1, 1, 2, 3, 7, 8, 9, 20, 100]) if not t & CUSTOM else r.choice([1, 1, 2, 3, 5])
        if T_size(s.T, t, c) > 20000: c=1
        n="tag%d" % len(s.tags); a=["%s" % lit(n.encode()), r.choice([str(t), lit(s.T.tname(t).encode())])]
        if c > 1 or r.random() < 0.5: a.append(str(c))
        h=s.L.val('(function() local h=dax.tag_add(%s); return {h.index,h.byte,h.bit,h.count,h.size,h.type} end)()' % ",".join(a), s.k)
        rr, g=s.raw.by_name(n)
        if rr: raise Violation("tag_add", "tag_add(%s) made no tag" % a)
        s.tags[n]=(g[0], t, c)
        exp=[g[0], 0, 0, c, (c+7)//8 if t == BOOL else T_size(s.T, t, c), t]
        if [h[i+1] & 0xFFFFFFFF for i in range(6)] != exp: raise Violation("tag_add", "tag_add(%s) returned handle %r, expected %r" % (a, h, exp))
        g3=s.L.val('{dax.tag_get(%s)}' % r.choice([lit(n.encode()), str(g[0])]), s.k)
        if g3 != {1: n.encode(), 2: s.T.tname(t).encode(), 3: c}: raise Violation("tag_get", "tag_get of %s gives %r" % (n, g3))
        return n
    def expr(s):
        """an expression with its handle, both possible and not"""
        r=s.r
        for _ in range(50):
            n=r.choice(list(s.tags)); i, t, c=s.tags[n]; e=n
            while True:
                if c > 1 and r.random() < (0.5 if not t & CUSTOM else 0.8): e+="[%d]" % r.randrange(c); c=1
                if not t & CUSTOM:
                    if t not in (BOOL, TIME, REAL, LREAL) and r.random() < 0.12: e+=".%d" % r.randrange(s.T.bits(t))
                    break
                if r.random() < 0.35: break
                m=r.choice(s.T.members(t)[0]); e+="."+m[0]; t=m[1]; c=m[2]
            cnt=0 if r.random() < 0.75 else r.choice([1, 1, 2, 3, 8])
            try: h=layout.resolve(s.T, s.tags, e, cnt)
            except layout.Err: continue
            if h is not None: return n, e, cnt, h
        return None
def T_size(T, t, c): return (c+7)//8 if t == BOOL else T.size(t)*c
def values(c, b, exe, nops, hosted=False):
    w=Tags(c, b, exe, hosted); r=c.rng; L=w.L; k=w.k; T=w.T
    try:
        for _ in range(5): w.newtype()
        for _ in range(8): w.newtag()
        for op in range(nops):
            if r.random() < 0.02 and len(T.defs) < 40: w.newtype()
            if r.random() < 0.04 and len(w.tags) < 60: w.newtag()
            g=w.expr()
            if not g: continue
            n, e, cnt, h=g; idx, byte, bit, count, size, t=h; pos=byte*8+bit
            if T_size(T, t, count) > 3900 and t & CUSTOM and count == 1: continue
            q=r.random(); old=w.fill(n) if r.random() < 0.5 else w.full(n)
            if q < 0.4:       # read
                exp=see(T, t, count, pos, old)
                if hosted and cnt == 0 and r.random() < 0.4: x="hostread(%s)" % lit(e.encode())
                elif r.random() < 0.3: x="dax.tag_read(dax.tag_handle(%s,%d))" % (lit(e.encode()), cnt)
                else: x="dax.%s(%s%s)" % (r.choice(["tag_read", "read"]), lit(e.encode()), ",%d" % cnt if cnt or r.random() < 0.3 else "")
                got=L.val(x, k); c.count("reads"); c.case(("r", t if not t & CUSTOM else T.text("", T.defs[t][1]), count, repr(exp)[:200]), "%s -> %r" % (x, got) if op < 3 else None)
                if not same(got, exp): raise Violation("read:%s" % (NAMES.get(t, "CDT")), "%s (type %s) gives %s, the tag holds %s (%s)" % (x, T.tname(t), repr(got)[:800], repr(exp)[:800], old[byte:byte+min(size, 64)].hex()))
            elif q < 0.85:
                v=tree(r, T, t, count); how=r.randrange(4)
                if hosted and cnt == 0 and how == 0: x="hostwrite(%s,%s)" % (lit(e.encode()), lit(v))
                elif cnt or how == 1: x="dax.tag_write(dax.tag_handle(%s,%d),%s)" % (lit(e.encode()), cnt, lit(v))
                else: x="dax.%s(%s,%s)" % (r.choice(["tag_write", "write"]), lit(e.encode()), lit(v))
                L.run(x, k); new=bytearray(old); put(T, t, count, pos, v, new); got=w.full(n); c.count("writes")
                c.case(("w", t if not t & CUSTOM else T.text("", T.defs[t][1]), count, repr(v)[:200]))
                if t in (REAL, LREAL) or t & CUSTOM: # NaNs have many forms
                    ok=same(see(T, w.tags[n][1], w.tags[n][2], 0, got), see(T, w.tags[n][1], w.tags[n][2], 0, new))
                else: ok=got == new
                if not ok: raise Violation("write:%s" % (NAMES.get(t, "CDT")), "%s (type %s) made of %s: %s, expected %s" % (x[:1000], T.tname(t), old.hex()[:600], got.hex()[:600], new.hex()[:600]))
                if r.random() < 0.3:      # and back
                    got=L.val("dax.tag_read(%s)" % lit(n.encode()), k); exp=see(T, w.tags[n][1], w.tags[n][2], 0, new)
                    if not same(got, exp): raise Violation("roundtrip", "after %s Lua reads %s, not %s" % (x[:800], repr(got)[:800], repr(exp)[:800]))
            else:
                v=unsuitable(r, T, t, count)
                if v is None: continue
                f="hostwrite" if hosted and cnt == 0 and r.random() < 0.5 else r.choice(["dax.tag_write", "dax.tag_write", "dax.override_add"])
                x="%s(%s,%s)" % (f, lit(e.encode()) if not cnt else "dax.tag_handle(%s,%d)" % (lit(e.encode()), cnt), lit(v))
                try: L.run(x, k); err=None
                except LuaErr as z: err=str(z)
                c.count("unsuitable_values")
                if err is None: raise Violation("unsuitable", "%s (type %s, %d items) is accepted" % (x[:1500], T.tname(t), count))
                if err.startswith("STACK"): raise Violation("stack", "%s: %s" % (x[:1500], err))
                if w.full(n) != old: raise Violation("unsuitable", "%s was refused (%s) but changed the tag" % (x[:1500], err))
        w.srv.check(); L.close()
    finally: w.srv.kill9()
def deep(c, b, exe):
    """datatypes nested as deep as they get"""
    w=Tags(c, b, exe, False); r=c.rng; T=w.T; L=w.L
    try:
        t=None
        for lv in range(40):
            mem=[("a", r.choice(INTS), 1), ("n", t, r.choice([1, 1, 1, 2]) if lv < 6 else 1)] if t else [("a", DINT, 1), ("b", BOOL, 3)]
            name="D%d" % lv; t=L.val('dax.cdt_create("%s",{%s})' % (name, ",".join('{"%s","%s",%d}' % (n, T.tname(x), k) for n, x, k in mem))) & 0xFFFFFFFF
            T.add(t, name, mem)
            if lv % 4 == 3:
                n="tag%d" % lv; L.run('dax.tag_add("%s","%s")' % (n, name)); w.tags[n]=(w.raw.by_name(n)[1][0], t, 1)
                for _ in range(4):
                    old=w.fill(n); got=L.val('dax.tag_read("%s")' % n); exp=see(T, t, 1, 0, old)
                    if not same(got, exp): raise Violation("read:deep", "%d levels read as %s, not %s" % (lv+1, repr(got)[:1500], repr(exp)[:1500]))
                    v=tree(r, T, t, 1); new=bytearray(old); put(T, t, 1, 0, v, new); L.run('dax.tag_write("%s",%s)' % (n, lit(v)))
                    if w.full(n) != new: raise Violation("write:deep", "%d levels deep write %s" % (lv+1, lit(v)[:1500]))
                    c.case(("deep", lv, repr(v)[:100])); c.count("deep_values")
        L.close(); w.srv.check()
    finally: w.srv.kill9()
def others(c, b, exe, n):
    """the rest of the bindings by their effect"""
    w=Tags(c, b, exe, False); r=c.rng; L=w.L; T=w.T
    try:
        for _ in range(n):
            t=r.choice(INTS); cnt=r.choice([1, 1, 2, 5]); name="o%d" % len(w.tags); L.run('dax.tag_add("%s",%d,%d)' % (name, t, cnt)); w.tags[name]=(w.raw.by_name(name)[1][0], t, cnt)
            old=w.fill(name); idx=w.tags[name][0]; size=tsize(t)*cnt
            # atomic operations
            op=r.choice(["OR", "AND", "XOR", "NOR", "NAND", "XNOR", "NOT"]); v=tree(r, T, t, cnt, True) 
            if isinstance(v, bytes): v={i+1: 3 for i in range(cnt)}
            x='dax.atomic_op("%s",%s,ATOMIC_OP_%s)' % (name, "nil" if op == "NOT" else lit(v), op); L.run(x); m=bytearray(size)
            if op != "NOT": put(T, t, cnt, 0, v, m)
            fn={"OR": lambda a, q: a | q, "AND": lambda a, q: a & q, "XOR": lambda a, q: a ^ q, "NOR": lambda a, q: ~(a | q), "NAND": lambda a, q: ~(a & q), "XNOR": lambda a, q: ~(a ^ q), "NOT": lambda a, q: ~a}[op]
            exp=bytes(fn(a, q) & 255 for a, q in zip(old, m)); got=w.full(name); c.count("atomic"); c.case((x,))
            if got != exp: raise Violation("atomic", "%s made of %s: %s, not %s" % (x, old.hex(), got.hex(), exp.hex()))
            # an override, of parts of it
            old=w.fill(name); v=tree(r, T, t, cnt); ov=bytearray(old); put(T, t, cnt, 0, v, ov)
            x='dax.override_add("%s",%s); dax.override_set("%s")' % (name, lit(v), name); L.run(x); got=w.full(name)
            if got != ov: raise Violation("override", "%s shows %s over %s, not %s" % (x, got.hex(), old.hex(), ov.hex()))
            seen=L.val('dax.tag_read("%s")' % name)
            if not same(seen, see(T, t, cnt, 0, ov)): raise Violation("override", "Lua reads %r after %s" % (seen, x))
            L.run('dax.override_clr("%s")' % name)
            if w.full(name) != old: raise Violation("override", "value after override_clr is %s, not %s" % (w.full(name).hex(), old.hex()))
            L.run('dax.override_del("%s")' % name); c.count("overrides")
            # a map
            d=name+"d"; L.run('dax.tag_add("%s",%d,%d)' % (d, t, cnt)); w.tags[d]=(w.raw.by_name(d)[1][0], t, cnt)
            m=L.val('dax.map_add("%s","%s")' % (name, d)); g=L.val('(function() local a,z=dax.map_get(%s); return {a.index,z.index,a.size,z.size,a.type,z.count} end)()' % lit(m))
            if [g[i] for i in range(1, 7)] != [idx, w.tags[d][0], size, size, t, cnt]: raise Violation("map", "map_get returns %r" % g)
            v=tree(r, T, t, cnt); L.run('dax.tag_write("%s",%s)' % (name, lit(v))); put(T, t, cnt, 0, v, old)
            if w.full(d) != old or w.full(name) != old: raise Violation("map", "mapped %s, not %s" % (w.full(d).hex(), old.hex()))
            L.run('dax.map_del(%s)' % lit(m)); w.fill(name)
            if w.full(d) != old: raise Violation("map", "still mapped after map_del")
            if L.val('{dax.map_get(%s)}' % lit(m)) != {}: raise Violation("map", "map_get finds a deleted map")
            c.count("maps")
            # events
            kind=r.choice(["WRITE", "CHANGE", "EQUAL", "GREATER", "LESS", "DEADBAND", "write"]); want=r.randrange(1, 100)
            w.raw.write(idx, 0, bytes(size)); ud=r.choice([5, b"text", {1: 2}, None, True])
            co=r.random() < 0.5; body='seen=nil; ev=dax.event_add("%s",1,"%s",%s,function(u) seen={u} end,%s)' % (name, kind, lit(want), lit(ud))
            L.run('coroutine.wrap(function() %s end)(); collectgarbage()' % body if co else body)
            if L.val("dax.event_poll()") != 0.0: raise Violation("event", "%s event of %s fires before there is a write" % (kind, name))
            new=want+{"GREATER": 1, "LESS": -1, "DEADBAND": 1}.get(kind, 0)
            if kind == "LESS": w.raw.write(idx, 0, conv(t, want+1)); L.run("while dax.event_poll() == 1 do end seen=nil")
            w.raw.write(idx, 0, conv(t, new))
            if kind == "LESS" and FMT[t] in "bhiq" and want == 0: continue
            got=L.val('(function() local r=dax.event_wait(5000); return {r,seen} end)()')
            if got.get(1) != 1 or got.get(2) != ({1: ud} if ud is not None else {}): raise Violation("event", "event %s %s of %s type %s after writing %d: %r, expected the function to be called with %r" % (kind, want, name, NAMES[t], new, got, ud))
            L.run('dax.event_del(ev)'); w.raw.write(idx, 0, bytes([r.randrange(256) for _ in range(size)])); w.raw.read(idx, 0, 1)
            L.run("seen=nil")
            if L.val("dax.event_poll()") != 0.0: raise Violation("event", "a deleted event fires")
            # an error in the function is an error where it is waited for
            if r.random() < 0.4:
                L.run('ev=dax.event_add("%s",0,"WRITE",0,function(u) %s end,0)' % (name, r.choice(['error("in function")', 'error({})', 'local x=nil; x()', 'coroutine.wrap(function() error("in function") end)()'])))
                w.raw.write(idx, 0, b"\1"); got=L.val('(function() local o,m=pcall(dax.event_wait,5000); return {o,dax.event_poll()} end)()')
                if got.get(1) is not False: raise Violation("event:error", "event_wait returned although the function raised an error: %r" % got)
                L.run("dax.event_del(ev)"); L.run('dax.tag_write("%s",{1,2})' % name if cnt > 1 else 'dax.tag_write("%s",1)' % name)
            c.count("events")
            if r.random() < 0.5:
                L.run('dax.tag_del(%s)' % r.choice(['"%s"' % name, str(idx)])); del w.tags[name]
                if w.raw.by_name(name)[0] == 0: raise Violation("tag_del", "tag is still there")
        msg="%s%n%d "+"x"*r.choice([1, 100, 3000]); L.run('dax.log(LOG_FATAL,%s)' % lit(msg.encode()))
        L.run("dax.free() dax.free()")
        try: L.run('dax.tag_read("_status")'); raise Violation("free", "tags can be read after dax.free()")
        except LuaErr: pass
        L.run('dax.init("again")')
        if w.raw.by_name("_magain")[0]: raise Violation("init", "dax.init() after dax.free() does not connect")
        L.close(); w.srv.check()
    finally: w.srv.kill9()
FUN=["init", "free", "cdt_create", "tag_add", "tag_get", "tag_handle", "tag_read", "read", "tag_write", "write", "tag_del", "event_add", "event_del", "event_poll", "event_wait", "atomic_op", "map_add", "map_get", "map_del", "override_add", "override_set", "override_clr", "override_del", "log", "sleep"]
def hostile(c, b, exe, n):
    """anything at all as arguments"""
    w=Tags(c, b, exe, False); r=c.rng; L=w.L; T=w.T
    try:
        for _ in range(4): w.newtype()
        for _ in range(6): w.newtag()
        L.run("handles={}"); canary=w.raw.tag_add("canary", ULINT, 4); cv=r.randbytes(32); w.raw.write(canary, 0, cv)
        def arg(d=0):
            k=r.randrange(14)
            if k == 0: return "nil"
            if k == 1: return lit(r.choice([0, 1, -1, 2, 3, 2**31-1, 2**31, 2**32, 2**32+1, -2**31, 2**63-1, -2**63, 1000000, 0x80000000, 0x80000001, 0x80000005, 0x10, 0x15]))
            if k == 2: return lit(r.choice([0.5, math.nan, math.inf, -math.inf, 1e300, 3.0, -0.0]))
            if k == 3: return lit(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 31, 32, 33, 64, 300, 5000]))))
            if k in (4, 5, 6): g=w.expr(); return lit(g[1].encode()) if g else '"tag0"'
            if k == 7: return r.choice(["true", "false"])
            if k == 8: return r.choice(["print", "coroutine.create(print)", "io.stdout", "dax", "_G", "getmetatable(handles[1] or dax)", "setmetatable({},{__index=function() error('x') end})", "setmetatable({},{__len=function() return 1e9 end})"])
            if k == 9 and d < 3: return "{"+",".join("[%s]=%s" % (r.choice([str(i+1), str(i+1), '"a"', '"m%d"' % i]), arg(d+1)) for i in range(r.choice([0, 1, 2, 3, 5])))+"}"
            if k == 10: return r.choice(['"INT"', '"BOOL"', '"LREAL"', '"T0"', '"T1"', '"WRITE"', '"CHANGE"', '"EQUAL"', '"SET"', '"DELETED"', '"xyz"'])
            if k in (11, 12): return "handles[%d]" % r.randrange(1, 12)
            return r.choice(["function(...) return ... end", "function() error('e') end", "function() dax.tag_write('tag0',1) end", "function() dax.event_poll() end", "function() dax.free() end"])
        conn=True
        for k in range(n):
            f=r.choice(FUN)
            if f in ("init", "free") and r.random() < 0.85: continue
            if f in ("event_wait", "sleep"): args=[r.choice(["1", "2", "0.3", "-1", "'x'", "nil, nil", "0/0", "-1/0", "{}", "5"])]
            elif f == "init":
                if L.val("pcall(dax.tag_get,0)"): continue        # still connected
                L.run('arg=%s' % r.choice(['{"-U","%s"}' % w.srv.sock]*6+["nil", "{1,2}", "5"]))
                args=[r.choice(['"mod%d"' % k]*4+[arg()])]+([r.choice(["{}", "{socketname='%s'}" % w.srv.sock, "{socketname='/nonexistent',server='LOCAL'}", "{msgtimeout=500,nosuch='x',[1]=2,[true]=3}", arg()])] if r.random() < 0.5 else [])
                if args[0][:1] not in '"' or "/tmp" not in L.val("arg and type(arg) == 'table' and arg[2] or ''").__str__(): L.run('arg={"-U","%s"}' % w.srv.sock)
            elif f == "event_add" and r.random() < 0.6: g=w.expr(); args=[lit(g[1].encode()) if g else '"tag0"', str(r.choice([0, 1, 2])), r.choice(['"WRITE"', '"CHANGE"', '"EQUAL"', '"DELETED"']), arg(), arg(), arg()]
            elif f == "tag_add" and r.random() < 0.5: args=['"h%d"' % k, arg(), str(r.choice([0, 1, 2, 10, -1, 2**31]))]
            else: args=[arg() for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 6, 7]))]
            if f == "tag_add" and len(args) > 2 and any(x.strip("()").isdigit() and 10**5 < int(x.strip("()")) for x in args[2:3]): args[2]="100"
            call="dax.%s(%s)" % (f, ",".join(args))
            body="local r=%s; handles[%d]=r" % (call, r.randrange(1, 12)) if f in ("tag_handle", "tag_add", "map_add", "event_add") else call
            if r.random() < 0.15: body="coroutine.wrap(function() %s end)()" % body
            if r.random() < 0.1: body+="; collectgarbage()"
            try: L.run(body); c.count("accepted")
            except LuaErr: c.count("refused")
            c.case((call[:100],)); c.count("hostile_calls")
            if f in ("free",) or k % 50 == 49:
                w.srv.check()
                if w.raw.read(canary, 0, 32) != (0, cv): raise Violation("canary", "a tag that no script names has changed after %s" % call)
                try: L.run('for i=1,9 do dax.event_poll() end')
                except LuaErr: pass
                ok=L.val("pcall(dax.tag_get,0)")
                if not ok: L.run('arg={"-U","%s"}; dax.free(); dax.init("back")' % w.srv.sock)
                for nm in list(w.tags):
                    if w.raw.by_name(nm)[0]: del w.tags[nm]
                while len(w.tags) < 4:
                    T.defs.clear() if False else None
                    n2="r%d_%d" % (k, len(w.tags)); L.run('dax.tag_add("%s","DINT",4)' % n2); w.tags[n2]=(w.raw.by_name(n2)[1][0], DINT, 4)
        L.close(); w.srv.check()
    finally: w.srv.kill9()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "luah.c", extra=["-llua5.4"])
    for i in range(c.n(18, 90)): c.run("values %d" % i, values, c, b, exe, c.n(500, 1500), i % 3 == 2)
    for i in range(c.n(2, 12)): c.run("deep %d" % i, deep, c, b, exe)
    for i in range(c.n(2, 15)): c.run("others %d" % i, others, c, b, exe, c.n(60, 200))
    for i in range(c.n(10, 60)): c.run("hostile %d" % i, hostile, c, b, exe, c.n(600, 2000))
core.main("P22", "one evaluation per value moved between Lua and a tag, compared with the bytes an independent client sees, and per call with arbitrary arguments", body)
