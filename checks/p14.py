import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, layout
from vf.core import Violation, Drv, hx, uhx
from vf.layout import Err, resolve
from vf.proto import *
serial=0
def scenario(c, b, exe, nexpr):
    global serial; serial+=1
    r=c.rng; srv=core.Server(b, c.base, "s%d" % serial).start()
    T=layout.Types(); tags={}; d=None
    def bad(k, m): raise Violation(k, m, {"types": [T.text(*x) for x in T.defs.values()], "tags": tags})
    def randexpr():
        """a plausible expression: walk the types, sometimes out of range, sometimes damaged"""
        n=r.choice(list(tags)); idx, t, items=tags[n]; e=n
        while True:
            if items > 1 and r.random() < 0.85 or r.random() < 0.1:
                k=r.random(); i=r.randrange(items) if k < 0.9 else r.choice([items, items+1, items-1, 0, 2**31-1, 2**31, 2**32, 2**32+items-1, 2**63, 2**64])
                e+="[%d]" % i
            if t & CUSTOM and r.random() < 0.85:
                m=r.choice(T.defs[t][1]); nm=m[0]
                if r.random() < 0.03: nm=r.choice([nm.lower(), nm.upper(), nm[:-1], nm+"x", "", "nope"])
                e+="."+nm; t, items=m[1], m[2]; continue
            if not t & CUSTOM and r.random() < 0.4:
                n=T.bits(t); e+=".%d" % (r.randrange(n) if r.random() < 0.85 else r.choice([n, n-1, n+1, 31, 63, 64, 255, 256, 2**32, 2**31, 2**64]))
            break
        if r.random() < 0.12:
            k=r.randrange(8); i=r.randrange(len(e)+1)
            if k == 0: e=e[:i]+r.choice(".[]0x-+ ,:\t%")+e[i:]
            elif k == 1 and e: e=e[:i]+e[i+1:]
            elif k == 2: e+=r.choice(["[", "]", "[]", ".", "..", "[0]", "[0]]", "[1", ".0.0", "[-1]", "[+1]", "[ 1]", "[1 ]", "[0x1]", "[1][0]", ".x", "[a]", " ", ".-1", ".+1", ". 1", ".1x"])
            elif k == 3: e=r.choice(["", "[", "]", ".", "[0]", ".0", "nosuch", "nosuch[1].x", "."+e, "["+e, e[:1], " "+e, e.upper(), "a"*400, e+"."+"b"*300, e+"["+"1"*300+"]"])
            elif k == 4: e=e.replace("[", "", 1)
            elif k == 5: e=e.replace("]", "", 1)
            elif k == 6: e=e[:i]
            else: e=e.replace(".", "..", 1)
        return e
    def randcount(e):
        k=r.random()
        if k < 0.5: return 0
        if k < 0.7: return 1
        if k < 0.97: return r.randrange(1, 40)
        return r.choice([-1, -2**31, 2**31-1, 1000, 8, 16, 32, 64])
    def check(e, cnt):
        try: want=resolve(T, tags, e, cnt)
        except Err as x: want=x
        v=d.cmd("handle", hx(e), cnt); rr=int(v[0]); got=H.parse(v[1]).tup()
        if want is None: c.count("left_open"); return None
        if isinstance(want, Err):
            c.count("refused"); c.case(("refused", str(want), len(e) % 7, cnt > 0))
            if rr == 0: bad("accepted:"+str(want), "expression %r count %d should be refused (%s) but gives %s" % (e, cnt, want, v[1]))
            return None
        if rr: bad("refused", "expression %r count %d refused (%d), expected %s" % (e, cnt, rr, H(*want)))
        if got != want: bad("resolves", "expression %r count %d resolves to %s, expected %s" % (e, cnt, H(*got), H(*want)))
        c.count("resolved"); c.case((want[1] % 16, want[2], want[3], want[5], e.count("."), e.count("[")))
        return want
    def inverse(h, e):
        v=d.cmd("fqn", H(*h).s())[0]
        if v == "-": bad("inverse:none", "no name for %s (%r)" % (H(*h), e))
        n=uhx(v).decode("latin1")
        v2=d.cmd("handle", hx(n), h[3])
        if int(v2[0]) or H.parse(v2[1]).tup() != h: bad("inverse", "%s (%r) is named %r, which resolves to %s (%s)" % (H(*h), e, n, v2[1], v2[0]))
        try: w=resolve(T, tags, n, h[3])
        except Err as x: bad("inverse:name", "%s (%r) is named %r: %s" % (H(*h), e, n, x))
        c.count("names")
    def data(h, e):
        """what is read and written through the handle is exactly the named bits"""
        idx, byte, bit, cnt, size, t=h; n=[x for x in tags if tags[x][0] == idx][0]; tot=sizes[idx]
        cur=full[idx]
        v=d.cmd("tread", H(*h).s())
        if size > 4000: return
        if t == BOOL:
            p=byte*8+bit; val=int.from_bytes(cur, "little") >> p & (1 << cnt)-1; want=val.to_bytes((cnt+7)//8, "little")
            got=uhx(v[1])
            if int(v[0]) or int.from_bytes(got, "little") & (1 << cnt)-1 != val: bad("data:read", "%r: read %s, expected %s" % (e, v[1], want.hex()))
            nv=r.getrandbits(cnt); x=int.from_bytes(cur, "little"); x=x & ~(((1 << cnt)-1) << p) | nv << p; new=x.to_bytes(tot, "little"); w=nv.to_bytes((cnt+7)//8, "little")
        else:
            if int(v[0]) or uhx(v[1]) != cur[byte:byte+size]: bad("data:read", "%r: read %s, expected %s" % (e, v[1], cur[byte:byte+size].hex()))
            w=r.getrandbits(8*size).to_bytes(size, "little"); new=cur[:byte]+w+cur[byte+size:]
        if t == BOOL: w=w.ljust(size, b"\0")
        if d.i("twrite", H(*h).s(), hx(w)): bad("data:write", "%r: write refused" % e)
        now=readall(idx)
        if now != new: bad("data:write", "%r (%s): writing %s left %s, expected %s" % (e, H(*h), w.hex(), now.hex()[:300], new.hex()[:300]))
        full[idx]=new; c.count("data_exchanges")
    def readall(i): return b"".join(raw.read(i, o, min(4000, sizes[i]-o))[1] for o in range(0, sizes[i], 4000))
    try:
        raw=Raw(srv, None); d=Drv(exe, c.base, srv, "d", tcp=r.random() < 0.3, args=["-Z", str(r.choice([0, 1, 2, 8, 40]))])
        if d.connect(): bad("connect", "client does not connect")
        for i in range(r.choice([2, 5, 9, 14])):
            nm="T%d" % i; mem=layout.randtype(r, T, nm, maxsize=1000); rr, ty=raw.cdt(T.text(nm, mem))
            if rr: bad("setup", "type %s refused" % T.text(nm, mem))
            T.add(ty, nm, mem)
        sizes={}; full={}
        for i in range(18):
            t=r.choice(list(T.defs)) if r.random() < 0.6 else r.choice(BASE)
            n=r.choice(["t%d", "Tag_%d", "X%d_", "tag_with_a_long_name_of_32_c_%d"]) % i; n=n[:32]
            cnt=r.choice([1, 1, 2, 3, 5, 8, 17, 33]) 
            if t & CUSTOM: cnt=min(cnt, max(1, 6000//T.size(t)))
            idx=raw.tag_add(n, t, cnt)
            if idx < 0: bad("setup", "tag refused")
            tags[n]=(idx, t, cnt); sizes[idx]=(cnt+7)//8 if t == BOOL else T.size(t)*cnt
            for o in range(0, sizes[idx], 4000):
                raw.write(idx, o, bytes(r.getrandbits(8) for _ in range(min(4000, sizes[idx]-o))))
            full[idx]=readall(idx)
        for k in range(nexpr):
            e=randexpr(); cnt=randcount(e)
            h=check(e, cnt)
            if h is None: continue
            inverse(h, e)
            if r.random() < 0.4: data(h, e)
            if len(c.samples) < 8 and e.count(".") > 1: c.samples.append("%s count %d -> %s" % (e, cnt, H(*h)))
        srv.check()
    finally:
        if d: d.kill()
        srv.kill9()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    for i in range(c.n(12, 120)): c.run("scenario %d" % i, scenario, c, b, exe, c.n(1500, 4000))
core.main("P14", "one evaluation per tag expression whose handle (or refusal) was compared with the reference resolver; distinct ones differ in position, bit, count, type and nesting", body)
