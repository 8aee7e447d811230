import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import struct
from vf import core, layout
from vf.core import Violation, Drv, hx, uhx
from vf.proto import *
serial=0
def scenario(c, b, exe, nops, many=False):
    global serial; serial+=1
    r=c.rng; srv=core.Server(b, c.base, "s%d" % serial).start()
    T=layout.Types(); clients={}; order=[]; tags={}; nfail=0
    def bad(k, m): raise Violation(k, m, {"definitions": [T.text(*T.defs[t]) for t in order]})
    def client(name, tcp=False):
        d=Drv(exe, c.base, srv, name, tcp=tcp)
        if d.connect(): bad("connect", "client does not connect")
        clients[name]=d; return d
    def same(d, who, t):
        """everything the client says about type t"""
        name, mem=T.defs[t]; sz=T.size(t)
        for q in r.sample(["size", "iter", "count", "name", "id"], 5):
            if q == "size":
                v=d.i("typesize", t)
                if v != sz: bad("size", "%s says %s is %d bytes, not %d" % (who, T.text(name, mem), v, sz))
            elif q == "count":
                v=d.i("cdt_count", t)
                if v != len(mem): bad("count", "%s says %s has %d members, not %d" % (who, T.text(name, mem), v, len(mem)))
            elif q == "name":
                v=d.cmd("t2s", t)[0]
                if v == "-" or uhx(v).decode() != name: bad("name", "%s says type 0x%x is called %s, not %s" % (who, t, v, name))
            elif q == "id":
                v=d.i("s2t", hx(name)) & 0xFFFFFFFF
                if v != t: bad("id", "%s says %s is type 0x%x, not 0x%x" % (who, name, v, t))
            else:
                v=d.cmd("cdt_iter", t); got=v[1:-2]
                exp=["%s/%u/%d/%d/%d" % (n, mt, cnt, p//8, p % 8) for n, mt, cnt, p in T.members(t)[0]]
                if got != exp or v[-1] != "0": bad("layout", "%s lays %s out as %s, not %s" % (who, T.text(name, mem), got, exp))
        c.case((T.text("", mem), who[0])); c.count("layouts_compared")
    def servercheck(t):
        name, mem=T.defs[t]
        want=T.text(name, mem)
        for kw in (dict(name=name), dict(type=t)):
            rr, ty, s=raw.cdt_get(**kw)
            if rr or ty != t or s != want: bad("definition", "the server describes %s as %r 0x%x (%d)" % (want, s, ty, rr))
        if t not in tags:
            cnt=r.choice([1, 1, 2, 3]); n="tag%d" % len(tags); sz=T.size(t)*cnt
            i=raw.tag_add(n, t, cnt)
            if i < 0: bad("tag", "no tag of type %s (%d)" % (want, i))
            tags[t]=(n, i, cnt)
            if raw.write(i, sz-1, b"\x5a") or raw.read(i, sz-1, 1) != (0, b"\x5a"): bad("server-size", "last byte of a %s (%d bytes) is not there" % (want, sz))
            if raw.write(i, sz, b"\x5a") == 0: bad("server-size", "%s has more than %d bytes in the server" % (want, sz))
            c.count("server_sizes")
    def exchange(t):
        """a member written by one client by name is found where the layout says, by every client"""
        n, i, cnt=tags[t]; name, mem=T.defs[t]; sz=T.size(t)
        mn, mt, mc, mp=r.choice(T.members(t)[0]); k=r.randrange(cnt); e=r.randrange(mc)
        expr=n+("[%d]" % k if cnt > 1 else "")+"."+mn+("[%d]" % e if mc > 1 else "")
        a, z=r.choice(list(clients)), r.choice(list(clients))
        h=clients[a].cmd("handle", hx(expr), 0)
        pos=(k*sz*8+mp+e*T.bits(mt)); size=1 if mt == BOOL else T.size(mt)
        if int(h[0]) or h[1] != H(i, pos//8, pos % 8, 1, size, mt).s(): bad("handle", "%s resolves to %s at %s, expected byte %d bit %d size %d of %s" % (expr, h[1], a, pos//8, pos % 8, size, T.text(name, mem)))
        full=bytearray(b"".join(raw.read(i, o, min(4000, sz*cnt-o))[1] for o in range(0, sz*cnt, 4000)))
        v=bytes([r.randrange(2)]) if mt == BOOL else r.getrandbits(8*size).to_bytes(size, "little")
        if mt == BOOL: full[pos//8]=full[pos//8] & ~(1 << pos % 8) | v[0] << pos % 8
        else: full[pos//8:pos//8+size]=v
        if size <= 4000:
            if clients[a].i("twrite", h[1], hx(v)): bad("write", "write of %s refused" % expr)
            now=b"".join(raw.read(i, o, min(4000, sz*cnt-o))[1] for o in range(0, sz*cnt, 4000))
            if now != full: bad("overlap", "writing %s of %s changed something else: %s instead of %s" % (expr, T.text(name, mem), now.hex()[:200], full.hex()[:200]))
            h2=clients[z].cmd("handle", hx(expr), 0)
            if h2[1] != h[1]: bad("handle", "%s is %s at %s and %s at %s" % (expr, h[1], a, h2[1], z))
            g=clients[z].cmd("tread", h2[1])
            if int(g[0]) or uhx(g[1]) != v: bad("exchange", "%s read back as %s by %s, %s wrote %s" % (expr, g[1], z, a, v.hex()))
        c.count("exchanges")
    def define(name, mem, how):
        s=T.text(name, mem)
        if how == "raw": return raw.cdt(s)
        v=clients[how].cmd("cdt", hx(name), len(mem), *[x for n, t, cnt in mem for x in (hx(n), t, cnt)])
        if len(v) < 2: return int(v[0]), 0
        return (int(v[-2]), int(v[-1]))
    def refused(what, s, rr):
        nonlocal nfail; nfail+=1
        c.case(("refused", what)); c.count("refused")
        if not rr: bad("accepted:"+what, "definition %r was accepted (%s)" % (s, what))
    try:
        raw=Raw(srv, None); first=client("first"); client("second", True)
        # the module status type exists already
        for i in (0, 1):
            rr, ty, s=raw.cdt_get(type=CUSTOM|i)
            if rr: bad("builtin", "datatype %d is missing" % i)
            p=s.split(":"); inv={v: k for k, v in NAMES.items()}
            T.add(ty, p[0], [(m.split(",")[0], inv.get(m.split(",")[1]) or T.byname[m.split(",")[1]], int(m.split(",")[2])) for m in p[1:]]); order.append(ty)
        # tags with a known first member
        for step in range(nops):
            k=r.random()
            if k < 0.45 or many or len(order) < 3:
                name="T%d_%s" % (len(order), r.choice(["a", "Pump", "x"*25, "_"])); mem=layout.randtype(r, T, name)
                if many: mem=[("in", order[-1], 1), ("b", BOOL, r.choice([1, 3, 8]))] if len(order) < 26 else mem
                if mem[0][1] & CUSTOM and not many and r.random() < 0.2: mem=mem[:1]
                how=r.choice(["raw", "first", "second", "first"])
                rr, ty=define(name, mem, how)
                if rr: bad("refused", "definition %s by %s refused (%d)" % (T.text(name, mem), how, rr))
                if ty in T.defs: bad("identifier", "new type %s was given the identifier of %s" % (name, T.defs[ty][0]))
                T.add(ty, name, mem); order.append(ty); servercheck(ty)
                if r.random() < 0.5: same(clients[r.choice(list(clients))], "a client", ty)
                c.count("types")
            elif k < 0.55:
                t=r.choice(order); name, mem=T.defs[t]; how=r.choice(["raw", *clients])
                rr, ty=define(name, mem, how)
                if rr or ty != t: bad("redefine", "identical definition of %s by %s gave %d, type 0x%x instead of 0x%x" % (T.text(name, mem), how, rr, ty, t))
                c.count("identical_redefinitions"); c.case(("redefine", how))
            elif k < 0.63:
                t=r.choice(order); name, mem=T.defs[t]; m2=list(mem); q=r.randrange(5); i=r.randrange(len(m2))
                if q == 0: m2[i]=(m2[i][0], m2[i][1], m2[i][2]+1)
                elif q == 1: m2[i]=(m2[i][0], DINT if m2[i][1] != DINT else UDINT, m2[i][2])
                elif q == 2: m2[i]=("other", m2[i][1], m2[i][2])
                elif q == 3: m2.append(("extra", BOOL, 1))
                elif len(m2) > 1: m2.pop()
                else: m2.append(("extra", INT, 1))
                how=r.choice(["raw", *clients]); rr, ty=define(name, m2, how); refused("conflict", T.text(name, m2), rr)
                servercheck(t); same(clients[r.choice(list(clients))], "a client", t)
            elif k < 0.75:
                q=r.randrange(14); good="a,INT,1"
                s=["Nx", "Nx:", ":a,INT,1", "Nx:a,INT", "Nx:a", "Nx:a,INT,0", "Nx:a,INT,-3", "Nx:a,NOSUCH,1", "Nx:a,INT,1:a,DINT,2", "Nx:a,Nx,1", "1N:"+good, "N x:"+good, "x"*33+":"+good, "Nx:"+"m"*33+",INT,1"][q]
                if r.random() < 0.2: s=r.choice(["DINT:"+good, "bool:"+good, "Nx:a,LREAL,2000000000:b,LREAL,2000000000", "Nx:a b,INT,1", "Nx:9,INT,1", "Nx:a.b,INT,1", "Nx:a,INT,4294967297", "Nx:"+good+":b,T9999,1", "Nx:a,,1", "Nx:,INT,1"])
                before=raw.cdt_get(name="Nx")[0]
                rr, _=raw.cdt(s); refused("invalid", s, rr)
                if raw.cdt_get(name="Nx")[0] == 0: bad("effect", "refused definition %r exists" % s)
            elif k < 0.8:
                q=r.choice([("zero", [("a", INT, 0)]), ("dup", [("a", INT, 1), ("a", INT, 1)]), ("type", [("a", 0x77, 1)]), ("unknown", [("a", CUSTOM|9999, 1)]), ("name", [("b ad", INT, 1)]), ("none", [])])
                if q[0] in ("type", "unknown"):
                    v=clients[r.choice(list(clients))].cmd("cdt", hx("Ny"), 1, hx("a"), q[1][0][1], 1); rr=int(v[-2])
                else:
                    how=r.choice(list(clients)); m=q[1]
                    v=clients[how].cmd("cdt", hx("Ny"), len(m), *[x for n, t, cnt in m for x in (hx(n), t, cnt)]); rr=int(v[-2]) if len(v) > 1 else -1
                refused("lib-"+q[0], q, rr)
                if raw.cdt_get(name="Ny")[0] == 0: bad("effect", "refused definition %r exists" % (q,))
            elif k < 0.92 and tags: exchange(r.choice(list(tags)))
            else:
                if len(clients) < 5: client("late%d" % step, r.random() < 0.3)
                t=r.choice(order); w=r.choice(list(clients)); same(clients[w], w, t)
        client("last")
        for w, d in clients.items():
            for t in (order if w in ("first", "last") else r.sample(order, min(6, len(order)))): same(d, w, t)
        for t in order: servercheck(t)
        for t in list(tags): exchange(t)
        # the list of all types
        v=clients["last"].cmd("cdt_iter", 0); got=[x.split("/")[:2] for x in v[1:-2]]
        if got != [[T.defs[t][0], str(t)] for t in order]: bad("list", "datatypes are listed as %s" % got[:8])
        if raw.cdt_get(type=CUSTOM|len(order))[0] == 0: bad("effect", "a refused definition left a datatype behind")
        c.samples.append(T.text(*T.defs[order[-1]])) if len(c.samples) < 6 else None
        srv.check()
    finally:
        for d in clients.values(): d.kill()
        srv.kill9()
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    for i in range(c.n(8, 80)): c.run("scenario %d" % i, scenario, c, b, exe, c.n(120, 250))
    c.run("many types", scenario, c, b, exe, c.n(45, 120), True)
core.main("P13", "one evaluation per datatype layout compared between a client or the server and the reference layout, or definition that must be refused; distinct ones differ in the members", body)
