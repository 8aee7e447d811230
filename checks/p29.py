import sys, os, struct, subprocess, random, datetime; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, layout
from vf.core import Violation, Died
from vf.proto import *
from vf.model import Model, OPS

SER=[0]
INTS=[BYTE, SINT, WORD, INT, UINT, DWORD, DINT, UDINT, LWORD, LINT, ULINT]
EVN=dict(WRITE=E_WRITE, CHANGE=E_CHANGE, SET=E_SET, RESET=E_RESET, EQUAL=E_EQUAL, GREATER=E_GREATER, LESS=E_LESS, DEADBAND=E_DEADBAND, DELETED=E_DELETED)
def rng_of(t):
    n=tsize(t)*8
    return (-(1 << (n-1)), (1 << (n-1))-1) if t in (SINT, INT, DINT, LINT, CHAR) else (0, min((1 << n)-1, 2**63-1))
class Quiet(Model):
    def desc(m, i, t): pass
    def counter(m, i, n): pass
class Cl:
    registered=True; tag=None; groups={}

def num(t, raw): return raw[0] & 1 if t == BOOL else struct.unpack("<"+FMT[t], raw)[0]
def iso(v):
    d=datetime.datetime(1970, 1, 1)+datetime.timedelta(milliseconds=v); return "%d-%02d-%02dT%02d:%02d:%02d.%03d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, v % 1000)
def show(t, v): return iso(v) if t == TIME else "nan" if v != v else "%.8g" % v if t == REAL else "%.16g" % v if t == LREAL else "%d" % v

class Term:
    """a person at the command client: every command goes to the client and to the model"""
    def __init__(s, c, bdir):
        s.c=c; s.r=random.Random(c.rng.random()); s.bdir=bdir; SER[0]+=1; s.srv=core.Server(bdir, c.base, "t%d" % SER[0]).start(); s.raw=Raw(s.srv, "obs"); s.m=Quiet(); s.m.next=100000
        s.cl=Cl(); s.types=layout.Types(); s.slots={}; s.evid=0; s.n=0; s.ncdt=0; s.mapid=0; s.base=s.raw.cdt("probe%d:a,INT,1" % SER[0])[1]
    def tagtab(s): return {t.name: (t.idx, t.type, t.count) for t in s.m.tags.values()}
    def ident(s): s.n+=1; return s.r.choice(["t%d", "tag_%d", "_no%d"[1:], "Q%dx", "a_rather_long_name_for_a_tag%03d"]) % s.n
    # values and their text
    def value(s, t):
        r=s.r
        if t == BOOL: v=r.random() < 0.5; return int(v), r.choice(["1", "0x1", "5"]) if v else "0"
        if t == CHAR:
            if r.random() < 0.4: v=r.choice(b"abcXYZ0189.,;-+*/#!"); return v, chr(v)
            v=r.randint(10, 127) if r.random() < 0.8 else r.randint(-128, -1); return v, str(v)
        if t in (REAL, LREAL): v=r.choice([0.0, 1.5, -2.25, 1e6, 0.125, float(r.randint(-10**6, 10**6))]); return v, repr(v)
        if t == TIME: v=r.randint(0, 253402300790000); return v, iso(v)
        lo, hi=rng_of(t); v=r.choice([0, 1, lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -100), min(hi, 100))])
        return v, hex(v) if v >= 0 and r.random() < 0.15 else str(v)
    def enc(s, t, vs):
        if t == BOOL: return sum(v << i for i, v in enumerate(vs)).to_bytes((len(vs)+7)//8, "little")
        return b"".join(struct.pack("<"+FMT[t], v) for v in vs)
    def pick(s, ok=lambda t: True):
        l=[t for t in s.m.tags.values() if ok(t)]
        return s.r.choice(l) if l else None
    def target(s, ok=lambda t: True):
        """(text, handle) of a simple-typed piece of a tag"""
        t=s.pick(); r=s.r
        if t is None: return None
        if t.type & CUSTOM:
            mn, mt, n, _=r.choice(s.types.members(t.type)[0]); e=t.name+("[%d]" % r.randrange(t.count) if t.count > 1 else "")+"."+mn; full=n
        else: e=t.name; full=t.count
        k=r.random(); cnt=0
        if full > 1 and k < 0.5: e+="[%d]" % r.randrange(full)
        elif k < 0.6 and full == 1 and not t.type & CUSTOM and t.type in INTS: e+=".%d" % r.randrange(tsize(t.type)*8)
        if full > 1 and r.random() < 0.3: cnt=r.randint(1, full)
        try: h=layout.resolve(s.types, s.tagtab(), e, cnt)
        except layout.Err: return None
        if h is None or h[5] & CUSTOM or not ok(h[5]): return None
        return e, h
    def again(s, e, n): 
        try: return layout.resolve(s.types, s.tagtab(), e, n)
        except layout.Err: return None
    # ---- the commands: each gives (text, lines it prints, has it to complain)
    def sp(s): return " "*s.r.choice([1, 1, 1, 1, 2, 3])
    def word(s, w): return s.r.choice([w, w.lower(), w.capitalize()])
    def join(s, *w): return s.sp().join(w)
    def addtag(s):
        r=s.r; k=r.random(); t=s.pick(lambda t: not t.type & CUSTOM)
        if t is not None and k < 0.12:
            n=t.count+r.randint(1, 5); s.m.add(s.cl, t.idx, t.name, t.type, n, 0); return s.join(s.word("ADD"), s.word("TAG"), t.name, NAMES[t.type], str(n)), [], False
        if t is not None and k < 0.18:
            ty=r.choice([x for x in INTS if x != t.type]); return s.join("add", "tag", t.name, NAMES[ty], "1"), [], True
        ty=r.choice(INTS+[BOOL, BOOL, CHAR, REAL, LREAL, TIME]+list(s.types.defs)); cnt=r.choice([1, 1, 1, 2, 3, 7, 8, 9, 12, 30]) if not ty & CUSTOM else r.choice([1, 1, 2]); name=s.ident()
        w=[s.word("ADD"), s.word("TAG"), name, s.types.tname(ty)]
        if cnt > 1 or r.random() < 0.5: w.append(str(cnt))
        ret=not ty & CUSTOM and r.random() < 0.1
        if ret: w.append("retain")
        s.m.add(s.cl, s.m.next, name, ty, cnt, A_RETAIN if ret else 0); return s.join(*w), [], False
    def addtype(s):
        r=s.r
        if s.ncdt >= 6: return None
        s.ncdt+=1; mem=[("m%d" % i, r.choice(INTS+[BOOL, REAL]+list(s.types.defs)[:2]), r.choice([1, 1, 2, 5])) for i in range(r.randint(1, 4))]
        name="Ty%d_%d" % (SER[0], s.ncdt); w=[name]
        for a, b, n in mem: w+=[a, s.types.tname(b), str(n)]
        tid=s.base+s.ncdt; s.types.add(tid, name, mem); s.m.types[tid]=s.types.size(tid)
        return s.join(s.word("ADD"), s.word("TYPE"), *w), [], False
    def deltag(s):
        t=s.pick()
        if t is None or len(s.m.tags) < 6: return None
        byidx=t.idx < 100000 and s.r.random() < 0.4; s.m.tag_del(t.idx); return s.join(s.word("DEL"), s.word("TAG"), str(t.idx) if byidx else t.name), [], False
    def write(s):
        r=s.r; x=s.target()
        if x is None: return None
        e, h=x; ty=h[5]; full=s.again(e, 0)[3]; n=r.choice([1, full, r.randint(1, full)]); h=s.again(e, n)
        if h is None: return None
        vs=[]; ws=[]; mk=[]
        for i in range(n):
            if r.random() < 0.15 and n > 1: vs.append(0); ws.append("~"); mk.append(0)
            else: v, w=s.value(ty); vs.append(v); ws.append(w); mk.append(1)
        text=s.join(s.word("WRITE"), e, *ws)
        if r.random() < 0.06 and ty in INTS and tsize(ty) < 8:
            lo, hi=rng_of(ty); k=r.randrange(n); ws[k]=str(r.choice([lo-1, hi+1, hi+1000])); return s.join("write", e, *ws), [], True
        s.store(h, vs, mk); return text, [], False
    def store(s, h, vs, mk):
        ty=h[5]
        if ty == BOOL:
            sh=h[2]; v=int.from_bytes(s.enc(BOOL, vs), "little") << sh; m=int.from_bytes(s.enc(BOOL, mk), "little") << sh; ok=s.m.mask(s.cl, h[0], h[1], v.to_bytes(h[4], "little"), m.to_bytes(h[4], "little"))
        elif all(mk): ok=s.m.write(s.cl, h[0], h[1], s.enc(ty, vs))
        else: ok=s.m.mask(s.cl, h[0], h[1], s.enc(ty, vs), b"".join((b"\xff" if k else b"\0")*tsize(ty) for k in mk))
        if not ok: raise Exception("model refuses a write")
    def string(s):
        r=s.r; x=s.target(lambda t: t in (BYTE, SINT, CHAR))
        if x is None: return None
        e, h=x; h=s.again(e, 0); n=h[3]; txt="".join(r.choice("abc DEF,12'x;=") for _ in range(r.randint(1, n+2)))
        b=txt.encode()[:n].ljust(n, b"\0"); s.m.write(s.cl, h[0], h[1], b); return s.join("write", e, '"%s"' % txt), [], False
    def lines(s, h, indent=0):
        t=s.m.tags[h[0]]; d=s.m.visible(t, h[1], h[4]); ty=h[5]
        if ty & CUSTOM:
            out=[]; z=s.types.size(ty)
            for k in range(h[3]): out+=s.compound(ty, d[k*z:(k+1)*z], 0)
            return out
        return s.simple(ty, d, h[2], h[3])
    def simple(s, ty, d, bit, n):
        if ty == BOOL: return ["%d" % (d[(bit+i)//8] >> (bit+i) % 8 & 1) for i in range(n)]
        if ty == CHAR: return b"".join(b" \0" if b == 0 else bytes([b]) for b in d).decode("latin1").split("\n")
        z=tsize(ty); return [show(ty, num(ty, d[i*z:i*z+z])) for i in range(n)]
    def compound(s, ty, d, ind):
        out=[]
        for mn, mt, n, pos in s.types.members(ty)[0]:
            if mt & CUSTOM: out.append(" "*ind+mn+" "); out+=s.compound(mt, d[pos//8:], ind+2)
            elif mt == BOOL: out.append(" "*ind+mn+" "+"".join(("true " if d[(pos+i)//8] >> (pos+i) % 8 & 1 else "false ") for i in range(n)))
            else: out.append(" "*ind+mn+" "+"".join(x+" " for x in s.simple(mt, d[pos//8:], 0, n)))
        return out
    def read(s):
        r=s.r; x=s.target()
        if r.random() < 0.2:
            t=s.pick(lambda t: t.type & CUSTOM and t.count == 1)
            if t is not None and not any(m[1] & CUSTOM and m[2] > 1 for tid in s.types.defs for m in s.types.defs[tid][1]): return s.join("read", t.name), s.lines((t.idx, 0, 0, 1, s.m.tsize(t), t.type)), False
        if x is None: return None
        e, h=x; n=r.choice([0, 0, h[3]]); h=s.again(e, n)
        if h is None: return None
        s.c.count("values read back", h[3]); return s.join(s.word("READ"), e, *([str(n)] if n else [])), s.lines(h), False
    def listtag(s):
        t=s.pick()
        if t is None: return None
        a="".join(x for b, x in ((A_RETAIN, " RETAINED"),) if t.attr & b)
        return s.join("list", "tag", t.name), ["%-32s %s%s%s" % (t.name, s.types.tname(t.type), "[%d]" % t.count if t.count > 1 else "", a)], False
    def listtype(s):
        if not s.types.defs: return None
        tid=s.r.choice(list(s.types.defs)); return s.join("list", "type", s.types.defs[tid][0]), ["%-32s  %s[%d]" % (a, s.types.tname(b), n) for a, b, n in s.types.defs[tid][1]], False
    def op(s):
        r=s.r; x=s.target(lambda t: t != CHAR)
        if x is None: return None
        e, h=x; ty=h[5]; o=r.choice(list(OPS)); H_=lambda h: H(h[0], h[1], h[2], h[3], h[4], h[5])
        if ty == TIME: o=r.choice(["INC", "DEC"])
        w=s.word(o)
        if o in ("INC", "DEC"):
            if ty in (BOOL, TIME) or r.random() < 0.5:
                h=s.again(e, 0)
                if h[3] != 1 or ty == BOOL: return s.join("op", e, w), [], True
                ok=s.m.atomic(s.cl, H_(h), OPS[o], s.enc(ty, [1])); return s.join("op", e, w), [], not ok
            h=s.again(e, 1)
            if h is None: return None
            v, t=s.value(ty); ok=s.m.atomic(s.cl, H_(h), OPS[o], s.enc(ty, [v])); return s.join("op", e, w, t), [], not ok
        if o == "NOT":
            h=s.again(e, 0); ok=s.m.atomic(s.cl, H_(h), OPS[o], bytes(h[4]) if ty != BOOL else bytes((h[3]+7)//8)) if ty != BOOL or (h[2]+h[3]-1)//8+1 == (h[3]+7)//8 else None
            return None if ok is None else (s.join("op", e, w), [], not ok)
        if r.random() < 0.1: return s.join("op", e, w), [], True
        full=s.again(e, 0)[3]; n=r.choice([1, full]); h=s.again(e, n)
        if h is None: return None
        vs=[]; ws=[]
        for i in range(n):
            if n > 1 and o in ("OR", "XOR") and r.random() < 0.15: vs.append(0); ws.append("~"); continue
            v, t=s.value(ty); vs.append(v); ws.append(t)
        if ty == BOOL and (h[2]+n-1)//8+1 != (n+7)//8: d=s.enc(ty, vs).ljust(h[4], b"\0")
        else: d=s.enc(ty, vs)
        ok=s.m.atomic(s.cl, H_(h), OPS[o], d); return s.join(s.word("OP"), e, w, *ws), [], not ok
    def override(s):
        r=s.r; k=r.random(); x=s.target(lambda t: t != CHAR)
        if x is None: return None
        e, h=x; t=s.m.tags[h[0]]
        if k < 0.4:
            full=s.again(e, 0)[3]; n=r.choice([1, full]); h=s.again(e, n)
            if h is None: return None
            v=[s.value(h[5]) for _ in range(n)]; d=s.enc(h[5], [a for a, b in v]); mask=b"\xff"*len(d)
            if h[5] == BOOL: d=(int.from_bytes(d, "little") << h[2]).to_bytes(h[4], "little"); mask=(((1 << n)-1) << h[2]).to_bytes(h[4], "little")
            ok=s.m.ovr_add(h[0], h[1], d, mask); return s.join("add", s.word("OVERRIDE"), e, *[b for a, b in v]), [], not ok
        h=s.again(e, 0)
        if k < 0.6: return s.join(s.word("SET"), e), [], not s.m.ovr_set(h[0], 1)
        if k < 0.8: return s.join(s.word("CLEAR"), e), [], not s.m.ovr_set(h[0], 0)
        mask=b"\xff"*h[4] if h[5] != BOOL else (((1 << h[3])-1) << h[2]).to_bytes(h[4], "little")
        ok=s.m.ovr_del(h[0], h[1], mask); return s.join("del", "override", e), [], not ok
    def addmap(s):
        if s.mapid > 5: return None
        a=s.target(); b=s.target()
        if a is None or b is None: return None
        (e1, h1), (e2, h2)=a, b; n1=h1[3]; n2=h2[3]; h1=s.again(e1, n1); h2=s.again(e2, n2)
        if h1 is None or h2 is None or h1[0] == h2[0] or TIME in (h1[5], h2[5]): return None
        if any(x.dst.idx == h2[0] for t in s.m.tags.values() for x in t.maps): return None # which of two comes last is open
        # no circles
        todo=[h2[0]]; seen=set()
        while todo:
            i=todo.pop()
            if i == h1[0]: return None
            if i in seen: continue
            seen.add(i); t=s.m.get(i); todo+=[x.dst.idx for x in t.maps] if t else []
        H1=H(*h1); H2=H(*h2)
        if not s.m.map_ok(H1, H2): return s.join("add", "map", e1, str(n1), e2, str(n2)), [], True
        s.mapid+=1; s.m.map_add(s.mapid, H1, H2); return s.join(s.word("ADD"), s.word("MAP"), e1, str(n1), e2, str(n2)), [], False
    def addevent(s):
        r=s.r; x=s.target(lambda t: t != CHAR)
        if x is None or len([1 for v in s.slots.values() if v]) >= 6: return None
        e, h=x; n=h[3]; h=s.again(e, n); et=r.choice(list(EVN))
        if h is None: return None
        w=["add", s.word("EVENT"), e, str(n), s.word(et)]; d=b""
        if EVN[et] in (E_EQUAL, E_GREATER, E_LESS, E_DEADBAND):
            if h[5] == BOOL: return None
            v, t=s.value(h[5]); d=s.enc(h[5], [v]); t=str(v) if h[5] == TIME else t
            if et == "DEADBAND" and h[5] in (LREAL, REAL, *INTS, TIME) and v <= 0: v=abs(v) if h[5] in (LREAL, REAL) else 5; t=str(v); d=s.enc(h[5], [v])
            w.append(t)
        H_=H(*h)
        if not s.m.ev_ok(s.cl, H_, EVN[et]): return s.join(*w), [], True
        k=1
        while s.slots.get(k): k+=1
        s.evid+=1; ev=s.m.ev_add(s.cl, s.evid, H_, EVN[et], d); s.slots[k]=(h[0], s.evid); return s.join(*w), [], False
    def delevent(s):
        l=[k for k, v in s.slots.items() if v]
        if not l: return None
        k=s.r.choice(l); i, id=s.slots[k]
        if s.m.get(i) is None: return None
        s.m.ev_del(s.cl, i, id); s.slots[k]=None; return s.join("del", "event", str(k)), [], False
    def bad(s):
        t=s.pick(lambda t: not t.type & CUSTOM); a=t.name if t else "nosuch"; n=t.count if t else 1; v="1"
        return s.r.choice(["write nosuch 1", "read nosuch", "read", "write", "del tag", "del tag nosuch", "del tag 99999999", "add tag", "add", "del", "add tag 9bad int 1", "add tag _mine INT 1", "add tag has-dash INT", "add tag xyz", "add tag xyz nosuchtype 3", "add tag x23456789012345678901234567890123 INT 1",
            "op nosuch inc", "op %s frob 1" % a, "op", "op %s" % a, "set nosuch", "set", "clear nosuch", "clear", "del override nosuch", "del override", "add override nosuch 1", "add override", "add override %s" % a, "add map %s 1 nosuch 1" % a, "add map %s 1" % a, "add map %s 0 %s 0" % (a, a),
            "add event nosuch 1 change", "add event %s 1 frob" % a, "add event %s" % a, "add event", "add event %s %d change" % (a, n+1), "del event 0", "del event 65", "del event -3", "del event", "del event 40", "del event 2000000000", "add type ty_a m", "add type ty_a m INT", "add type ty_a m INT 1 b nosuchtype 1", "add type", "add type ty_b m INT 0",
            "write %s" % a, "write %s %s" % (a, " ".join([v]*(n+1))), "write %s[%d] 1" % (a, n), "read %s[%d]" % (a, n), "read %s %d" % (a, n+1), "list frobs", "frobnicate", "list tag nosuch", 'write %s ""' % a, 'write %s "' % a, "x"*3000, "write "+"y"*200+" 1", "del tag _tagcount", "del tag 0"]), [], True
    def none(s):
        r=s.r; return r.choice(["# a remark", "", "   ", "#", " ", "# add tag remark INT 1"]), [], False
    def kind(s): return s.r.choices([s.addtag, s.addtype, s.deltag, s.write, s.string, s.read, s.listtag, s.listtype, s.op, s.override, s.addmap, s.addevent, s.delevent, s.bad, s.none], [7, 2, 2, 20, 4, 16, 3, 1, 14, 9, 3, 5, 2, 9, 3])[0]
    def one(s, f=None):
        f=f or s.kind(); x=f()
        if x is None: return None
        s.c.count("cmd:"+f.__name__); s.c.case("%s %s" % (f.__name__, x[2])); return x
    def script(s, n):
        """-> [(text, lines, bad)] with the events collected by poll"""
        out=[]; s.m.out=[]; tries=0
        while len(out) < n and tries < n*10:
            tries+=1; f=s.kind()
            if s.m.out and f in (s.deltag, s.delevent): out.append(s.poll()) # what is waiting for an event that is gone is lost
            x=s.one(f)
            if x is None: continue
            out.append(x)
            if s.m.out and (len(s.m.out) >= 3 or s.r.random() < 0.6 or x[0].lower().startswith("del")): out.append(s.poll())
        if s.m.out: out.append(s.poll())
        out.append(("poll", [], False))
        return out
    def poll(s):
        ev=[(i, id) for cl, et, i, id, d in s.m.out]; s.m.out=[]; inv={v: k for k, v in s.slots.items() if v}
        l=["%d" % inv[x] for x in ev if x in inv] if len(ev) <= 8 else ["any"]*8; s.c.count("events printed", len(l)); return "poll", l, False
    # ---- running it
    def run(s, mode, cmds):
        SER[0]+=1; cwd=core.fresh(os.path.join(s.c.base, "x%d" % SER[0])); os.makedirs(cwd); log=os.path.join(cwd, "err"); outf=os.path.join(cwd, "out"); argv=[os.path.join(s.bdir, "src/modules/daxc/daxc"), "-U", s.srv.sock]
        text="\n".join(t for t, _, _ in cmds)+("\n" if s.r.random() < 0.7 else ""); stdin=subprocess.DEVNULL
        if mode == "file": open(os.path.join(cwd, "script"), "w").write(text); argv+=["-q", "script"]
        elif mode == "x": argv+=["-q", "-x", cmds[0][0]]
        elif mode == "x+file": open(os.path.join(cwd, "script"), "w").write("\n".join(t for t, _, _ in cmds[1:])); argv+=["-q", "-x", cmds[0][0], "script"]
        else: open(os.path.join(cwd, "in"), "w").write(text+"\n"); stdin=open(os.path.join(cwd, "in"))
        env=dict(os.environ, HOME=cwd, TERM="dumb"); p=core.spawn(argv, cwd, log, stdin=stdin, stdout=open(outf, "wb"), env=env)
        try: p.wait(120)
        except Exception: p.kill(); raise Violation("hang", "%s mode: daxc has not ended after 120 s" % mode, [t for t, _, _ in cmds])
        rep=core.san_report(log)
        if rep: raise Died("daxc (%s): %s" % (mode, rep["key"]), rep)
        if p.returncode: raise Violation("status", "%s mode: daxc ended with status %d" % (mode, p.returncode), [t for t, _, _ in cmds])
        s.srv.check(); out=open(outf, "rb").read().decode("latin1"); err=[l for l in open(log, errors="replace").read().split("\n") if l.strip()]
        got=out.split("\n"); got=got[:-1] if got and got[-1] == "" else got
        err+=["ERROR "+l for l in got if l.startswith("OPPS")]; got=[l[:-9] if l.endswith(" OVERRIDE") else l for l in got if not l.startswith(("[daxc]", "OPPS"))] # the client may know the attribute from before
        if mode == "stdin": got=[l[6:-9] if l.startswith("Event ") and l.endswith(" Received") else l for l in got if not l.startswith(("dax>", "Tag Added at index", "OK: Event "))]
        k=0
        for t, ls, _ in cmds:
            g=[x.replace("-nan", "nan") for x in got[k:k+len(ls)]]; k+=len(ls)
            if t == "poll": ok=len(g) == len(ls) and all(x.isdigit() for x in g) and ("any" in ls or sorted(g) == sorted(ls))
            else: ok=g == ls
            if not ok: raise Violation("output:"+(t.split() or [""])[0].lower(), "%s mode: %r: the output is %r, should be %r" % (mode, t[:100], g[:10], ls[:10]), dict(script=[t for t, _, _ in cmds], err=err[-30:]))
        if got[k:]: raise Violation("output:more", "%s mode: there is more output: %r" % (mode, got[k:k+5]), dict(script=[t for t, _, _ in cmds], err=err[-30:]))
        nbad=sum(1 for x in cmds if x[2]); ne="\n".join(err).count("ERROR")+"\n".join(err).count("Unknown Command")
        if ne != nbad: raise Violation("complaint", "%s mode: %d commands are wrong, %d complaints" % (mode, nbad, ne), dict(bad=[t[:100] for t, _, b in cmds if b], err=err[:60], script=[t for t, _, _ in cmds]))
        s.c.count("commands", len(cmds)); s.c.count("wrong commands", nbad); s.c.count("runs:"+mode); return out
    def depart(s):
        for t in s.m.tags.values(): t.events=[e for e in t.events if e.cl is not s.cl]
        s.slots={}; s.m.out=[]
    def compare(s, script):
        new={}
        for t in list(s.m.tags.values()):
            res, x=s.raw.by_name(t.name)
            if res or x is None: raise Violation("tag", "tag %s does not exist (error %s)" % (t.name, res), script)
            if (x[1], x[2]) != (t.type, t.count): raise Violation("tag", "tag %s is %s, should be type %d count %d" % (t.name, x, t.type, t.count), script)
            new[t.idx]=x[0]
        mp=lambda i: new.get(i, i)
        tags=s.m.tags; s.m.tags={}
        for t in tags.values():
            t.idx=mp(t.idx); s.m.tags[t.idx]=t
            for x in t.maps: x.src.idx=mp(x.src.idx); x.dst.idx=mp(x.dst.idx)
        s.m.names={t.name: t.idx for t in s.m.tags.values()}; s.m.next=100000+s.n
        res, d=s.raw.read(0, 0, 4); n=struct.unpack("<i", d)[0]
        for t in s.m.tags.values():
            z=s.m.tsize(t); res, d=s.raw.read(t.idx, 0, z); w=s.m.visible(t, 0, z)
            if t.type == BOOL and t.count % 8 == 0: d=d[:t.count//8]; w=w[:t.count//8]
            if res or d != w: raise Violation("state", "tag %s (%s[%d]) holds %s, should hold %s" % (t.name, s.types.tname(t.type), t.count, d.hex() if d else res, w.hex()), script)
            if bool(s.raw.by_index(t.idx)[1][3] & A_RETAIN) != bool(t.attr & A_RETAIN): raise Violation("attr", "tag %s: attributes" % t.name, script)
            s.c.count("tags compared")
        # nothing else has been made
        known=set(t.idx for t in s.m.tags.values()); res, d=s.raw.read(1, 0, 4); last=struct.unpack("<i", d)[0]
        for i in range(11, last+1):
            if i in known: continue
            res, x=s.raw.by_index(i)
            if res == 0 and not x[4].startswith("_"): raise Violation("stray", "there is a tag %s nobody asked for" % (x,), script)
        for tid, (name, mem) in s.types.defs.items():
            if s.raw.cdt_get(name=name)[0]: raise Violation("type", "type %s does not exist" % name, script)

def sessions(c, bdir, rounds, n):
    s=Term(c, bdir)
    for k in range(rounds):
        mode=s.r.choice(["file", "file", "file", "x+file", "stdin", "x"]); cmds=s.script(n)
        if mode in ("x", "x+file") and (not cmds[0][0] or cmds[0][0].startswith("#") or cmds[0][0].startswith("-")): mode="file"
        if mode == "x":
            # a command each
            for t, l, b in cmds:
                if not t.strip() or t.startswith(("poll", "del event", "add event")): continue
            mode="file"
        s.run(mode, cmds); s.depart(); s.compare([t for t, _, _ in cmds])
    for k in range(6):
        x=s.one(); s.m.out=[]
        if x is None or not x[0].strip() or "event" in x[0].lower(): s.depart(); continue
        s.run("x", [x]); s.depart(); s.compare([x[0]])

def files(c, bdir):
    """script files: empty, one line without an end, very long lines, many lines"""
    s=Term(c, bdir); r=s.r
    s.run("file", [("", [], False)]); s.run("file", [("# only a remark", [], False)])
    n=400; vs=[r.randint(0, 2**32-1) for _ in range(n)]; s.m.add(s.cl, s.m.next, "big", UDINT, n, 0); t=s.m.tags[s.m.names["big"]]; t.data[:]=struct.pack("<%dI" % n, *vs)
    cmds=[("add tag big UDINT %d" % n, [], False), ("write big "+" ".join(map(str, vs)), [], False), ("read big", [str(v) for v in vs], False), ("op big[3] inc", [], False), ("read big[3]", [str((vs[3]+1) & 0xFFFFFFFF)], False)]
    t.data[12:16]=struct.pack("<I", (vs[3]+1) & 0xFFFFFFFF)
    for k in range(r.randint(1, 3)): cmds.append(("op big[%d] inc" % k, [], False)); t.data[4*k:4*k+4]=struct.pack("<I", (vs[k]+1) & 0xFFFFFFFF)
    s.run("file", cmds); s.compare([x[0] for x in cmds])
    # 64 events, and no more
    s.m.add(s.cl, s.m.next, "ev", DINT, 70, 0); cmds=[("add tag ev DINT 70", [], False)]
    for k in range(64): cmds.append(("add event ev[%d] 1 CHANGE" % k, [], False))
    cmds.append(("add event ev[64] 1 CHANGE", [], True)); d=s.m.tags[s.m.names["ev"]].data
    for k in r.sample(range(64), 10): cmds+=[("write ev[%d] 7" % k, [], False), ("poll", [str(k+1)], False)]; d[4*k:4*k+4]=b"\7\0\0\0"
    x=r.sample(range(64), 3)
    for k in x: cmds.append(("del event %d" % (k+1), [], False)); cmds.append(("del event %d" % (k+1), [], True))
    for i, k in enumerate(sorted(x)): cmds+=[("add event ev[%d] 1 WRITE" % (65+i), [], False), ("write ev[%d] 3" % (65+i), [], False), ("poll", [str(k+1)], False)]; d[4*(65+i):4*(66+i)]=b"\3\0\0\0"
    s.run("file", cmds); s.compare([x[0] for x in cmds]); c.count("event slots", 64)

def body(c):
    bdir=core.build("asan", ["tagserver", "daxc"])
    for k in range(c.n(2, 10)): c.run("files%d" % k, files, c, bdir)
    for k in range(c.n(30, 500)): c.run("session%d" % k, sessions, c, bdir, 5, c.n(70, 120))

core.main("P29", "the command client does what it is told", body)
