import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import struct, threading, time, collections
from vf import core
from vf.core import Violation, Died, Drv, hx, uhx
from vf.proto import *
serial=0
def key(d): return struct.unpack("<II", d)
def concurrent(c, b, nwrites, nwriters, nsubs):
    """writers, subscribers and registrations all at once; the recorded streams are checked against each other"""
    global serial; serial+=1
    r=c.rng; srv=core.Server(b, c.base, "c%d" % serial).start()
    def bad(k, m, d=None): raise Violation(k, m, d)
    errs=[]
    try:
        boot=Raw(srv, "boot"); ntags=3
        tags=[boot.tag_add("t%d" % i, ULINT, 1+i*3) for i in range(ntags)]   # the first element of each is written
        plain=boot.tag_add("other", DINT, 10)
        mapped=boot.tag_add("mapped", ULINT, 1)
        boot.map_add(H(tags[0], 0, 0, 1, 8, ULINT), H(mapped, 0, 0, 1, 8, ULINT))
        subs=[]
        for i in range(nsubs):
            s=Raw(srv, "sub%d" % i, tcp=r.random() < 0.4); s.watch={}; s.got=[]
            for t in tags+[mapped]:
                if t != tags[0] and t != mapped and r.random() < 0.3: continue
                h=H(t, 0, 0, 1, 8, ULINT)
                n=r.choice([1, 1, 2])
                for _ in range(n):
                    e=s.ev_add(h, E_WRITE)
                    if e < 0 or s.ev_opt(t, e, 1): bad("setup", "event refused")
                    if (t, e) in s.watch: bad("id", "event id given out twice")
                    s.watch[(t, e)]=r.random() < 0.8
                    if not s.watch[(t, e)]: s.ev_opt(t, e, 0)
            subs.append(s)
        go=threading.Event()
        def guarded(fn):
            def f(*a):
                go.wait()
                try: fn(*a)
                except (Violation, Died) as x: errs.append(x)
                except Exception as x: errs.append(Violation("malformed", repr(x)))
            return f
        import random as _r
        @guarded
        def writer(w, rr):
            s=Raw(srv, "w%d" % w, tcp=rr.random() < 0.5); k=0
            g=s.grp_add([H(t, 0, 0, 1, 8, ULINT) for t in tags])
            while k < nwrites:
                n=rr.choice([1, 1, 3, 10, 40]); out=b""; sent=0
                for _ in range(min(n, nwrites-k)):
                    k+=1; v=struct.pack("<II", w, k); q=rr.random()
                    t=tags[k % ntags]
                    if q < 0.7: out+=s.frame(TAG_WRITE, struct.pack("<iI", t, 0)+v); order[w].append((t, k))
                    elif q < 0.85: out+=s.frame(TAG_MWRITE, struct.pack("<iI", t, 0)+v+b"\xff"*8); order[w].append((t, k))
                    else:
                        out+=s.frame(GRP_WRITE, struct.pack("<I", g)+v*ntags)
                        for x in tags: order[w].append((x, k))
                    sent+=1
                    if rr.random() < 0.2: out+=s.frame(TAG_WRITE, struct.pack("<iI", plain, 0)+b"abcd"); sent+=1
                s.send(out)
                for _ in range(sent):
                    m=s.recv()
                    if m is None: s._dead("no reply")
                    if not m[0] & RESP: raise Violation("write", "write refused")
                if rr.random() < 0.1: time.sleep(rr.random()*0.003)
            s.close()
        slices=[]
        @guarded
        def churner(i, rr):
            s=Raw(srv, "ch%d" % i); t=tags[0]; alive=set(); tap=[]
            while not stop.is_set():
                h=H(t, 0, 0, 1, 8, ULINT); e=s.ev_add(h, E_WRITE)
                if e < 0: raise Violation("churn", "event refused %d" % e)
                s.ev_opt(t, e, 1); s.drain()
                # from here on every write must show up until it is removed
                first=len(tap); mine=[]
                for _ in range(rr.randrange(1, 12)):
                    s.read(plain, 0, 4)
                    if rr.random() < 0.3: time.sleep(rr.random()*0.002)
                if s.ev_del(t, e): raise Violation("churn", "removal refused")
                for (et, ix, id_, d) in s.events:
                    if id_ != e or ix != t: raise Violation("misrouted", "client got a notification of tag %d event %d, it has only %d" % (ix, id_, e))
                    mine.append(key(d))
                s.events=[]
                s.read(plain, 0, 4); x=s.drain()
                if x: raise Violation("after-removal", "event %d notified after its removal was acknowledged" % e)
                slices.append(mine)
                if rr.random() < 0.15: s.close(); s=Raw(srv, "ch%d" % i)
                if rr.random() < 0.1:   # leave with a live event
                    s.ev_add(h, E_WRITE); (s.rst if rr.random() < 0.5 else s.close)(); s=Raw(srv, "ch%d" % i)
            s.close()
        @guarded
        def reader(s, rr, slow):
            while not stop.is_set():
                s.got.extend(s.drain(0.02))
                if slow: time.sleep(rr.random()*0.02)
        order=collections.defaultdict(list); stop=threading.Event()
        ws=[threading.Thread(target=writer, args=(w, _r.Random(r.random()))) for w in range(nwriters)]
        os_=[threading.Thread(target=churner, args=(i, _r.Random(r.random()))) for i in range(2)]+[threading.Thread(target=reader, args=(s, _r.Random(r.random()), r.random() < 0.3)) for s in subs]
        for t in ws+os_: t.start()
        go.set()
        for t in ws: t.join()
        stop.set()
        for t in os_: t.join()
        if errs: raise errs[0]
        ref=None
        for s in subs:
            rr, p=s.read(tags[0], 0, 8); s.got.extend(s.drain(0.05))
            per=collections.defaultdict(list); merged=[]
            for et, ix, id_, d in s.got:
                if et != E_WRITE or (ix, id_) not in s.watch: bad("misrouted", "%s got notification type %d of tag %d event %d that is not its own" % (s, et, ix, id_))
                if not s.watch[(ix, id_)]:
                    if d: bad("data", "event without the data option carries data")
                    per[(ix, id_)].append(None); continue
                if len(d) != 8: bad("data", "event carries %d bytes instead of 8" % len(d))
                per[(ix, id_)].append(key(d)); merged.append((ix, id_, key(d)))
            total=sum(1 for w in order for x in order[w] if x[0] == tags[0])
            for (ix, e), dat in s.watch.items():
                src=tags[0] if ix == mapped else ix
                want=sum(1 for w in order for x in order[w] if x[0] == src); l=per[(ix, e)]
                if len(l) != want: bad("count", "%d notifications of tag %d event %d for %d writes" % (len(l), ix, e, want))
                c.case((ix == mapped, dat, nsubs, len(l)//50))
                c.count("notifications", len(l))
                if not dat: continue
                cnt=collections.Counter(l); dup=[k for k in cnt if cnt[k] > 1]
                if dup: bad("duplicate", "tag %d event %d notified %d times of write %r" % (ix, e, cnt[dup[0]], dup[0]))
                for w in order:
                    got=[k for (a, k) in l if a == w]; exp=[k for x, k in order[w] if x == src]
                    if got != exp: bad("order", "writer %d's writes of tag %d were notified out of order or wrong: %s" % (w, ix, [(g, x) for g, x in zip(got, exp) if g != x][:3]))
                if src == tags[0]:
                    if ref is None: ref=l
                    elif l != ref: i=next(i for i in range(len(l)) if l[i] != ref[i]); bad("agreement", "subscribers saw different orders at %d: %r and %r" % (i, l[i], ref[i]))
            # across tags each writer's order is kept
            for w in order:
                seqs=collections.defaultdict(int)
                for ix, e, (a, k) in merged:
                    if a != w: continue
                    if k < seqs["max"]: bad("order", "notification of write %d of writer %d came after that of write %d" % (k, w, seqs["max"]))
                    seqs["max"]=k
        if ref is not None:
            if ref and struct.unpack("<II", boot.read(tags[0], 0, 8)[1]) != ref[-1]: bad("last", "the tag holds another value than the last notification")
            pos={k: i for i, k in enumerate(ref)}
            for m in slices:
                ii=[pos.get(k) for k in m]
                if None in ii or ii != list(range(ii[0], ii[0]+len(ii))) if ii else False: bad("gap", "a temporary subscriber saw %s, which is not a run of the writes" % (m[:10],))
                c.count("temporary_subscriptions"); c.count("temporary_notifications", len(m))
            c.case(tuple(k[0] for k in ref[:400]))    # the interleaving of the writers
            sw=sum(1 for i in range(1, len(ref)) if ref[i][0] != ref[i-1][0]); c.count("writer_switches", sw)
        srv.check()
        for s in subs: s.close()
        boot.close()
    finally:
        srv.kill9()

def library(c, b, exe, steps):
    """callbacks of the client library against the log of writes"""
    global serial; serial+=1
    r=c.rng; srv=core.Server(b, c.base, "l%d" % serial).start(); ds=[]
    def bad(k, m, d=None): raise Violation(k, m, d)
    try:
        raw=Raw(srv, "raw")
        T=[]
        for i, (t, n) in enumerate([(ULINT, 4), (DINT, 10), (BOOL, 30), (REAL, 3), (DWORD, 2), (TIME, 2), (UINT, 8), (SINT, 8), (BYTE, 4080)]):
            T.append((raw.tag_add("t%d" % i, t, n), t, n))
        for i in range(2):
            d=Drv(exe, c.base, srv, "d%d" % i, tcp=i == 1); ds.append(d)
            if d.connect(): bad("connect", "no connection")
            d.ev={}; d.q=[]; d.freed=[]
        raw.write(T[-1][0], 0, r.randbytes(4080))
        val={t[0]: bytearray(raw.read(t[0], 0, (t[2]+7)//8 if t[1] == BOOL else tsize(t[1])*t[2])[1]) for t in T}
        tagno=0; seq=0; nw=0
        def bits(idx, h): return int.from_bytes(val[idx], "little") >> h.byte*8+h.bit & (1 << h.count)-1
        def fire(idx, lo, hi, before):
            """log what the write of bytes [lo,hi) must cause"""
            nonlocal nw
            nw+=1
            for d in ds:
                for (i, e), (h, et, ud, opt, cmp) in d.ev.items():
                    if i != idx or not (h.byte < hi and lo < h.byte+h.size): continue
                    now=bytes(val[idx][h.byte:h.byte+h.size])
                    if h.type == BOOL:
                        x=bits(idx, h)
                        m=(1 << h.count)-1; sat=d.sat[(i, e)]
                        # a bit that satisfies the condition already counts when it is first written
                        hit=x ^ sat if et == E_CHANGE else x if et == E_SET else ~x & m
                        f=True if et == E_WRITE else bool(hit) if et == E_CHANGE else bool(hit & ~sat)
                        d.sat[(i, e)]=x if et == E_CHANGE else hit
                        now=None       # the raw bytes around the bits
                    elif et == E_WRITE: f=True
                    elif et == E_CHANGE: f=now != before[h.byte:h.byte+h.size]
                    else:
                        fm="<"+FMT[h.type]; n=tsize(h.type); x, y=struct.unpack(fm, now)[0], struct.unpack(fm, before[h.byte:h.byte+h.size])[0]; v=struct.unpack(fm, cmp)[0]
                        # only single items are used with these, so the condition is that of the item
                        p=dict(zip((E_EQUAL, E_GREATER, E_LESS), (lambda z: z == v, lambda z: z > v, lambda z: z < v)))[et]
                        f=p(x) and not d.sat.get((i, e), False); d.sat[(i, e)]=p(x)
                    if f: d.q.append((ud, opt, now, i, e, nw))
        def write():
            nonlocal seq
            idx, t, n=r.choice(T+T[-1:]*3); e=tsize(t) if t != BOOL else 1; tot=len(val[idx])
            k=r.randrange(tot//e); cnt=r.randrange(1, min(3 if tot < 4000 or r.random() < 0.5 else 4080, tot//e-k)+1); before=bytes(val[idx]); d=b""
            for _ in range(cnt):
                seq+=1
                if t in (REAL, LREAL): d+=struct.pack("<"+FMT[t], r.choice([0.0, 1.0, -1.5, 2.5, float(seq)]))
                elif r.random() < 0.4: d+=r.choice([0, 1, 3, 5, 70000 if e > 2 else 7]).to_bytes(e, "little")
                else: d+=(seq*2654435761 % (1 << 8*e)).to_bytes(e, "little")
            if t == BOOL and k+cnt == tot: d=d[:-1]+bytes([d[-1] & 0x3F])
            if raw.write(idx, k*e, d): bad("write", "refused")
            val[idx][k*e:k*e+cnt*e]=d; fire(idx, k*e, k*e+cnt*e, before)
        def fence(d):
            x=d.cmd("read", T[0][0], 0, 1)
            if int(x[0]): bad("fence", "read failed")
        ids={}
        def drain(d, lossy=True):
            """all that is pending for this client, in order"""
            fence(d); exp=list(d.q); d.q=[]; got=[]
            want=r.choice([0, 8, 16, 64, 4080])
            while True:
                nest=r.random() < 0.25; o=d.cmd("ev_poll", want, *["nest"]*nest)
                rr=int(o[0]); n=int(o[3]); left=int(o[-1].split("=")[1])
                if left != ERR["DELETED"]: bad("data:scope", "the data of an event can still be had after its callback (%d)" % left)
                if rr == ERR["NOTFOUND"]:
                    if n: bad("callback", "callback without an event")
                    break
                if rr == 0:
                    if n != 1 and (n != 2 or not nest): bad("callback", "one event ran %d callbacks" % n)
                    u, rest=o[4].split("/", 1); i, e=map(int, o[1].split(":")); got.append((int(u), rest, i, e))
                    if rest.startswith("-777"): bad("data:nested", "the data of an event is not the same after another event was handled in its callback")
                    if n == 2: u, rest=o[5].split("/", 1); got.append((int(u), rest)+ids.get(int(u), (-1, -1))); c.count("nested")
                    elif nest and int(o[-2].split("=")[1]) not in (0, ERR["NOTFOUND"]): got.append(None)
                elif n: bad("callback", "callback ran for a removed event")
                else: got.append(None)
                if len(got) > 5000: bad("endless", "events never end")
            if len(exp) > 8 and lossy:
                # only the oldest may be missing
                if len(got) < 8 or len(got) > len(exp): bad("lost", "%d of %d events were kept" % (len(got), len(exp)))
                # of the write that lies at the cut any of the notifications may be left
                full=exp[-len(got):]; cut=full[0][5]; rest=[x for x in full if x[5] != cut]; k=len(full)-len(rest)
                pool=[x for x in exp if x[5] == cut]; first=[]
                for g in got:
                    if len(first) == k: break
                    m=[x for x in pool if g and (x[3], x[4]) == (g[2], g[3])]
                    if m: first.append(m[0]); pool.remove(m[0])
                if len(first) < k: first+=pool[:k-len(first)]
                exp=first+rest; c.count("overruns")
            if len(got) != len(exp): bad("count", "%s: %d callbacks for %d events: got %s, expected %s" % (d.name, len(got), len(exp), got[:6], [x[0] for x in exp[:6]]))
            # notifications caused by one write may come in any order among themselves: compare as multisets per client
            a=collections.Counter((g[0], g[2], g[3]) for g in got if g); z=collections.Counter((x[0], x[3], x[4]) for x in exp if (x[3], x[4]) not in d.gone)
            if a != z: bad("wrong", "%s: callbacks %s, expected %s" % (d.name, list((a-z).items())[:4], list((z-a).items())[:4]))
            # per event the order and the data
            per=collections.defaultdict(list)
            for x in exp: per[(x[3], x[4])].append(x)
            for g in got:
                if g is None: continue
                x=per[(g[2], g[3])].pop(0)
                if g[0] != x[0]: bad("userdata", "event %r ran with user data %d instead of %d" % (g[2:], g[0], x[0]))
                if want and x[1]:
                    res, dd=g[1].split("/", 1); res=int(res)
                    if x[2] is not None:
                        n=min(want, len(x[2]))
                        if res != n or uhx(dd)[:n] != x[2][:n]: bad("data", "event data %s (%d), expected %s" % (dd, res, x[2].hex()))
                        if any(b_ != 0xEE for b_ in uhx(dd)[n:]): bad("data:overrun", "more than %d bytes written" % n)
                    elif res < 0: bad("data", "no data for a BOOL event (%d)" % res)
                elif want and not x[1]:
                    if int(g[1].split("/")[0]) > 0: bad("data", "data although it was not asked for")
                c.case((g[0] % 50, want, x[1]))
            c.count("callbacks", len(got))
        for d in ds: d.sat={}; d.gone=set()
        for step in range(steps):
            d=r.choice(ds); k=r.random()
            if k < 0.12 and len(d.ev) < 40:
                drain(d)
                idx, t, n=r.choice(T+T[-1:]*2); et=r.choice([E_WRITE, E_CHANGE, E_SET, E_RESET]) if t == BOOL else r.choice([E_WRITE, E_CHANGE, E_WRITE]+([] if t == REAL else [E_EQUAL])+[E_GREATER, E_LESS])
                i=r.randrange(n); cnt=1 if et in (E_EQUAL, E_GREATER, E_LESS) else r.randrange(1, n-i+1)
                if t == BOOL: h=H(idx, i//8, i % 8, cnt, (i % 8+cnt-1)//8+1, t)
                else: h=H(idx, i*tsize(t), 0, cnt, cnt*tsize(t), t)
                cmp=b""
                if et in (E_EQUAL, E_GREATER, E_LESS): cmp=struct.pack("<f", r.choice([0.0, 1.0, 2.5])) if t == REAL else r.choice([0, 1, 3, 5, 70000 if tsize(t) > 2 else 7]).to_bytes(tsize(t), "little")
                tagno+=1; o=d.cmd("ev_add", h.s(), et, tagno, hx(cmp) if cmp else "-")
                if int(o[0]): bad("add", "event %s type %d refused (%s)" % (h, et, o[0]))
                i_, e_=map(int, o[1].split(":"))
                if (i_, e_) in d.ev or i_ != idx: bad("id", "event id %s already in use" % o[1])
                opt=r.random() < 0.6
                if opt and d.i("ev_opt", o[1], 1): bad("option", "refused")
                ids[tagno]=(i_, e_); d.ev[(i_, e_)]=(h, et, tagno, opt, cmp); d.gone.discard((i_, e_)); d.sat[(i_, e_)]=(bits(idx, h) if t == BOOL and et == E_CHANGE else 0); c.count("events")
            elif k < 0.18 and d.ev:
                if r.random() < 0.5: drain(d)
                x=r.choice(list(d.ev)); u=d.ev[x][2]
                fence(d)
                if len(d.q) > 7: drain(d, True)
                if d.i("ev_del", "%d:%d" % x): bad("del", "removal refused")
                del d.ev[x]; d.gone.add(x)
                f=d.cmd("freed")
                if f != ["1", str(u)]: bad("free", "removing the event with user data %d freed %s" % (u, f))
                drain(d)
                if d.i("ev_del", "%d:%d" % x) == 0: bad("del", "removed twice")
                c.count("removals")
            elif k < 0.19 and d.ev:
                # a new connection: the events of the old one are gone, and their user data is given back once
                drain(d); gone=sorted(v[2] for v in d.ev.values()); d.cmd("freed")
                if r.random() < 0.7 and d.i("disconnect"): bad("disconnect", "failed")
                if d.connect(): bad("connect", "connecting again failed")
                f=[int(x) for x in d.cmd("freed")[1:]]
                if sorted(f) != gone: bad("free", "connecting again freed %s instead of %s" % (sorted(f), gone))
                d.ev={}; d.q=[]; d.sat={}; d.gone=set(); c.count("reconnects")
            elif k < 0.24:
                drain(d)
                # nothing pending: the wait ends on time
                ms=r.choice([1, 20, 60]); o=d.cmd("ev_wait", ms, 0)
                if int(o[0]) != -14 or int(o[3]): bad("wait:timeout", "wait without an event returned %s" % o)
                if float(o[2]) < ms/1000-0.002: bad("wait:early", "wait of %d ms ended after %s s" % (ms, o[2]))
                if float(o[2]) > ms/1000+3: bad("wait:late", "wait of %d ms ended after %s s" % (ms, o[2]))
                c.count("timeouts")
            elif k < 0.34 and any(x[1] == E_WRITE for x in d.ev.values()):
                drain(d)
                # somebody waits, then it happens
                delay=r.choice([0, 0.001, 0.004])
                res=[]; th=threading.Thread(target=lambda: res.append(d.cmd("ev_wait", 20000, 0))); th.start()
                time.sleep(delay)
                for _ in range(5):
                    write()
                    if d.q: break
                if not d.q:
                    h=r.choice([x[0] for x in d.ev.values() if x[1] == E_WRITE]); before=bytes(val[h.idx])
                    raw.write(h.idx, h.byte, before[h.byte:h.byte+h.size]); fire(h.idx, h.byte, h.byte+h.size, before)
                th.join(15)
                if th.is_alive() or not res: bad("wait:stuck", "event did not end the wait")
                if int(res[0][0]) or int(res[0][3]) != 1: bad("wait", "wait returned %s" % res[0])
                if float(res[0][2]) > 10: bad("wait:slow", "the wait took %s s" % res[0][2])
                u=int(res[0][4].split("/")[0]); i_, e_=map(int, res[0][1].split(":"))
                m=[x for x in d.q if (x[3], x[4]) == (i_, e_)]
                if not m or m[0][0] != u: bad("wait:wrong", "wait dispatched %s" % res[0])
                d.q.remove(m[0]); c.count("wakeups")
                drain(d)
            elif k < 0.9:
                for _ in range(r.choice([1, 1, 2, 4])):
                    write()
                for x in ds:
                    if len(x.q) > 8: drain(x, True)
                    elif r.random() < 0.4: drain(x)
            else:
                for _ in range(r.randrange(10, 60)): write()
                for x in ds: drain(x, True)
        for d in ds:
            drain(d)
            left=sorted(v[2] for v in d.ev.values())
            d.cmd("freed")
            if d.i("disconnect"): bad("disconnect", "failed")
            if d.i("free"): bad("free", "dax_free failed")
            d.close()
        srv.check()
    finally:
        for d in ds: d.kill()
        srv.kill9()

def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "daxdrv.c")
    for i in range(c.n(5, 40)): c.run("concurrent %d" % i, concurrent, c, b, c.n(300, 1500), c.rng.choice([1, 2, 3, 5]), c.rng.choice([1, 2, 4]))
    for i in range(c.n(8, 80)): c.run("library %d" % i, library, c, b, exe, c.n(250, 600))
    c.samples+=["total orders of writes seen by subscribers", "callback logs"]
core.main("P05", "one evaluation per subscription stream or library callback compared with the writes that caused it; distinct ones include the interleaving of the writers", body)
