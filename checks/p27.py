import sys, os, struct, time, signal, random, math, sqlite3, datetime, glob; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
from vf.proto import *

SER=[0]; EPS=0.002
INTS=[BYTE, SINT, WORD, INT, UINT, DWORD, DINT, UDINT, LWORD, LINT, ULINT, TIME]
def rng_of(t): n=tsize(t)*8; return (-(1 << (n-1)), (1 << (n-1))-1) if t in (SINT, INT, DINT, LINT) else (-62135596800000, 253402300799999) if t == TIME else (0, (1 << n)-1)
def pack(t, v): return bytes([v]) if t == BOOL else struct.pack("<"+FMT[t], v)
def unpack(t, b): return b[0] & 1 if t == BOOL else struct.unpack("<"+FMT[t], b)[0]
def text(t, v):
    if t == CHAR: return chr(v)
    if t == REAL: return "%.8g" % v
    if t == LREAL: return "%.16g" % v
    if t == TIME:
        d=datetime.datetime(1970, 1, 1)+datetime.timedelta(milliseconds=v)
        return "%d-%02d-%02dT%02d:%02d:%02d.%03d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, v % 1000)
    return "%d" % v
def same(sql, t, v, got):
    """does the logged value stand for v?"""
    w=text(t, v)
    if not sql: return got == w
    if t in (REAL, LREAL):
        if math.isnan(v) or math.isinf(v): return got is None or isinstance(got, str) or got == v
        return isinstance(got, (int, float)) and (float(got) == float(w) or abs(got-float(w)) <= 4e-15*abs(float(w)))
    if t in (CHAR, TIME): return str(got) == w
    return got == v if -2**63 <= v < 2**63 else isinstance(got, (int, float)) and abs(got-v) <= 2048

class Tag:
    """a logged item: part of a server tag"""
    def __init__(t, name, type, count=1, pos=0, member=None):
        t.name=name; t.type=type; t.count=count; t.pos=pos; t.member=member; t.idx=None; t.found=False; t.dead=False
        t.expr=name if count == 1 and member is None else "%s[%d]" % (name, pos) if member is None else "%s.%s" % (name, member)
        t.trig="WRITE"; t.thr=0; t.timeout=0; t.off=pos*tsize(type) if type != BOOL else pos//8; t.cur=None
    def conf(t): return 'add_tag("%s", %s, %s, %s, "")\n' % (t.expr, t.trig, repr(t.thr), repr(t.timeout))

class Log:
    """what the plug-in has stored: [(expr, timestamp, value or None)]"""
    def __init__(l, kind, path): l.kind=kind; l.path=path; l.sql=kind == "sqlite"
    def conf(l): return 'directory="%s"\n' % l.path if not l.sql else 'filename="%s"\n' % l.path
    def files(l): return sorted(glob.glob(l.path+"/dax_*.log"), key=lambda f: float(os.path.basename(f)[4:-4]))
    def read(l):
        if not l.sql:
            out=[]
            for f in l.files():
                s=open(f, newline="").read()
                for x in s.split("\n")[:-1]:
                    p=x.split(",", 2)
                    if len(p) != 3: raise Violation("format", "the log has a line %r" % x)
                    out.append((p[0], float(p[1]), None if p[2] == "NULL" else p[2]))
            return out
        if not os.path.exists(l.path): return []
        for k in range(200):
            try:
                db=sqlite3.connect(l.path, timeout=10)
                try: return [tuple(x) for x in db.execute("select t.tagname, d.timestamp, d.data from Data d left join Tags t on t.id=d.tagid order by d.id")]
                finally: db.close()
            except sqlite3.OperationalError as e:
                if k == 199: raise Violation("database", "the database cannot be read: %s" % e)
                time.sleep(0.05)
    def types(l):
        db=sqlite3.connect(l.path, timeout=10)
        try: return dict(db.execute("select tagname, type from Tags").fetchall())
        finally: db.close()

class Hist:
    def __init__(h, bdir, base, srv, conf):
        SER[0]+=1; h.cwd=core.fresh(os.path.join(base, "h%d" % SER[0])); os.makedirs(h.cwd); h.log=os.path.join(h.cwd, "log"); h.srv=srv
        cf=os.path.join(h.cwd, "histlog.conf"); open(cf, "w").write(conf)
        h.p=core.spawn([os.path.join(bdir, "src/modules/histlog/histlog"), "-C", cf, "-U", srv if isinstance(srv, str) else srv.sock], h.cwd, h.log, stdout=open(os.devnull, "w"))
    def check(h):
        if h.p.poll() is not None:
            r=core.san_report(h.log); raise Died("histlog ended rc=%s %s" % (h.p.returncode, r["key"] if r else ""), r or {"key": "histlog-exit:%s" % h.p.returncode, "text": open(h.log, errors="replace").read()[-2000:]})
    def ended(h, secs, why, key):
        try: h.p.wait(secs)
        except Exception: raise Violation(key, "%s: the program has not ended after %g s" % (why, secs))
        r=core.san_report(h.log)
        if r: raise Died("%s: %s" % (why, r["key"]), r)
        if h.p.returncode < 0 or h.p.returncode in (99, 66, 134, 139): raise Violation(key, "%s: the program ended with status %d" % (why, h.p.returncode))
        return h.p.returncode
    def kill(h):
        if h.p.poll() is None: h.p.kill()
        h.p.wait()

def plugin(bdir, kind): return 'plugin="%s/src/modules/histlog/plugins/%s/libdhl_%s.so"\n' % (bdir, kind, kind)

class Bed:
    def __init__(b, c, bdir, kind, flush, tags, extra="", order=None):
        b.c=c; b.r=c.rng; b.bdir=bdir; SER[0]+=1; b.name="b%d" % SER[0]; b.srv=core.Server(bdir, c.base, b.name+"s").start(); b.raw=Raw(b.srv, "obs"); b.h=None
        b.tags=tags; b.log=Log(kind, os.path.join(b.srv.cwd, "store")); b.flush=flush; b.n=0; b.seen=[]; b.sync_t=Tag("sync", DINT); b.all=[b.sync_t]+tags; b.extra=extra; b.cdts={}; b.v=0; b.rot=None
        for t in b.all:
            if not getattr(t, "late", False): b.make(t)
    def make(b, t):
        if t.member is not None:
            if t.type not in b.cdts: b.cdts[t.type]=b.raw.cdt("h_%s_%s:pad,BYTE,3:m,%s,1" % (b.name, NAMES[t.type], NAMES[t.type]))[1]
            t.idx=b.raw.tag_add(t.name, b.cdts[t.type], 1); t.off=3
        else:
            same_name=[x for x in b.all if x.name == t.name and x.idx is not None]
            t.idx=same_name[0].idx if same_name else b.raw.tag_add(t.name, t.type, t.count)
        if t.idx < 0: raise Violation("harness", "cannot add %s: %d" % (t.name, t.idx))
        b.store(t, t.init)
    def store(b, t, v):
        t.cur=v
        if t.type == BOOL: m=bytes([1 << t.pos % 8]); e=b.raw.mask(t.idx, t.off, bytes([v << t.pos % 8]), m)
        elif b.r.random() < 0.15: d=pack(t.type, v); e=b.raw.mask(t.idx, t.off, d, b"\xff"*len(d))
        else: e=b.raw.write(t.idx, t.off, pack(t.type, v))
        if e: raise Violation("write", "writing %s: error %d" % (t.expr, e))
    def start(b):
        conf=plugin(b.bdir, b.log.kind)+"flush_interval=%s\n" % repr(b.flush)+b.log.conf()+b.extra+"".join(t.conf() for t in b.all)
        for t in b.all: t.found=False
        b.n=len(b.log.read()); b.t0=time.time(); b.h=Hist(b.bdir, b.c.base, b.srv, conf)
        b.appear([t for t in b.all if t.idx is not None and not t.dead and not getattr(t, "never", False)], 40)
    def fetch(b):
        """the records that have come since the last time; what was there before is still there"""
        recs=b.log.read()
        if recs[:len(b.seen)] != b.seen:
            k=next((i for i in range(min(len(recs), len(b.seen))) if recs[i] != b.seen[i]), min(len(recs), len(b.seen)))
            raise Violation("lost", "record %d of the log was %r and is now %r (%d records, were %d)" % (k, b.seen[k], recs[k] if k < len(recs) else None, len(recs), len(b.seen)))
        new=recs[len(b.seen):]; b.seen=recs; return new
    def appear(b, tags, secs):
        """tags that are logged from now on: a mark and their value, each; the rest is synchronization"""
        left={t.expr: [None] for t in tags}; t0=time.time(); done={}; last=None
        while True:
            for e, ts, v in b.fetch():
                now=time.time()
                if not b.t0-EPS <= ts <= now+EPS: raise Violation("time", "record of %s has the time %f, but it came between %f and %f" % (e, ts, b.t0, now))
                if e in left:
                    t=next(x for x in tags if x.expr == e)
                    if len(left[e]) == 1:
                        if v is not None: raise Violation("start", "the first record of %s is %r, not the mark that nothing was logged before" % (e, v))
                        left[e].append(0)
                    else:
                        if not same(b.log.sql, t.type, t.cur, v): raise Violation("start", "the value of %s is %r, the log starts with %r" % (e, text(t.type, t.cur), v))
                        t.found=True; t.cmp=t.cur; t.good=True; t.lo=t.hi=ts; del left[e]; b.c.count("tags taken up")
                elif e == "sync" and b.sync_t.found and v == (str(b.v) if not b.log.sql else b.v): last=b.v
                elif e == "sync" and b.sync_t.found: pass
                else: raise Violation("stray", "unexpected record %r" % ((e, ts, v),))
            if not left and last == b.v: break
            if b.h: b.h.check()
            b.srv.check()
            if time.time()-t0 > secs: raise Violation("start", "after %d s these tags are still not logged: %s" % (secs, sorted(left) or "sync"))
            if b.sync_t.found or b.sync_t not in tags:
                b.v+=1; b.store(b.sync_t, b.v)
            time.sleep(0.03 if b.flush < 0.2 else 0.3)
        if b.log.sql:
            ty=b.log.types()
            for t in tags:
                if ty.get(t.expr) != t.type: raise Violation("type", "the database has type %r for %s, which is %d (%s)" % (ty.get(t.expr), t.expr, t.type, NAMES[t.type]))
    def burst(b, evs):
        """evs: [(tag, value)]; the log must hold exactly what they call for"""
        todo=[]
        for t, v in evs:
            lo=time.time(); b.store(t, v)
            if t.found and not t.dead: todo.append([t, v, lo])
        b.v+=1; lo=time.time(); b.store(b.sync_t, b.v); todo.append([b.sync_t, b.v, lo]); t0=time.time(); recs=[]
        while not (recs and recs[-1][0] == "sync" and same(b.log.sql, DINT, b.v, recs[-1][2])):
            b.h.check(); recs+=b.fetch()
            if time.time()-t0 > 20+b.flush:
                raise Violation("missing", "20 s after a write the log does not have it: %d records came for %s" % (len(recs), [(t.expr, text(t.type, v)) for t, v, _ in todo]))
            time.sleep(0.003)
        hi=time.time()
        hist="after writing %s" % ", ".join("%s=%s" % (t.expr, text(t.type, v)) for t, v, _ in todo)
        def take(t, v, lo, hi, what):
            if not recs: raise Violation("missing:"+t.trig, "%s: no record of %s (%s)" % (hist, t.expr, what))
            e, ts, got=recs.pop(0)
            if e != t.expr or (got is None) != (v is None) or v is not None and not same(b.log.sql, t.type, v, got):
                raise Violation("record:"+t.trig, "%s: the log has %s = %r where %s = %s is due (%s; type %s, trigger %s %s, value compared with %s)" % (hist, e, got, t.expr, None if v is None else text(t.type, v), what, NAMES[t.type], t.trig, t.thr, getattr(t, "cmp", None)))
            if not lo-EPS <= ts <= hi+EPS: raise Violation("time", "%s: the record of %s (%s) has the time %f, due between %f and %f" % (hist, t.expr, what, ts, lo, hi))
            b.c.count("records"); return ts
        for t, v, lo in todo:
            lo=max(lo, b.last) if hasattr(b, "last") else lo
            old=False
            if t.timeout > 0:
                if lo-t.hi > t.timeout+EPS: old=True
                elif hi-t.lo > t.timeout-EPS: old=bool(recs) and recs[0][0] == t.expr and recs[0][2] is None; b.c.count("gaps near the timeout")
                else: b.c.count("gaps within the timeout")
            if old:
                if not t.good and recs and recs[0][0] == t.expr and recs[0][2] is not None: recs.pop(0)
                b.c.count("gaps beyond the timeout"); take(t, None, t.lo, hi, "the mark of a gap"); ts=take(t, v, lo, hi, "value after a gap")
                t.cmp=v; t.good=True; t.lo=t.hi=ts; continue
            if t.trig == "WRITE": ts=take(t, v, lo, hi, "every write"); t.lo=t.hi=ts; continue
            if changed(t, v):
                if not t.good: take(t, t.prev, t.lo, t.hi, "the last value before the change"); t.good=True; b.c.count("last values")
                ts=take(t, v, lo, hi, "a change"); t.cmp=v; t.lo=t.hi=ts
            else: t.prev=v; t.good=False; t.lo=lo; t.hi=hi; b.c.count("small changes")
        if recs: raise Violation("stray", "%s: the log also has %r" % (hist, recs[:3]))
    def rotate(b):
        if b.log.sql: return
        if b.rot is None:
            r=b.raw.by_name("hist_rotate"); 
            if r[0]: raise Violation("rotate", "there is no rotation tag")
            b.rot=r[1][0]
        n=len(b.log.files()); b.raw.write(b.rot, 0, b"\x01"); t0=time.time()
        while len(b.log.files()) <= n or b.raw.read(b.rot, 0, 1)[1][0] & 1:
            b.h.check()
            if time.time()-t0 > 20+b.flush: raise Violation("rotate", "20 s after the rotation tag was set there are %d log files (were %d) and the tag is %d" % (len(b.log.files()), n, b.raw.read(b.rot, 0, 1)[1][0]))
            time.sleep(0.01)
        if len(b.log.files()) != n+1: raise Violation("rotate", "one rotation made %d files" % (len(b.log.files())-n))
        b.c.count("rotations")
    def finish(b, sig):
        t=time.time(); b.h.p.send_signal(sig); b.h.ended(15, "after signal %d" % sig, "end"); hi=time.time(); marks={}
        for e, ts, v in b.fetch():
            if v is not None or not t-EPS <= ts <= hi+EPS: raise Violation("end", "at the end the log got %r" % ((e, ts, v),))
            marks[e]=marks.get(e, 0)+1
        for x in b.all:
            n=marks.pop(x.expr, 0)
            if x.found and n != 1 and not x.dead or not x.found and n: raise Violation("end", "at the end %s got %d marks" % (x.expr, n))
        if marks: raise Violation("end", "marks for %s" % sorted(marks))
        b.c.count("orderly ends")
    def stop(b):
        if b.h: b.h.kill()
        b.srv.kill9()

def changed(t, v):
    a=t.cmp
    if t.type in (REAL, LREAL):
        d=abs(a-v)
        return not d < t.thr
    return float(abs(a-v)) >= t.thr

def value(r, t):
    """a value near the one compared with, or anything"""
    base=getattr(t, "cmp", t.cur if t.cur is not None else 0)
    if t.type == BOOL: return r.randrange(2)
    if t.type == CHAR:
        v=base+r.choice([-1, 1])*int(t.thr+r.choice([-1, 0, 1, 3])) if r.random() < 0.6 else r.randrange(33, 127)
        return min(max(v, 33), 126)
    if t.type in (REAL, LREAL):
        x=r.random()
        if x < 0.65:
            if math.isnan(base) or math.isinf(base) or abs(base) > 1e6: base=0.0
            v=base+r.choice([-1, 1])*(t.thr+r.choice([-0.5, -0.25, 0, 0.25, 1]))
        elif x < 0.9: v=r.choice([0.0, 0.25, -1.5, 1e6, 123456.75, 3.0e-5, -2.5e10])
        else: v=r.choice([float("nan"), float("inf"), float("-inf")])
        return struct.unpack("<f", struct.pack("<f", v))[0] if t.type == REAL else v
    lo, hi=rng_of(t.type)
    if r.random() < 0.65: v=base+r.choice([-1, 1])*int(t.thr+r.choice([-1, -1, 0, 0, 1, 5]))
    else: v=r.choice([lo, hi, 0, lo+1, hi-1, r.randrange(lo, hi+1), 1000, 70000, 5000000000])
    return min(max(v, lo), hi)

def tags(r, n):
    out=[]; i=0; types=INTS+[BOOL, CHAR, REAL, LREAL]
    for k in range(n):
        ty=r.choice(types); w=r.random(); nm="t%d_%s" % (k, r.choice(["a", "Level", "x1", "_pv"]))
        if w < 0.6: t=Tag(nm, ty)
        elif w < 0.8: cnt=r.randrange(2, 12); t=Tag(nm, ty, cnt, r.randrange(cnt))
        elif ty != BOOL: t=Tag(nm, ty, 1, 0, "m")
        else: t=Tag(nm, ty, 9, 8)
        t.trig=r.choice(["WRITE", "CHANGE", "CHANGE"]); t.thr=r.choice([0, 1, 1, 2, 5, 10, 100, 0.5, 1000.5, 1]) if ty not in (CHAR, SINT, BYTE, BOOL) else r.choice([0, 1, 1, 2, 5, 0.5])
        t.cur=0 if ty not in (CHAR,) else 65; t.init=value(r, t); out.append(t)
    return out

def records(c, bdir, k, kind, steps):
    """every type, trigger and threshold; tags that come later, that never come, that go; rotation; several runs on one store"""
    r=c.rng; ts=tags(r, r.randrange(7, 15))
    for t in r.sample(ts, 2): t.late=True
    never=Tag("never", DINT); never.late=never.never=True; never.init=0
    b=Bed(c, bdir, kind, 0.0 if k % 3 else 0.05, ts+[never]); steps=steps if k % 3 else steps//6; b.sync_t.init=0
    try:
        for gen in range(2):
            b.start(); live=[t for t in ts if t.idx is not None and not t.dead]
            for s in range(steps):
                live=[t for t in ts if t.idx is not None and not t.dead]
                n=r.randrange(1, 6); b.burst([(t, value(r, t)) for t in (r.choice(live) for _ in range(n))] if r.random() < 0.8 else [(t, value(r, t)) for t in [r.choice(live)]*n])
                c.case((k, gen, s), "; ".join(t.conf().strip() for t in ts[:2]))
                # the rest of an array does not concern the item that is logged
                a=[t for t in live if t.count > 1 and t.type != BOOL]
                if a and r.random() < 0.2: t=r.choice(a); p=(t.pos+1) % t.count; b.raw.write(t.idx, p*tsize(t.type), bytes(r.getrandbits(8) for _ in range(tsize(t.type)))); c.count("writes beside")
                if r.random() < 0.06: b.rotate()
                late=[t for t in ts if t.idx is None]
                if late and r.random() < 0.1: t=late[0]; b.t0=time.time(); b.make(t); b.appear([t], 60); c.count("late tags")
                if r.random() < 0.02 and len(live) > 4: t=r.choice(live); t.dead=True; b.raw.tag_del(t.idx); c.count("tags deleted")
            b.finish(r.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT])); b.srv.check()
    finally: b.stop()

def timeouts(c, bdir, k, kind, steps):
    r=c.rng; ts=tags(r, 5)
    for i, t in enumerate(ts): t.timeout=[0.4, 0.6, 1.0, 0.4, 0][i]
    b=Bed(c, bdir, kind, 0.0, ts)
    try:
        b.start()
        for s in range(steps):
            b.burst([(t, value(r, t)) for t in r.sample(ts, r.randrange(1, 5))]); time.sleep(r.choice([0, 0, 0.02, 0.1, 0.2, 0.5, 0.7, 1.2])); c.case(("timeout", k, s))
        b.finish(signal.SIGTERM)
    finally: b.stop()

def killed(c, bdir, k, kind):
    """what is older than the flush interval survives the death of the logger"""
    r=c.rng; ts=tags(r, 6); f=r.choice([0.3, 1.0, 2.0])
    for t in ts: t.trig="WRITE"
    b=Bed(c, bdir, kind, f, ts)
    try:
        b.start(); want=[]
        for s in range(r.randrange(2, 5)):
            for n in range(6): t=r.choice(ts); v=value(r, t); b.store(t, v); want.append((t, v))
            time.sleep(0.3)
        time.sleep(f+3.0); b.h.check(); b.h.p.kill(); b.h.p.wait(); recs=b.fetch(); c.count("kills")
        got=[x for x in recs if x[0] != "sync"]
        for i, (t, v) in enumerate(want):
            if i >= len(got) or got[i][0] != t.expr or not same(b.log.sql, t.type, v, got[i][2]):
                raise Violation("flush", "logger killed %g s after the last of %d writes with a flush interval of %g s: record %d should be %s=%s and is %r (%d records)" % (f+3, len(want), f, i, t.expr, text(t.type, v), got[i] if i < len(got) else None, len(got)))
            c.count("records")
        if len(got) != len(want): raise Violation("stray", "%d records for %d writes" % (len(got), len(want)))
        c.case(("kill", k))
    finally: b.stop()

def purge(c, bdir, k):
    r=c.rng; t=Tag("p", DINT); t.init=0; P=r.choice([1.0, 2.0]); b=Bed(c, bdir, "sqlite", 0.1, [t], "purge_interval=%s\n" % P); sent=[]
    try:
        class Any(list): pass
        conf=plugin(b.bdir, "sqlite")+"flush_interval=0.1\npurge_interval=%s\n" % P+b.log.conf()+t.conf(); b.h=Hist(bdir, c.base, b.srv, conf); t0=time.time()
        while not b.log.read():
            b.h.check(); time.sleep(0.02)
            if time.time()-t0 > 20: raise Violation("start", "nothing is logged")
        time.sleep(0.5); n=0; t0=time.time(); gone=0
        while time.time()-t0 < P*2+6:
            n+=1; lo=time.time(); b.store(t, n); sent.append((lo, n)); time.sleep(r.choice([0.02, 0.05, 0.1]))
            if n % 10 == 0:
                b.h.check(); a=time.time(); have={v: ts for _, ts, v in b.log.read() if v is not None}; z=time.time()
                for lo, v in sent:
                    if v in have:
                        if have[v] < a-P-4.5: raise Violation("purge", "value %d is %.1f s old and still there, the purge interval is %g s" % (v, a-have[v], P))
                    elif lo >= z-P and lo < a-3: raise Violation("purge", "value %d was written %.1f s ago and is not there, the purge interval is %g s" % (v, z-lo, P))
                    elif lo < a-3: gone+=1
                # everything between the oldest and the newest record that are left is there
                vs=sorted(v for v in have if v)
                if vs and vs != list(range(vs[0], vs[-1]+1)): raise Violation("purge", "the values left are not a run: %s" % vs)
                c.count("records", len(vs))
        if not gone: raise Violation("purge", "nothing was ever purged")
        c.case(("purge", k)); c.count("purged", gone)
    finally: b.stop()

def refusals(c, bdir):
    """configurations that cannot work end with a message, not with a crash; odd ones do not disturb the rest"""
    srv=core.Server(bdir, c.base, "ref").start(); raw=Raw(srv, "obs"); i=raw.tag_add("good", DINT, 1); raw.write(i, 0, struct.pack("<i", 77)); e, ct=raw.cdt("refcdt:a,INT,1"); raw.tag_add("cust", ct, 1)
    d=core.fresh(os.path.join(c.base, "refstore")); os.makedirs(d); open(d+"/file", "w").close(); F=plugin(bdir, "file"); S=plugin(bdir, "sqlite"); G='add_tag("good", WRITE, 0, 0, "")\n'
    bad=[("no plug-in", "flush_interval=0.1\n"+G), ("plug-in that is not there", 'plugin="%s/none.so"\n' % d+G), ("plug-in that is no library", 'plugin="%s/file"\n' % d+G), ("log directory below a file", F+'directory="%s/file/x"\n' % d+G),
         ("database below a file", S+'filename="%s/file/x"\n' % d+G), ("too few arguments", F+'directory="%s/a"\nadd_tag("good", WRITE)\n' % d), ("no attributes", F+'directory="%s/a"\nadd_tag("good", WRITE, 0, 0, nil)\n' % d), ("no name", F+'directory="%s/a"\nadd_tag(nil, WRITE, 0, 0, "")\n' % d), ("no Lua", "this is not Lua\n")]
    for what, conf in bad:
        h=Hist(bdir, c.base, srv, conf)
        try:
            rc=h.ended(20, what, "refuse")
            if rc == 0: raise Violation("refuse", "%s: the program ended with success" % what)
        finally: h.kill()
        srv.check(); c.case(("refuse", what)); c.count("refusals")
    h=Hist(bdir, c.base, os.path.join(d, "nosocket"), F+'directory="%s/b"\n' % d+G)
    try: h.ended(25, "no server", "refuse")
    finally: h.kill()
    for kind, P in (("file", F), ("sqlite", S)):
        log=Log(kind, d+"/odd"+kind); h=Hist(bdir, c.base, srv, P+log.conf()+'add_tag("cust", WRITE, 0, 0, "")\nadd_tag("nothere.x[4]", CHANGE, 1, 0, "")\nadd_tag("good[5]", WRITE, 0, 0, "")\nadd_tag("bad name", WRITE, 0, 0, "")\nadd_tag("", WRITE, 0, 0, "")\n'+G)     # flush_interval left out
        try:
            t0=time.time(); ok=0
            while not ok:
                h.check(); recs=[x for x in log.read() if x[0] == "good"]; ok=any(str(v) == "77" for _, _, v in recs)
                if time.time()-t0 > 40: raise Violation("odd", "with odd entries beside it a good one is not logged (%s): %s" % (kind, recs))
                time.sleep(0.05)
            time.sleep(0.3); raw.write(i, 0, struct.pack("<i", 78)); t0=time.time()
            while not any(x[0] == "good" and str(x[2]) == "78" for x in log.read()):
                h.check(); time.sleep(0.05)
                if time.time()-t0 > 40: raise Violation("odd", "with odd entries beside it a write of a good one is not logged (%s)" % kind)
            raw.write(i, 0, struct.pack("<i", 77)); h.p.send_signal(signal.SIGTERM); h.ended(15, "SIGTERM with odd entries", "end"); c.case(("odd", kind))
        finally: h.kill()
    srv.kill9()

def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog", "histlog_module", "dhl_file", "dhl_sqlite"])
    Tag.init=0
    c.run("refusals", refusals, c, b)
    for k in range(c.n(6, 40)): c.run("records %d" % k, records, c, b, k, "file" if k % 2 == 0 else "sqlite", c.n(60, 200))
    for k in range(c.n(2, 12)): c.run("timeouts %d" % k, timeouts, c, b, k, "sqlite" if k % 2 == 0 else "file", c.n(25, 60))
    for k in range(c.n(2, 10)): c.run("killed %d" % k, killed, c, b, k, "file" if k % 2 == 0 else "sqlite")
    for k in range(c.n(1, 4)): c.run("purge %d" % k, purge, c, b, k)
core.main("P27", "one evaluation per burst of writes whose records in the log were compared with the model, per killed or purged store and per refused configuration", body)
