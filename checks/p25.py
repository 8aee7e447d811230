"""P25: logic scripts run as configured on consistent tag data.

The real daxlua module runs generated scripts under sanitizers.  An outside client sets the tags, fires the triggers and
reads what the scripts and the module leave in tags; a model says which runs must happen and what each of them must see."""
import os, sys, struct, time, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vf import core
from vf.core import Violation, Died
from vf.proto import *

SER=[0]; NL=32; SL=NL+9; TL=NL+12
FREE=1 << 30

class Module:
    def __init__(m, bdir, base, name, srv, conf, args=(), env=None):
        m.cwd=os.path.join(base, name); os.makedirs(m.cwd, exist_ok=True); m.srv=srv
        m.conf=os.path.join(m.cwd, "daxlua.conf"); open(m.conf, "w").write(conf); m.log=os.path.join(m.cwd, "log")
        r, w=os.pipe()         # a standard input that never ends: nothing may wait for it
        m.hold=w
        m.p=core.spawn([os.path.join(bdir, "src/modules/daxlua/daxlua"), "-C", m.conf, "-U", srv.sock]+list(args), m.cwd, m.log, stdin=r, stdout=open(os.path.join(m.cwd, "out"), "w"), env=env)
        os.close(r)
    def alive(m): return m.p.poll() is None
    def check(m):
        if not m.alive():
            r=core.san_report(m.log)
            raise Died("daxlua exited rc=%s %s" % (m.p.returncode, r["key"] if r else ""), r or {"key": "daxlua-exit:%s" % m.p.returncode, "text": open(m.log, errors="replace").read()[-3000:]})
    def stop(m):
        if m.alive(): m.p.kill()
        m.p.wait()
        try: os.close(m.hold)
        except OSError: pass

class Script:
    def __init__(s, name, text, **o): s.name=name; s.text=text; s.o=o; s.globs=[]; s.stats=[]; s.runs=0
    def conf(s, cwd, lua):
        f=os.path.join(cwd, s.name+".lua")
        if s.text is not None: open(f, "w").write(s.text)
        o=dict(s.o); l=["s = {}", "s.name = %s" % q(s.name)]
        if not o.pop("nofile", False): l.append("s.filename = %s" % q(f))
        for k, v in o.items(): l.append("s.%s = %s" % (k, trig(v) if isinstance(v, tuple) else q(v)))
        l.append("add_script(s)")
        for var, tag, mode in s.globs: l.append("add_global_tag(%s, %s, %s, %s)" % (q(s.name), q(var), q(tag), mode))
        for var, v in s.stats: l.append("add_global_static(%s, %s, %s)" % (q(s.name), q(var), q(v)))
        return "\n".join(l)+"\n"
def q(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, str): return '"%s"' % v
    return "nil" if v is None else repr(v)
def trig(t): return '{tag="%s", count=%d, type="%s", value=%s}' % t

class Bed:
    def __init__(b, c, bdir, name, scripts, threads=(), nthreads=8, queue=128, args=()):
        b.c=c; b.rng=c.rng; SER[0]+=1; b.name="%s%d" % (name, SER[0]); b.bdir=bdir; b.scripts=scripts; b.threads=threads; b.nthreads=nthreads; b.queue=queue; b.args=args
        b.srv=core.Server(bdir, c.base, b.name+"s").start(); b.raw=Raw(b.srv, "obs"); b.mod=None; b.idx={}; b.size={}; b.sidx=None
    def tag(b, name, type, count=1):
        i=b.raw.tag_add(name, type, count)
        if i < 0: raise Violation("harness", "cannot add %s: %d" % (name, i))
        b.idx[name]=i; b.size[name]=(count+7)//8 if type == BOOL else b.cdtsize*count if type & CUSTOM else tsize(type)*count
        return i
    def get(b, name, off=0, n=None):
        r, d=b.raw.read(b.idx[name], off, b.size[name] if n is None else n)
        if r: raise Violation("tagread", "tag %s cannot be read: %d" % (name, r))
        return d
    def put(b, name, d, off=0):
        r=b.raw.write(b.idx[name], off, d)
        if r: raise Violation("tagwrite", "tag %s cannot be written: %d" % (name, r))
    def poke(b, name, type, pos, cnt, d):
        """the elements pos... of a tag"""
        if type != BOOL: return b.put(name, d, pos*(b.cdtsize if type & CUSTOM else tsize(type)))
        n=(pos % 8+cnt+7)//8; v=(int.from_bytes(d, "little") & ((1 << cnt)-1)) << pos % 8; m=((1 << cnt)-1) << pos % 8
        if b.raw.mask(b.idx[name], pos//8, v.to_bytes(n, "little"), m.to_bytes(n, "little")): raise Violation("tagwrite", "tag %s cannot be written" % name)
    def num(b, name): return struct.unpack("<i", b.get(name, 0, 4))[0]
    def setnum(b, name, v): b.put(name, struct.pack("<i", v))
    def start(b):
        cwd=os.path.join(b.c.base, b.name+"m"); os.makedirs(cwd, exist_ok=True)
        conf="event_thread_count = %d\nevent_queue_size = %d\n" % (b.nthreads, b.queue)+"".join('add_interval_thread("%s", %d)\n' % t for t in b.threads)
        conf+="".join(s.conf(cwd, None) for s in b.scripts)
        b.t0=time.time(); b.mod=Module(b.bdir, b.c.base, b.name+"m", b.srv, conf, b.args)
        b.wait(lambda: b.raw.by_name("daxlua_scripts")[0] == 0, 30, "the module does not create its tag", "nostart")
        r=b.raw.by_name("daxlua_scripts")[1]; b.sidx=r[0]
        if r[2] != len(b.scripts): raise Violation("script-tag", "daxlua_scripts has %d items for %d scripts" % (r[2], len(b.scripts)))
        b.at={s.name: i for i, s in enumerate(b.scripts)}
        last=b.scripts[-1].name
        b.wait(lambda: b.state(last)[0] == last, 30, "the module does not fill in its tag", "nostart")
        for s in b.scripts:
            if b.state(s.name)[0] != s.name: raise Violation("script-tag", "item %d of daxlua_scripts is called %r, should be %s" % (b.at[s.name], b.state(s.name)[0], s.name))
        return b
    def states(b, lo=0, n=None):
        n=len(b.scripts)-lo if n is None else n; r, d=b.raw.read(b.sidx, lo*SL, n*SL)
        if r: b.mod.p.poll() is None and time.sleep(0.5); b.check(); raise Violation("script-tag", "daxlua_scripts cannot be read: %d" % r)
        o=[]
        for i in range(n):
            e=d[i*SL:(i+1)*SL]; o.append((e[:NL].split(b"\0")[0].decode("latin1"), e[NL] & 1, e[NL] >> 1 & 1, struct.unpack("<Q", e[NL+1:])[0]))
        return o
    def state(b, name): return b.states(b.at[name], 1)[0]
    def runs(b, name): return b.state(name)[3]
    def thread(b, i):
        r, t=b.raw.by_name("daxlua_threads")
        if r: raise Violation("thread-tag", "there is no daxlua_threads tag")
        r, d=b.raw.read(t[0], i*TL, TL); return (d[:NL].split(b"\0")[0].decode("latin1"),)+struct.unpack("<III", d[NL:])
    def check(b):
        b.srv.check()
        if b.mod: b.mod.check()
    def wait(b, f, secs, why, key):
        t0=time.time()
        while True:
            r=f()
            if r: return r
            b.check()
            if time.time()-t0 > secs: raise Violation(key, why() if callable(why) else why)
            time.sleep(0.002)
    def upto(b, name, n, why, secs=20):
        b.wait(lambda: b.runs(name) >= n, secs, lambda: "%s: %s ran %d times, should be %d" % (why, name, b.runs(name), n), "run-lost")
        if b.runs(name) != n: raise Violation("extra-run", "%s: %s ran %d times, should be %d" % (why, name, b.runs(name), n))
    def wake(b, name, fire, base=None):
        """fire until the trigger is known to be in place; returns the number of runs"""
        t0=time.time()
        while True:
            n=b.runs(name); fire(); t1=time.time()
            while time.time()-t1 < 0.5:
                if b.runs(name) > n:
                    time.sleep(0.15); return b.runs(name)
                time.sleep(0.003)
            b.check()
            if time.time()-t0 > 40: raise Violation("notrigger", "the trigger of %s never works" % name)
    def stop(b):
        if b.mod: b.mod.stop()
        b.srv.kill9()

# ------------------------------------------------------------------ values
def rnd(rng, type, count):
    if type == BOOL:
        d=bytearray(rng.getrandbits(8) for _ in range((count+7)//8))
        if count % 8: d[-1]&=(1 << count % 8)-1
        return bytes(d)
    if type == REAL: return b"".join(struct.pack("<f", rng.uniform(-1e6, 1e6)) for _ in range(count))
    if type == LREAL: return b"".join(struct.pack("<d", rng.uniform(-1e9, 1e9)) for _ in range(count))
    if type == CHAR: return bytes(rng.randrange(33, 127) for _ in range(count))
    return bytes(rng.getrandbits(8) for _ in range(tsize(type)*count))
CDT="p25t:a,DINT,1:b,INT,3:c,LREAL,1:f,BOOL,8"
def rndcdt(rng): return rnd(rng, DINT, 1)+rnd(rng, INT, 3)+rnd(rng, LREAL, 1)+rnd(rng, BOOL, 8)
VT=[BOOL, BYTE, SINT, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, LREAL]

# ------------------------------------------------------------------ what a run sees and leaves
def exchange(c, bdir, nscripts, nsteps):
    rng=c.rng; scripts=[]; plan=[]
    thr=[("th%d" % i, rng.choice([5, 10, 30])) for i in range(2)]
    b=Bed(c, bdir, "x", scripts, thr, rng.choice([1, 2, 8])); b.cdtsize=4+6+8+1
    r, cdt=b.raw.cdt(CDT)
    try:
        for k in range(nscripts):
            p="X%d_" % k; ins=[]; txt=["runs = (runs or 0) + 1", "n = runs", "first = _firstrun"]; globs=[("n", p+"n", "WRITE"), ("first", p+"first", "WRITE")]; late=[]
            b.tag(p+"n", DINT); b.tag(p+"first", BOOL)
            for nm in ("started", "go"): b.tag(p+nm, DINT)
            b.setnum(p+"go", FREE)
            for j in range(rng.randrange(1, 5)):
                x=rng.random(); nm="%si%d" % (p, j); on="%so%d" % (p, j)
                if x < 0.2: b.tag(nm, cdt); b.tag(on, cdt); ins.append([nm, on, lambda: rndcdt(rng), 0, 0, b.cdtsize]); itag, otag=nm, on
                else:
                    ty=rng.choice(VT); n=rng.choice([1, 1, 1, 2, 7, 8, 9, 31])
                    if rng.random() < 0.1: ty=CHAR; n=rng.choice([2, 8, 30])
                    b.tag(nm, ty, n); b.tag(on, ty, n); itag, otag=nm, on
                    if n > 1 and ty not in (BOOL, CHAR) and rng.random() < 0.4:
                        e1=rng.randrange(n); e2=rng.randrange(n); itag="%s[%d]" % (nm, e1); otag="%s[%d]" % (on, e2); ins.append([nm, on, lambda ty=ty, n=n: rnd(rng, ty, n), e1*tsize(ty), e2*tsize(ty), tsize(ty)])
                    else: ins.append([nm, on, lambda ty=ty, n=n: rnd(rng, ty, n), 0, 0, b.size[nm]])
                globs+=[("g%d" % j, itag, "READ"), ("h%d" % j, otag, "WRITE")]; txt.append("h%d = g%d" % (j, j))
            b.tag(p+"rw", DINT); globs.append(("rw", p+"rw", "READ + WRITE")); txt.append("rw = rw + 1")
            b.tag(p+"keep", LINT); globs.append(("keep", p+"keep", "READ + WRITE"))            # read and written back
            b.tag(p+"part", DINT, 8); globs.append(("part", p+"part", "WRITE")); pi=rng.randrange(1, 9); txt.append("part = {}; part[%d] = runs" % pi)
            b.tag(p+"never", DINT, 1); b.setnum(p+"never", 4711); globs.append(("never", p+"never", "WRITE")); txt.append("never = nil")
            stats=[("S1", rng.randrange(-1000, 1000)), ("S2", "text%d" % k), ("S3", rng.random() < 0.5), ("S4", rng.random()*100)]
            b.tag(p+"st", BOOL); globs.append(("st", p+"st", "WRITE"))
            txt.append("st = "+" and ".join("%s == %s" % (v, q(w)) for v, w in stats)); txt.append("S1 = 'changed'; S2 = nil; S3 = 0; S4 = {}")
            b.tag(p+"id", BOOL); globs.append(("id", p+"id", "WRITE"))
            txt.append("id = get_name() == '%s' and get_executions() == runs - 1 and get_script_id(get_name()) == %d and get_script_name(%d) == get_name() and get_thisscan() > 0 and get_script_name(%d) == nil and get_script_name(-1) == nil and get_script_name(-100000) == nil and get_script_id('nobody') == nil and enable_script('nobody') == nil and disable_script(-1) == nil" % ("s%d" % k, k, k, nscripts))
            o=dict(fail_on_error=False) if rng.random() < 0.5 else {}
            x=rng.random(); trg=None
            if x < 0.75 or k == 0:
                if rng.random() < 0.2: ty, cnt, mk=cdt, 1, lambda: rndcdt(rng)
                else:
                    ty=rng.choice(VT); cnt=rng.choice([1, 1, 1, 3, 16]); mk=lambda ty=ty, cnt=cnt: rnd(rng, ty, cnt)
                pos=0 if ty & CUSTOM or rng.random() < 0.5 else rng.randrange(1, 20); b.tag(p+"t", ty, pos+cnt); b.tag(p+"td", ty, cnt); globs.append(("td", p+"td", "WRITE")); txt.append("td = _trigger_data")
                o["trigger"]=(p+"t", cnt if rng.random() < 0.5 else 0, rng.choice(["WRITE", "CHANGE"]), 0) if not pos else ("%st[%d]" % (p, pos), cnt, rng.choice(["WRITE", "CHANGE"]), 0); o["auto_run"]=rng.random() < 0.5
                trg=lambda mk=mk: mk(); trg.at=(ty, pos, cnt)
            else: o["thread"]=rng.choice(thr)[0]; txt.append("if _trigger_data ~= nil then id = false end")
            txt.append("tag_write('%sstarted', runs)" % p); txt.append("while tag_read('%sgo') < runs do sleep(1) end" % p)
            s=Script("s%d" % k, "\n".join(txt)+"\n", **o); rng.shuffle(globs); s.globs=globs; s.stats=stats; scripts.append(s)
            plan.append((s, p, ins, trg, pi))
        b.start(); model={}
        def fill(ins):
            v=[]
            for i in ins: d=i[2](); b.put(i[0], d); v.append(d)
            return v
        def outs(ins): return [b.get(i[1])[i[4]:i[4]+i[5]] for i in ins]
        def want(ins, v): return [d[i[3]:i[3]+i[5]] for i, d in zip(ins, v)]
        for s, p, ins, trg, pi in plan:
            if trg:
                s.last=None
                def fire():
                    while True:
                        d=trg()
                        if d != s.last: break
                    s.last=d; b.poke(p+"t", trg.at[0], trg.at[1], trg.at[2], d)
                if s.o["auto_run"]:
                    b.wait(lambda: b.runs(s.name) >= 1, 30, "%s has auto_run and never ran" % s.name, "autorun")
                elif b.runs(s.name): raise Violation("extra-run", "%s ran %d times before its trigger" % (s.name, b.runs(s.name)))
                s.fire=fire; s.runs=b.wake(s.name, fire)
            else: b.wait(lambda: b.runs(s.name) >= 2, 30, "%s never runs on its thread" % s.name, "interval-lost")
        for step in range(nsteps):
            s, p, ins, trg, pi=rng.choice(plan); slow=rng.random() < 0.3; where="%s run" % s.name
            if not trg:
                # hold the script in its next run so that the inputs can be prepared for the one after that
                b.setnum(p+"go", 0); n=b.wait(lambda: (lambda a, e: a if a == e+1 else 0)(b.num(p+"started"), b.runs(s.name)), 20, "%s does not run" % s.name, "interval-lost")
                v=fill(ins); rw=rng.randrange(-1 << 30, 1 << 30); part=rnd(rng, DINT, 8)
                b.setnum(p+"go", n)                      # this run ends, and writes what it saw; the next one sees the new values
                b.wait(lambda: b.num(p+"started") == n+1, 20, "%s does not run" % s.name, "interval-lost"); r=n+1; old=outs(ins)
                if rng.random() < 0.5:
                    fill(ins)
                    if outs(ins) != old: raise Violation("early-output", where+": an output changed before the run was over")
                b.setnum(p+"go", r); b.upto2=b.wait(lambda: b.runs(s.name) >= r, 20, "%s hangs" % s.name, "run-hangs")
                if b.runs(s.name) != r or b.num(p+"started") > r+1: raise Violation("count", "%s: %d executions, run %d" % (s.name, b.runs(s.name), b.num(p+"started")))
                got=outs(ins)
                if got != want(ins, v):
                    j=[g == w for g, w in zip(got, want(ins, v))].index(False)
                    raise Violation("inputs", "%s %d left %s in %s, its input %s was %s when it started" % (where, r, got[j].hex(), ins[j][1], ins[j][0], want(ins, v)[j].hex()))
                if b.num(p+"n") != r: raise Violation("globals", "%s %d left %d in its counter" % (where, r, b.num(p+"n")))
                for nm in ("st", "id"):
                    if b.get(p+nm) != b"\1": raise Violation("script-"+nm, "%s %d: %s" % (where, r, "the static globals did not have their configured values" if nm == "st" else "the script's own name, id or count is wrong"))
                b.setnum(p+"go", FREE); c.count("interval_rounds"); c.case(("interval", len(ins), r > 3)); b.wait(lambda: b.runs(s.name) > r+1, 20, "%s stopped" % s.name, "interval-lost")
                continue
            v=fill(ins); rw=rng.randrange(-1 << 30, 1 << 30); keep=rnd(rng, LINT, 1); b.setnum(p+"rw", rw); b.put(p+"keep", keep); part=rnd(rng, DINT, 8); b.put(p+"part", part); b.put(p+"st", b"\0"); b.put(p+"id", b"\0"); b.setnum(p+"never", step)
            r=s.runs+1; old=outs(ins); oldn=b.num(p+"n")
            b.setnum(p+"go", r-1 if slow else FREE)
            s.fire(); sent=s.last
            if slow:
                b.wait(lambda: b.num(p+"started") == r, 20, lambda: "%s: run %d did not start (%d runs)" % (s.name, r, b.runs(s.name)), "run-lost")
                fill(ins); b.setnum(p+"rw", 5)
                time.sleep(rng.choice([0, 0.002, 0.01]))
                if outs(ins) != old or b.num(p+"n") != oldn or b.get(p+"part") != part: raise Violation("early-output", where+": an output changed before the run was over")
                if b.runs(s.name) != r-1: raise Violation("count", "%s: %d executions during run %d" % (s.name, b.runs(s.name), r))
                part=rnd(rng, DINT, 8); b.put(p+"part", part)
                b.setnum(p+"go", r)
            b.upto(s.name, r, where); s.runs=r
            got=outs(ins); w=want(ins, v)
            if got != w:
                j=[g == x for g, x in zip(got, w)].index(False)
                raise Violation("inputs", "%s %d left %s in %s, its input %s was %s when it started" % (where, r, got[j].hex(), ins[j][1], ins[j][0], w[j].hex()))
            if b.num(p+"rw") != rw+1: raise Violation("inputs", "%s %d: %d+1 became %d" % (where, r, rw, b.num(p+"rw")))
            if b.get(p+"keep") != keep: raise Violation("inputs", "%s %d: the unchanged READ + WRITE tag changed" % (where, r))
            if b.num(p+"n") != r or b.get(p+"first") != b"\0": raise Violation("globals", "%s %d left %d in its counter, _firstrun was %s" % (where, r, b.num(p+"n"), b.get(p+"first")))
            e=bytearray(part); e[(pi-1)*4:pi*4]=struct.pack("<i", r)
            if b.get(p+"part") != bytes(e): raise Violation("outputs", "%s %d: the output table had one element, the tag is %s, should be %s" % (where, r, b.get(p+"part").hex(), e.hex()))
            if b.num(p+"never") != step: raise Violation("outputs", "%s %d: an output without value changed its tag" % (where, r))
            if b.get(p+"td") != sent: raise Violation("trigger-data", "%s %d: _trigger_data was %s, the event had %s" % (where, r, b.get(p+"td").hex(), sent.hex()))
            for nm in ("st", "id"):
                if b.get(p+nm) != b"\1": raise Violation("script-"+nm, "%s %d: %s" % (where, r, "the static globals did not have their configured values" if nm == "st" else "the script's own name, id or count is wrong"))
            c.count("slow_runs" if slow else "runs"); c.case((len(ins), slow, s.o["trigger"][2], len(sent)), {"script": s.text, "globals": s.globs} if step < 2 else None)
        for s, p, ins, trg, pi in plan:
            n, en, failed, ex=b.state(s.name)
            if not en or failed: raise Violation("script-state", "%s: enable %d failed %d at the end" % (s.name, en, failed))
            if trg and ex != s.runs: raise Violation("extra-run", "%s ran %d times, should be %d" % (s.name, ex, s.runs))
        b.check()
    finally: b.stop()

# ------------------------------------------------------------------ triggers, enabling and disabling
# the values of a trigger tag are around these, so that the configured value needs the whole width of its type
BASES={BYTE: [0, 150], SINT: [0, -100], INT: [0, -30000, 20000], UINT: [0, 60000], WORD: [0, 60000], DINT: [0, -1 << 31, 2000000000], UDINT: [0, 3000000000], DWORD: [0, 3000000000],
       LINT: [0, -1 << 40, 1 << 51], TIME: [0, 1700000000000, -1 << 33], ULINT: [0, 1 << 33, 1 << 51], LWORD: [0, 1 << 40], REAL: [0, -5000.5], LREAL: [0, 1e12+0.5]}
def commands(c, bdir, nscripts, nsteps, nthreads):
    rng=c.rng; scripts=[]; b=Bed(c, bdir, "k", scripts, [], nthreads); twin=[]
    try:
        for nm in ("cmd", "arg"): b.tag(nm, DINT)
        b.tag("ctl", DINT); b.tag("ok", DINT)
        ctl=Script("control", "local f = {enable_script, disable_script}\nlocal a = arg\nif a >= 1000 then a = get_script_name(a - 1000) end\nif cmd > 0 then ok = f[cmd](a) end\n", trigger=("ctl", 0, "WRITE", 0), auto_run=False); ctl.globs=[("cmd", "cmd", "READ"), ("arg", "arg", "READ"), ("ok", "ok", "WRITE")]; scripts.append(ctl)
        for k in range(nscripts):
            p="K%d_" % k; ev=rng.choice(["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND"]) if k >= 3 else ["WRITE", "CHANGE", "SET"][k]
            ty=BOOL if ev in ("SET", "RESET") else rng.choice([DINT, INT, LINT, UINT, WORD, DWORD, UDINT, LWORD, ULINT, TIME, TIME]+[LREAL, REAL]*(ev != "EQUAL")+[BYTE, SINT]*(ev != "DEADBAND")); val=0 if ev in ("WRITE", "CHANGE", "SET", "RESET") else rng.randrange(2, 40)
            tc=rng.choice([1, 1, rng.randrange(2, 20)]); tp=rng.randrange(tc)
            if k == 2: tc=13; tp=rng.choice([3, 6, 11])
            b.tag(p+"t", ty, tc); b.tag(p+"td", ty); b.tag(p+"on", BOOL); b.tag(p+"off", BOOL); b.tag(p+"self", BOOL); b.tag(p+"n", DINT); b.tag(p+"first", DINT)
            base=rng.choice(BASES.get(ty, [0])); cval=base+val if ev in ("EQUAL", "GREATER", "LESS") else val
            txt="runs = (runs or 0) + 1; n = runs; td = _trigger_data\nif _firstrun then first = first + 1 end\nif self then disable_self() end\n"
            s=Script("k%d" % k, txt, trigger=(p+"t" if tc == 1 else "%st[%d]" % (p, tp), 1, ev, cval), enable_trigger=(p+"on", 0, "SET", 0), disable_trigger=(p+"off", 0, "SET", 0), auto_run=False, enable=rng.random() < 0.7)
            s.globs=[("n", p+"n", "WRITE"), ("td", p+"td", "WRITE"), ("self", p+"self", "READ"), ("first", p+"first", "READ + WRITE")]
            s.tp=tp; s.ty=ty; s.base=base; s.val=val; s.ev=ev; s.p=p; s.on=s.o["enable"]; s.exec=0; s.cur=0; scripts.append(s); twin.append(s)
        b.start(); b.setnum("cmd", 0)
        b.wake("control", lambda: b.setnum("ctl", 1)); ctl.runs=b.runs("control")
        w=Raw(b.srv, "twin")       # has the same events and so gets one notification for each firing
        def enc(s, v): return bytes([1 if v else 0]) if s.ty == BOOL else struct.pack("<"+FMT[s.ty], v+s.base)
        def put(s, v):
            b.poke(s.p+"t", s.ty, s.tp, 1, enc(s, v))
        def edata(s): return struct.pack("<"+FMT[s.ty], s.val) if s.ev == "DEADBAND" else enc(s, s.val)
        def events(s):
            w.by_name(s.p+"t")                         # all notifications of earlier writes are here before this answer
            n=[e for e in w.drain() if True]
            for e in n: e_owner[e[1]].fired+=1; e_owner[e[1]].data=e[3]
        e_owner={}
        b.srv.check()
        def control(n, a):
            b.setnum("cmd", n); b.setnum("arg", a); b.setnum("ok", -5); b.setnum("ctl", 1); ctl.runs+=1; b.upto("control", ctl.runs, "control script")
            if n and b.num("ok") != a % 1000: raise Violation("script-id", "enable/disable_script(%d) gave %d" % (a, b.num("ok")))
            b.setnum("cmd", 0)
        EV=dict(WRITE=E_WRITE, CHANGE=E_CHANGE, SET=E_SET, RESET=E_RESET, EQUAL=E_EQUAL, GREATER=E_GREATER, LESS=E_LESS, DEADBAND=E_DEADBAND)
        # the triggers are put in place some time after the start
        for s in twin:
            s.fired=0; s.data=None
            t0=time.time()
            # make sure that it is enabled, then go between values that fire everything
            b.put(s.p+"on", b"\0")
            while b.runs(s.name) == 0:
                b.put(s.p+"on", b"\1"); b.put(s.p+"on", b"\0")
                for v in ([1, 0] if s.ty == BOOL else [s.val, 0, s.val+60, 0]): put(s, v); time.sleep(0.03)
                b.check()
                if time.time()-t0 > 40: raise Violation("notrigger", "the %s trigger of %s (type %s, value %s) never works (or its enable trigger)" % (s.ev, s.name, NAMES[s.ty], s.base+s.val))
            s.on=True
        time.sleep(0.4)
        for s in twin:
            # from here on the other client sees the same firings
            v=1 if s.ev == "RESET" else 0
            if s.ev == "LESS": v=s.val+50
            put(s, v); s.cur=v
        # both must have seen the same last value; DEADBAND keeps the value of the last firing
        time.sleep(0.3)
        for s in twin:
            h=H(b.idx[s.p+"t"], s.tp//8 if s.ty == BOOL else s.tp*tsize(s.ty), s.tp % 8 if s.ty == BOOL else 0, 1, tsize(s.ty) if s.ty != BOOL else 1, s.ty); r=w.ev_add(h, EV[s.ev], edata(s) if s.val else b"")
            if r < 0: raise Violation("harness", "twin event %d" % r)
            w.ev_opt(h.idx, r, 1); e_owner[h.idx]=s
            if s.ev == "DEADBAND":      # a jump makes both fire and start from the same value
                for v in (5000, 0): put(s, v)
                s.cur=0; time.sleep(0.02)
        time.sleep(0.3); w.by_name("ctl"); w.drain()
        for s in twin: s.exec=b.runs(s.name); s.fired=0; s.data=None
        def due(s): events(s); n=s.fired; s.fired=0; return n
        def fire(s, k):
            """k changes of the trigger tag, which fire or not; returns the number of firings"""
            for _ in range(k):
                x=rng.random()
                if s.ty == BOOL: s.cur=rng.randrange(2)
                else: s.cur=s.val if x < 0.3 else s.cur if x < 0.4 else rng.randrange(0, 100)
                put(s, s.cur)
            return due(s)
        def settle(s, why):
            b.upto(s.name, s.exec, why)
            n, en, failed, ex=b.state(s.name)
            if failed: raise Violation("script-state", "%s: %s is marked failed" % (why, s.name))
        hist=[]; pend=[0]
        def room(n):
            """the client library keeps 8 events: let the module take what it has"""
            if pend[0]+n > 6: control(0, 0); pend[0]=0
            pend[0]+=n
        def op(s):
            x=rng.random()
            if x < 0.45:
                k=rng.randrange(1, 6); room(k); n=fire(s, k); how="fire %d -> %d" % (k, n)
                if s.on: s.exec+=n
                hist.append((s.name, how)); return n > 0
            how=rng.choice(["trigger", "script", "tag", "self", "byname", "both"])
            if how == "self":
                if not s.on: return False
                # the first of these firings runs and disables the script, the others must not run
                b.put(s.p+"self", b"\1"); n=0
                while n == 0: room(4); n=fire(s, rng.randrange(1, 4))
                s.exec+=1; s.on=False; b.upto(s.name, s.exec, "disable_self"); time.sleep(0.01 if nthreads > 1 else 0)
                b.put(s.p+"self", b"\0"); hist.append((s.name, "self, %d firings" % n))
                if b.state(s.name)[1]: b.wait(lambda: not b.state(s.name)[1], 5, "%s disabled itself and its tag still says enabled" % s.name, "enable-bit")
                return True
            # firings that came while it was disabled are through the queue before it may be enabled
            if not s.on: control(0, 0); time.sleep(0.01); pend[0]=0
            room(4); on=rng.random() < 0.6; hist.append((s.name, how, on))
            if how == "trigger": b.put(s.p+("on" if on else "off"), b"\1"); b.put(s.p+("on" if on else "off"), b"\0")
            elif how == "both":
                for _ in range(2):
                    x=rng.random() < 0.5; b.put(s.p+("on" if x else "off"), b"\1"); b.put(s.p+("on" if x else "off"), b"\0")
                b.put(s.p+("on" if on else "off"), b"\1"); b.put(s.p+("on" if on else "off"), b"\0")
            elif how == "script": control(1 if on else 2, b.at[s.name])
            elif how == "byname": control(1 if on else 2, 1000+b.at[s.name])
            else: b.raw.mask(b.sidx, b.at[s.name]*SL+NL, b"\1" if on else b"\0", b"\1")
            s.how=how; s.on=on; return True
        for step in range(nsteps):
            s=rng.choice(twin); settle(s, "before, after %s" % ([h for h in hist if h[0] == s.name][-6:],)); n0=s.exec; k=0
            for _ in range(rng.randrange(1, 4)):
                op(s)
                if s.exec != n0 or nthreads > 1: settle(s, "after %s" % (hist[-4:],))     # a queued run must be over before the next command
                n0=s.exec
            c.count("histories"); c.case((s.ev, hist[-1][1:], s.on))
            if rng.random() < 0.3:
                n=0; t=0
                while n == 0 and t < 30: room(3); n=fire(s, rng.randrange(1, 4)); t+=1
                if s.on and n:
                    s.exec+=n; settle(s, "firing after %s" % (hist[-4:],)); c.count("firings", n)
                    if b.get(s.p+"td") != (s.data[:b.size[s.p+"td"]] if s.ty != BOOL else bytes([s.data[0] >> s.tp % 8 & 1])): raise Violation("trigger-data", "%s (%s): _trigger_data was %s, the last event had %s" % (s.name, s.ev, b.get(s.p+"td").hex(), s.data.hex()))
                    if b.num(s.p+"n") != s.exec: raise Violation("count", "%s counted %d runs, its tag says %d" % (s.name, b.num(s.p+"n"), s.exec))
                    if not b.state(s.name)[1]: b.wait(lambda: b.state(s.name)[1], 5, "%s ran and its tag says disabled" % s.name, "enable-bit")
                elif n:
                    # it must not run: let something else go through the same events and the same queue
                    control(1, 0); time.sleep(0.03); settle(s, "%d firings while it was disabled, after %s" % (n, hist[-4:])); c.count("disabled_firings", n)
                    if b.state(s.name)[1]: b.wait(lambda: not b.state(s.name)[1], 5, "%s is disabled and its tag says enabled" % s.name, "enable-bit")
        time.sleep(0.2)
        for s in twin:
            settle(s, "at the end")
            if b.num(s.p+"first") != 1: raise Violation("firstrun", "%s saw _firstrun %d times" % (s.name, b.num(s.p+"first")))
        if b.runs("control") != ctl.runs: raise Violation("extra-run", "the control script ran %d times, should be %d" % (b.runs("control"), ctl.runs))
        b.check()
    finally: b.stop()

# ------------------------------------------------------------------ interval threads
def intervals(c, bdir):
    rng=c.rng; SLEEP=c.n(3.5, 8.0)
    # interval threads: quick scripts, one that uses most of its interval, one that never fits, one that is very rare
    thr=[("fast", 20), ("mid", 100), ("busy", 400), ("over", 30), ("rare", rng.choice([4294968, 4294970, 4295100])), ("slow", 1100)]
    sc=[]; n=0
    def add(th, body, **o):
        nonlocal n
        s=Script("i%d" % n, body, thread=th, **o); s.th=th; n+=1; sc.append(s); return s
    order=[]; b=Bed(c, bdir, "i", sc, thr, 2)
    try:
        b.tag("blk", DINT, 200); b.tag("bad", DINT)
        for i in range(5): order.append(add("fast", "x = 1\n"))
        add("busy", "sleep(300)\n"); add("over", "sleep(45)\n"); add("rare", "x = 1\n"); add("slow", "sleep(5)\n")
        t=add("mid", "for i = 2, 200 do if blk[i] ~= blk[1] then bad = bad + 1 end end\n"); t.globs=[("blk", "blk", "READ"), ("bad", "bad", "READ + WRITE")]
        add("mid", "error('always')\n", fail_on_error=False); add("mid", "error('once')\n"); add("mid", "x = 1\n")
        off=add("mid", "x = 1\n", enable=False); nobody=add("nothread", "x = 1\n"); loose=Script("loose", "x = 1\n"); loose.th=None; sc.append(loose)
        while len(sc) < 40: add(rng.choice(["mid", "slow"]), "x = 1\n")
        rng.shuffle(sc); order=[s for s in sc if s.th == "fast"] if True else order
        b.start()
    except BaseException: b.stop(); raise
    try:
        b.wait(lambda: all(x[3] >= 1 for x, s in zip(b.states(), sc) if getattr(s, "th", None) in ("fast", "mid", "over", "rare", "slow") and s is not off), 30, "not every script on a thread runs", "interval-lost")
        time.sleep(0.5); t0=time.time(); a=b.states(); over0=[b.thread(i) for i in range(len(thr))]; k=0; gaps=0; last=time.time(); maxgap=0
        seen=set()
        while time.time()-t0 < SLEEP:
            b.put("blk", struct.pack("<i", k)*200); k+=1
            st=b.states(); e=[x[3] for x, s in zip(st, sc) if s.th == "fast"] if True else []
            # they run one after the other, in the order of the configuration
            if any(e[i] < e[i+1] for i in range(len(e)-1)) or e[0] > e[-1]+1: raise Violation("order", "scripts on one thread have run %s times: they do not take turns in their order" % e)
            seen.add(tuple(x-e[-1] for x in e)); c.count("samples"); time.sleep(0.002)
        el=time.time()-t0; z=b.states(); el2=time.time()-t0; over1=[b.thread(i) for i in range(len(thr))]; iv=dict(thr)
        for x, y, s in zip(a, z, sc):
            d=y[3]-x[3]; th=getattr(s, "th", None)
            if s is off or th is None or th == "nothread":
                if y[3]: raise Violation("extra-run", "%s (%s) ran %d times" % (s.name, "disabled" if s is off else "on no thread", y[3]))
                continue
            if "once" in s.text:
                if y[3] != 1 or not y[2]: raise Violation("failed", "a script that failed with fail_on_error ran %d times, failed = %d" % (y[3], y[2]))
                continue
            if y[2]: raise Violation("failed", "%s is marked failed: %s" % (s.name, s.text))
            if not y[1]: raise Violation("enable-bit", "%s is running and its tag says disabled" % s.name)
            if th == "rare":
                if y[3] != 1: raise Violation("interval", "a script with an interval of %d ms ran %d times in %.1f s" % (iv[th], y[3], el))
                continue
            per=iv[th]/1000.0
            if th == "over": per=0.045
            hi=el2/per+2
            if d > hi: raise Violation("interval", "%s on thread %s (%d ms) ran %d times in %.2f s" % (s.name, th, iv[th], d, el2))
            # what the machine does to us is not known: half the rate is enough (wrong arithmetic is further off for "busy")
            lo=el*(0.62 if th in ("busy", "over", "slow") else 0.4)/per-2
            if d < lo: raise Violation("interval", "%s on thread %s (%d ms) ran only %d times in %.2f s" % (s.name, th, iv[th], d, el))
            c.count("interval_runs", d); c.case((th, s.text))
        for (nm, ivl, cnt, o), (_, _, _, o0), (n0, i0) in zip(over1, over0, thr):
            if (nm, ivl) != (n0, i0) or cnt != sum(1 for s in sc if getattr(s, "th", None) == n0): raise Violation("thread-tag", "daxlua_threads says %s, %d ms, %d scripts" % (nm, ivl, cnt))
            if n0 in ("slow", "rare", "busy") and o: raise Violation("overruns", "thread %s (%d ms) has %d overruns, its scripts take less than that" % (n0, i0, o))
            if n0 == "over" and o-o0 < el/0.09-3: raise Violation("overruns", "thread over has %d overruns in %.1f s, its script is always late" % (o-o0, el))
        if b.num("bad"): raise Violation("torn", "a script saw a block of which only a part was new")
        c.count("order_states", len(seen)); c.count("blocks", k)
        # stop, run and kill the module by its tag
        r, mt=b.raw.by_name("_mdaxlua")
        if r: raise Violation("module-tag", "there is no _mdaxlua tag")
        def bit(k): b.raw.mask(mt[0], 77, bytes([1 << k]), bytes([1 << k]))
        def running(): return b.raw.read(mt[0], 12, 1)[1][0] & 1
        for k in range(c.n(3, 8)):
            bit(0); b.wait(lambda: not running(), 20, "the module was stopped and its tag says running", "stop"); time.sleep(0.5)
            x=[y[3] for y in b.states()]; time.sleep(0.25); y=[y[3] for y in b.states()]
            if x != y: raise Violation("stopped-runs", "scripts ran while the module was stopped: %s became %s" % (x, y))
            bit(1); b.wait(running, 20, "the module was started again and its tag does not say running", "stop")
            b.wait(lambda: all(v[3] > u or s.th in (None, "nothread", "rare") or s is off or "once" in s.text for u, v, s in zip(y, b.states(), sc)), 20, "not every script runs again after the module was stopped and started", "stop")
            c.count("stops"); c.case(("stop", k))
        b.check()
        sig=rng.choice([None, 15, 2, 3])
        if sig: b.mod.p.send_signal(sig)
        else: bit(3)
        try: b.mod.p.wait(20)
        except Exception: raise Violation("kill", "the module does not end after %s" % ("signal %d" % sig if sig else "its kill bit was set"))
        r=core.san_report(b.mod.log)
        if r: raise Died("daxlua at its end: %s" % r["key"], r)
        c.count("ends")
    finally: b.stop()

# ------------------------------------------------------------------ scripts that fail in every way
BAD=["error('x')", "error({})", "error(nil)", "error(setmetatable({}, {__tostring = function() error('no') end}))", "local t = nil; t.x = 1", "return 1 + {}", ";(function() local function f() return f() + 1 end return f() end)()",
     "tag_read('no such tag')", "tag_write('no such tag', 1)", "tag_write('F_out', 'text')", "tag_read()", "tag_handle('F_out', -1)", "tag_handle({})", "tag_add('F_out', 'LREAL', 5)", "tag_add('1x', 'DINT')", "tag_add('x', 'NOTYPE')", "cdt_create('c', {{}})", "cdt_create('c', 1)",
     "map_add('a', 'b')", "map_get('a', 1)", "map_del({}, {})", "sleep(-1)", "sleep('x')", "log(1, {})", "log()", "get_script_id()", "string.rep('x', 1 << 40)", "table.concat({{}})", "coroutine.wrap(function() error('c') end)()",
     "setmetatable(_G, {__index = function(t, k) error('index '..tostring(k)) end}) ; error('strict')", "setmetatable(_G, {__newindex = function(t, k) error('new '..tostring(k)) end, __index = function(t, k) error('index') end}) ; newvar = 1", "_G = nil; _ENV = nil; x = 1",
     "string.format('%d', 1.5)", "local s = string.rep('a', 200); s:find(string.rep('a?', 200)..string.rep('a', 200))  error('slow')", "h = tag_handle('F_out'); tag_read(h); tag_write(h, setmetatable({}, {__index = function() error('m') end}))",
     "arr = setmetatable({}, {__index = function() error('meta') end}); error('after')", "arr = setmetatable({}, {__len = function() error('meta') end, __index = function(t, k) return {} end}); error('after')", "arr = 'text'; error('after')", "num = {}; error('after')", "num = 'x'; error('after')", "num = print; error('after')", "local t = {} ; for i = 1, 100 do t = {t} end ; arr = t ; error('after')",
     "collectgarbage('stop'); error('gc')", "load('x =')()", "load(string.dump(function() error('b') end))()", "dofile('/nonexistent')", "select(-5)", "debug.sethook()", "os.exit(1)", "io.read()"]
OKAY=["tag_write('F_out', {})", "arr = {[1] = 'x'}", "arr = {1, 2, {}}", "arr = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}", "num = {}", "num = true", "num = 1.5", "arr = setmetatable({}, {__index = function(t, k) return k * 2 end})", "arr = setmetatable({}, {__index = function() error('meta') end})",
      "setmetatable(_G, {__newindex = function(t, k) error('new '..tostring(k)) end})", "setmetatable(_G, {__index = function(t, k) if k == 'num' then error('no') end end}); num = nil; rawset(_G, 'num', nil)", "last = nil", "print = nil; tag_read = nil", "_firstrun = nil; _trigger_data = nil"]
def failures(c, bdir, nscripts):
    rng=c.rng; sc=[]; b=Bed(c, bdir, "f", sc, [("th", 10), ("th2", 15)], rng.choice([1, 3]), 16); pool=[("bad", t) for t in BAD]+[("ok", t) for t in OKAY]; rng.shuffle(pool); pool=pool[:nscripts]
    try:
        b.tag("F_out", DINT, 4); b.tag("tick", DINT); b.tag("go", DINT)
        for i, (kind, t) in enumerate(pool):
            p="F%d_" % i; b.tag(p+"num", DINT); b.tag(p+"arr", DINT, 6); b.tag(p+"last", DINT); b.tag(p+"n", DINT)
            s=Script("f%d" % i, "runs = (rawget(_G, 'runs') or 0) + 1 ; n = runs ; last = 7 * runs\n"+t+"\n" if "_ENV = nil" not in t else "runs = (runs or 0) + 1; n = runs; last = 7 * runs\n"+t+"\n"); s.kind=kind; s.body=t; s.p=p
            s.globs=[("n", p+"n", "WRITE"), ("num", p+"num", "WRITE"), ("arr", p+"arr", "WRITE"), ("last", p+"last", "WRITE"), ("tk", "tick", "READ"), ("miss", p+"missing", rng.choice(["READ", "WRITE", "READ + WRITE"]))]; rng.shuffle(s.globs)
            s.foe=rng.random() < 0.4; s.o["fail_on_error"]=s.foe
            if rng.random() < 0.6: s.o["thread"]=rng.choice(["th", "th2"]); s.trg=False
            else: s.o["trigger"]=("go", 0, "WRITE", 0); s.o["auto_run"]=rng.random() < 0.5; s.trg=True
            sc.append(s)
        for i, (txt, o) in enumerate([("this is not lua (", {}), (None, {}), (None, {"nofile": True}), ("\x1bLua garbage", {}), ("x = 1\n", {})]):
            s=Script("c%d" % i, txt, thread=rng.choice(["th", "th2"]), **o); s.kind="compile" if i < 4 else "good"; s.trg=False; s.foe=True; s.body=txt; s.p=None; sc.append(s)
        good=Script("good", "ticks = tk; n = (n or 0) + 1\n", thread="th"); b.tag("ticks", DINT); b.tag("gn", DINT); good.globs=[("tk", "tick", "READ"), ("ticks", "ticks", "WRITE"), ("n", "gn", "WRITE")]; good.kind="good"; good.trg=False; good.foe=True; good.body=""; good.p=None
        gt=Script("goodt", "x = 1\n", trigger=("go", 0, "WRITE", 0), auto_run=False); gt.kind="good"; gt.trg=True; gt.foe=True; gt.body=""; gt.p=None
        rng.shuffle(sc); sc+=[good, gt]
        b.start(); b.wake("goodt", lambda: b.setnum("go", 0))
        # all of the triggers are events of one tag, the client library keeps only so many at a time
        n0=b.runs("goodt"); rounds=c.n(25, 120)
        for k in range(rounds):
            b.setnum("tick", k+1); b.wait(lambda: b.num("ticks") == k+1, 20, "a script that is all right does not run any more, or not with the tags of now (round %d)" % k, "others-stopped")
            b.check()
            if k % 5 == 0:
                b.setnum("go", k)
        b.wait(lambda: b.runs("good") > 30, 20, "too few runs", "others-stopped")
        for s in sc:
            if not s.trg and (s.kind == "ok" or s.kind == "bad" and not s.foe): b.wait(lambda: b.runs(s.name) >= 3, 30, lambda: "script %r ran %d times" % (s.body, b.runs(s.name)), "run-lost")
        for x, s in zip(b.states(), sc):
            nm, en, failed, ex=x
            if s.kind == "compile":
                if ex or not failed: raise Violation("failed", "a script that cannot be loaded (%r) ran %d times, failed = %d" % (s.body, ex, failed))
            elif s.kind == "bad":
                if ex == 0:
                    if s.trg and not s.o["auto_run"]: continue          # its events may have been among those that were dropped
                    raise Violation("run-lost", "script %r never ran" % s.body)
                if s.foe and (ex != 1 or not failed): raise Violation("failed", "script %r with fail_on_error ran %d times, failed = %d" % (s.body, ex, failed))
                if not s.foe and (failed or (ex < 3 and not s.trg)): raise Violation("failed", "script %r without fail_on_error ran %d times, failed = %d" % (s.body, ex, failed))
            elif s.kind == "ok":
                if failed or (ex < 3 and not s.trg): raise Violation("failed", "script %r ran %d times, failed = %d" % (s.body, ex, failed))
            if s.p and ex and not ("_ENV" in s.body or "setmetatable(_G" in s.body):
                # one output that cannot be written does not keep the others from being written
                d=b.state(nm)[3]; n=b.num(s.p+"n"); l=b.num(s.p+"last")
                if n < ex or (l % 7 or l < 7*ex) and "last = nil" not in s.body: raise Violation("outputs", "script %r ran %d times and left %d and %d in its outputs" % (s.body, ex, n, l))
            c.count("kind:"+s.kind); c.case((s.kind, s.body, s.foe, s.trg))
        b.check()
    finally: b.stop()

# ------------------------------------------------------------------ tags that come and go
def comings(c, bdir):
    rng=c.rng; sc=[]; b=Bed(c, bdir, "g", sc, [("th", 10)], 2)
    try:
        b.tag("cnt", DINT)
        a=Script("a", "cnt = (cnt or 0) + 1; if here == nil then seen = -1 else seen = here end; wout = cnt\n", thread="th"); a.globs=[("here", "here", "READ"), ("seen", "seen", "WRITE"), ("wout", "wout", "WRITE"), ("cnt", "cnt", "READ + WRITE")]
        t=Script("t", "n = (n or 0) + 1; v = _trigger_data\n", trigger=("later", 0, "CHANGE", 0), enable_trigger=("lateron", 0, "SET", 0), auto_run=False, enable=False); t.globs=[("v", "v", "WRITE")]
        sc+=[a, t]; b.tag("v", DINT); b.tag("seen", DINT); b.start()
        def settle(): n=b.runs("a"); b.wait(lambda: b.runs("a") >= n+2, 20, "the script stopped", "interval-lost")
        for k in range(c.n(12, 60)):
            settle()
            if b.num("seen") != -1: raise Violation("inputs", "the script saw a tag that is not there (round %d): %d" % (k, b.num("seen")))
            ty=rng.choice([DINT, INT, LINT]); b.tag("here", ty); b.tag("wout", DINT); v=rng.randrange(1, 30000); b.put("here", struct.pack("<"+FMT[ty], v)); settle()
            if b.num("seen") != v: raise Violation("inputs", "the script does not see the tag that was %s: %d, should be %d" % ("created" if k == 0 else "created again", b.num("seen"), v))
            w=b.num("wout"); settle()
            if not w < b.num("wout") <= b.num("cnt")+1: raise Violation("outputs", "an output that was created %sis not written" % ("again " if k else ""))
            for nm in ("here", "wout"):
                if b.raw.tag_del(b.idx[nm]): raise Violation("harness", "tag_del")
            c.case(("comings", ty, k > 0))
        # triggers on tags that are made after the module started
        b.tag("later", DINT); b.tag("lateron", BOOL); t0=time.time(); x=1
        while b.runs("t") == 0:
            b.put("lateron", b"\1"); b.put("lateron", b"\0"); b.setnum("later", x); x+=1; time.sleep(0.1); b.check()
            if time.time()-t0 > 30: raise Violation("notrigger", "a trigger on a tag that was created later never works")
        time.sleep(0.1); n=b.runs("t")
        for k in range(20): x+=1; b.setnum("later", x); n+=1; b.upto("t", n, "late trigger")
        if b.num("v") != x: raise Violation("trigger-data", "late trigger: data %d, should be %d" % (b.num("v"), x))
        b.check()
    finally: b.stop()

# ------------------------------------------------------------------ the queue
def queue(c, bdir):
    rng=c.rng; sc=[]; Q=rng.choice([1, 2, 3, 4, 5]); b=Bed(c, bdir, "q", sc, [], 1, Q); N=Q+4
    try:
        for i in range(N):
            b.tag("q%d" % i, DINT); b.tag("qs%d" % i, DINT); b.tag("qg%d" % i, DINT); b.setnum("qg%d" % i, FREE)
            sc.append(Script("q%d" % i, "runs = (runs or 0) + 1; tag_write('qs%d', runs)\nwhile tag_read('qg%d') < runs do sleep(1) end\n" % (i, i), trigger=("q%d" % i, 0, "WRITE", 0), auto_run=True))
        # every script is run once at the start even though there are more of them than fit on the queue
        b.start(); b.wait(lambda: all(x[3] >= 1 for x in b.states()), 30, lambda: "auto_run scripts have run %s times with a queue of %d" % ([x[3] for x in b.states()], Q), "autorun")
        for i in range(N): b.wake("q%d" % i, lambda: b.setnum("q%d" % i, 0))
        time.sleep(0.2); base=[x[3] for x in b.states()]
        for k in range(c.n(40, 200)):
            # one script keeps the only thread, exactly as many as fit wait on the queue
            i=rng.randrange(N); b.setnum("qg%d" % i, base[i]); b.setnum("q%d" % i, k); b.wait(lambda: b.num("qs%d" % i) == base[i]+1, 20, lambda: "queue of %d: script does not start (round %d)" % (Q, k), "run-lost")
            m=rng.randrange(0, Q+1); base[i]+=1; more=rng.random() < 0.3
            for _ in range(m):
                j=rng.randrange(N); b.setnum("q%d" % j, k)
                base[j]+=1
                if j != i: pass
            extra=[]
            if more and m == Q:
                time.sleep(0.02)
                for _ in range(rng.randrange(1, 4)): j=rng.randrange(N); b.setnum("q%d" % j, k); extra.append(j)
            # let everything that is on the way get on the queue
            time.sleep(0.02); b.setnum("qg%d" % i, FREE)
            if not extra:
                b.wait(lambda: all(x[3] >= y for x, y in zip(b.states(), base)), 20, lambda: "queue of %d, %d waiting: scripts ran %s times, should be %s" % (Q, m, [x[3] for x in b.states()], base), "run-lost")
                now=[x[3] for x in b.states()]
                if now != base: raise Violation("extra-run", "queue of %d, %d waiting: scripts ran %s times, should be %s" % (Q, m, now, base))
            else:
                # the queue was full: those that were there first run, of the others any
                b.wait(lambda: all(x[3] >= y for x, y in zip(b.states(), base)), 20, lambda: "full queue of %d: scripts ran %s times, should be %s" % (Q, [x[3] for x in b.states()], base), "run-lost")
                time.sleep(0.15); now=[x[3] for x in b.states()]
                if any(n > y+extra.count(j) for j, (n, y) in enumerate(zip(now, base))): raise Violation("extra-run", "full queue of %d: scripts ran %s times, should be %s and some of %s" % (Q, now, base, extra))
                base=now
            c.count("queue_rounds"); c.case((Q, m, len(extra)))
        b.check()
    finally: b.stop()

def body(c):
    bdir=core.build("asan", ["tagserver", "dax", "daxlog", "daxlua_library", "daxlua_module"])
    for i in range(c.n(2, 8)): c.run("exchange %d" % i, exchange, c, bdir, c.n(8, 12), c.n(250, 1500))
    for i, n in enumerate([1, 8][:c.n(2, 2)]*c.n(1, 4)): c.run("commands %d" % i, commands, c, bdir, c.n(8, 12), c.n(150, 800), n)
    for i in range(c.n(1, 5)): c.run("intervals %d" % i, intervals, c, bdir)
    for i in range(c.n(2, 8)): c.run("failures %d" % i, failures, c, bdir, 36)
    for i in range(c.n(1, 4)): c.run("comings %d" % i, comings, c, bdir)
    for i in range(c.n(2, 8)): c.run("queue %d" % i, queue, c, bdir)
core.main("P25", "one evaluation = one run (or one history of commands, or one script over a measured time) whose occurrence, inputs and outputs were compared with the model; distinct = kind of script x trigger x history", body)
