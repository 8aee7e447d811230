import sys, os, time, threading, signal, shutil, pwd, grp, re, random, subprocess, resource; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import Violation, Died
SER=[0]; NOBODY=200000+os.getpid()*7%1000000      # an unprivileged user id that nothing else uses
SLACK=float(os.environ.get("VF_SLACK", "6"))

def can_setuid():
    pid=os.fork()
    if pid == 0:
        try: os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY); os._exit(0)
        except Exception: os._exit(1)
    return os.waitpid(pid, 0)[1] == 0
def lua(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return repr(v)
    return '"'+"".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else "\\%03d" % ord(ch) for ch in v)+'"'
def wait(cond, t, step=0.01):
    t0=time.time()
    while True:
        r=cond()
        if r: return r
        if time.time()-t0 > t: return None
        time.sleep(step)

class Start:
    def __init__(s, t, base, pid, ppid, rest):
        s.t=t; s.base=base; s.pid=pid; s.ppid=ppid; f=rest.split(" ")
        s.uids=[int(x) for x in f[0].split(",")]; s.gids=[int(x) for x in f[1].split(",")]
        s.groups=[] if f[2] == "-" else [int(x) for x in f[2].split(",")]
        s.mark=f[3]; s.argc=int(f[4]); s.argv=[bytes.fromhex(x[1:]) for x in f[5:]]

class Master:
    """The real master with processes that report to us.  procs: dicts of the configuration with our "ctl" """
    def __init__(m, c, bins, procs, flavour="asan", warp=None, uid=None, gid=None, groups=None, nproc=None, args=(), conf="", style=0, wait_start=True):
        SER[0]+=1; m.c=c; m.procs=procs; m.warp=warp or 1; m.dir=os.path.join(c.base, "m%d" % SER[0]); os.mkdir(m.dir); os.chmod(m.dir, 0o777)
        m.clog=os.path.join(m.dir, "log"); open(m.clog, "w").close(); os.chmod(m.clog, 0o666); m.pos=0; m.starts=[]; m.terms=[]; m.by={}
        m.log=os.path.join(m.dir, "master.log"); m.second=None; m.uid=0 if uid is None else uid; m.gid=0 if gid is None else gid
        text=conf; junk=['add_process{name="nopath%d", args="x", restart=true}\n', 'add_process{path="./noname%d", restart=true}\n', 'add_process{name="nopath%d"}\n']
        for i, p in enumerate(procs):
            if c.rng.random() < 0.1: text+=c.rng.choice(junk) % i      # incomplete entries are passed over
            p.setdefault("base", "p%d" % i); p.setdefault("name", p["base"])
            if "path" not in p:
                p["path"]=os.path.join(m.dir, p["base"])
            if not p.get("missing"):
                l=os.path.join(m.dir, p["base"])
                if not os.path.exists(l): os.symlink(os.path.join(bins, "child"), l)
            m.ctl(p["base"], p.get("ctl", ""))
            keys=[k for k in ("name", "path", "args", "restart", "user", "group", "uid", "gid", "delay", "cpu", "mem") if k in p]
            if style == 1: c.rng.shuffle(keys)
            tb=", ".join("%s = %s" % (k, lua(p[k])) for k in keys)
            if style == 2: text+="t = {}\n"+"".join("t.%s = %s\n" % (k, lua(p[k])) for k in keys)+"add_process(t)\n"
            else: text+="add_process{%s}\n" % tb
        m.conf=os.path.join(m.dir, "opendax.conf"); open(m.conf, "w").write(text); os.chmod(m.conf, 0o644)
        env={"VF_CHILD_DIR": m.dir, "VF_MARK": "m%d" % SER[0], "LD_LIBRARY_PATH": bins+"/"+flavour, "PATH": m.dir+":"+os.environ.get("PATH", "/usr/bin:/bin")}
        m.mark=env["VF_MARK"]
        if warp: env["LD_PRELOAD"]=os.path.join(bins, "warp.so"); env["VF_WARP"]=str(warp)
        def pre():
            if nproc: resource.setrlimit(resource.RLIMIT_NPROC, (nproc, resource.getrlimit(resource.RLIMIT_NPROC)[1]))
            if groups is not None: os.setgroups(groups)
            if gid is not None: os.setgid(gid)
            if uid is not None: os.setuid(uid)
        m.t0=time.monotonic()*1e6
        m.p=core.spawn([os.path.join(bins, flavour, "opendax")]+(["-C", m.conf] if "-D" in args or c.rng.random() < 0.6 else [])+list(args), m.dir, m.log, env=env, preexec=pre)
        m.pid=m.p.pid; m.stopw=False; m.samples=0; m.th=threading.Thread(target=m.watch, daemon=True); m.th.start()
        m.daemon="-D" in args
    def ctl(m, base, text):
        f=os.path.join(m.dir, "ctl."+base); open(f+".new", "w").write(text); os.chmod(f+".new", 0o644); os.rename(f+".new", f)
    # ---- observation
    def poll(m):
        with open(m.clog, "rb") as f:
            f.seek(m.pos); d=f.read()
        k=d.rfind(b"\n")+1; m.pos+=k
        for l in d[:k].decode().splitlines():
            w, t, base, pid, ppid, rest=l.split(" ", 5); base=base.replace("\1", " ").replace("\2", "\n")
            if w == "S":
                s=Start(int(t), base, int(pid), int(ppid), rest); m.starts.append(s); m.by.setdefault(base, []).append(s); m.c.count("starts observed")
            else: m.terms.append((int(t), base, int(pid), int(rest)))
        return m.starts
    def n(m, base): m.poll(); return len(m.by.get(base, ()))
    def last(m, base): return m.by[base][-1]
    def live(m, s):
        """is that instance still running (not a zombie)?"""
        try:
            st=open("/proc/%d/stat" % s.pid).read(); a0=open("/proc/%d/cmdline" % s.pid, "rb").read()
        except OSError: return False
        return st[st.rindex(")")+2] not in "ZX" and os.path.basename(a0.split(b"\0")[0].decode(errors="replace")) == s.base
    def alivelist(m): return [s for s in m.poll() if m.live(s)]
    def kids(m):
        try: ids=open("/proc/%d/task/%d/children" % (m.pid, m.pid)).read().split()
        except OSError: return {}
        r={}
        for i in ids:
            try:
                st=open("/proc/%s/stat" % i).read(); a=open("/proc/%s/cmdline" % i, "rb").read().split(b"\0")[0].decode(errors="replace")
            except OSError: continue
            if st[st.rindex(")")+2] in "ZX": continue
            if os.path.dirname(a) in (m.dir, "") and a: r.setdefault(os.path.basename(a), []).append(int(i))
        return r
    def watch(m):
        """no process of the configuration ever has two live instances"""
        while not m.stopw:
            k=m.kids(); m.samples+=1
            for b, ids in k.items():
                if len(ids) > 1:
                    time.sleep(0.1); again=m.kids().get(b, [])
                    if len(set(ids) & set(again)) > 1: m.second=(b, sorted(set(ids) & set(again))); return
            time.sleep(0.02)
    def check(m):
        if not m.daemon and m.p.poll() is not None:
            r=core.san_report(m.log); raise Died("the master ended rc=%s %s" % (m.p.returncode, r["key"] if r else ""), r or {"key": "exit:%s" % m.p.returncode, "text": open(m.log, errors="replace").read()[-2000:]})
        r=core.san_report(m.log)
        if r: raise Died("sanitizer report in the master: "+r["key"], r)
        if m.second: raise Violation("second-copy", "two copies of %s were running: pids %s" % m.second)
    # ---- expectations
    def expect_started(m, bases, t=10, count=1):
        def ok(): m.check(); m.poll(); return all(len(m.by.get(b, ())) >= count for b in bases)
        if not wait(ok, t+SLACK): raise Violation("not-started", "after %.0f s these have not been started %d time(s): %s" % (t+SLACK, count, [b for b in bases if m.n(b) < count][:20]))
    def exact(m, base, n):
        g=m.n(base)
        if g != n: raise Violation("start-count", "%s was started %d times, should be %d" % (base, g, n))
    def shape(m, p, s):
        """what a process was started with"""
        want=[p["path"].encode()]+[x.encode("latin1") for x in p.get("args", "").split(" ") if x]
        if s.argv != want: raise Violation("argv", "process %s args=%r: it got %r" % (p["base"], p.get("args"), s.argv[:10]))
        if s.argc != len(want): raise Violation("argv", "process %s: argc %d" % (p["base"], s.argc))
        if s.mark != m.mark: raise Violation("environment", "process %s did not get the master's environment" % p["base"])
        if s.ppid != m.pid and not m.daemon: raise Violation("parent", "process %s has parent %d, the master is %d" % (p["base"], s.ppid, m.pid))
        u, g=identity(p, m.uid, m.gid)
        if m.uid == 0:
            if s.uids != [u]*3: raise Violation("uid", "process %s (%s) runs with user ids %s, should be %d" % (p["base"], {k: p[k] for k in ("uid", "user", "gid", "group") if k in p}, s.uids, u))
            if s.gids != [g]*3: raise Violation("gid", "process %s (%s) runs with group ids %s, should be %d" % (p["base"], {k: p[k] for k in ("uid", "user", "gid", "group") if k in p}, s.gids, g))
            if u != 0 and not set(s.groups) <= set([g]): raise Violation("groups", "process %s of user %d keeps the master's groups %s" % (p["base"], u, s.groups))
        elif s.uids != [m.uid]*3 or s.gids != [m.gid]*3: raise Violation("uid", "process %s of an unprivileged master runs as %s %s" % (p["base"], s.uids, s.gids))
        m.c.count("starts checked")
    def shapes(m):
        ps={p["base"]: p for p in m.procs}
        for s in m.poll():
            if s.base not in ps: raise Violation("unknown", "something called %s was started" % s.base)
            m.shape(ps[s.base], s)
    # ---- the end
    def kill(m, s, sig=signal.SIGKILL):
        t=time.monotonic()*1e6
        try: os.kill(s.pid, sig)
        except ProcessLookupError: pass
        return t
    def shutdown(m, sig=signal.SIGTERM, stubborn=False, within=None):
        """ends the master; every child must end with it"""
        m.check(); os.kill(m.pid, sig); t0=time.time()
        lim=(10/m.warp if stubborn else 2)+SLACK if within is None else within
        if m.daemon: gone=wait(lambda: not os.path.exists("/proc/%d" % m.pid), lim+10)
        else:
            try: m.p.wait(lim+10); gone=True
            except subprocess.TimeoutExpired: gone=False
        took=time.time()-t0
        if not gone: raise Violation("shutdown-hang", "the master did not end within %.0f s of signal %d" % (took, sig))
        r=core.san_report(m.log)
        if r: raise Died("sanitizer report in the master at the end: "+r["key"], r)
        if m.second: raise Violation("second-copy", "two copies of %s were running: pids %s" % m.second)
        left=m.alivelist()
        if left: left=wait(lambda: not m.alivelist(), max(0, lim-took)+1) and [] or m.alivelist()
        if left: raise Violation("survivors", "the master ended on signal %d and left %s running" % (sig, [(s.base, s.pid) for s in left][:10]))
        m.c.count("shutdowns"); m.c.count("children ended at shutdown", len({s.pid for s in m.starts}))
    def close(m):
        m.stopw=True
        try:
            if m.p.poll() is None: m.p.kill(); m.p.wait()
            elif m.daemon and m.pid != m.p.pid: os.kill(m.pid, 9)
        except Exception: pass
        for _ in range(3):
            l=m.alivelist()
            for s in l: m.kill(s)
            if not l: break
            time.sleep(0.05)
        m.th.join(1); m.c.count("live-set samples", m.samples)
def identity(p, mu, mg):
    """the user and group a process gets from a privileged master; None if it must not be started"""
    def res(num, name, look, default, master):
        if p.get(num, -1) >= 0: return p[num]
        if name in p:
            try: return look(p[name])
            except KeyError: return None
        try: return look(default)
        except KeyError: return master
    return (res("uid", "user", lambda n: pwd.getpwnam(n).pw_uid, "opendax", mu), res("gid", "group", lambda n: grp.getgrnam(n).gr_gid, "opendax", mg))

def session(fn):
    def f(c, bins, *a):
        ms=[]
        def mk(*x, **k): m=Master(c, bins, *x, **k); ms.append(m); return m
        try: fn(c, mk, *a)
        finally:
            for m in ms: m.close()
    f.__name__=fn.__name__; return f

@session
def arguments(c, mk, k):
    rng=c.rng
    def word(): return "".join(rng.choice("abcXYZ019-_=./:%$'#@!*?~\t;|&<>()[]{}\xe9") for _ in range(rng.choice([1, 1, 2, 5, 12, 60])))
    fixed=[None, "", " ", "a", " a", "a ", "a  b", "-x -y  -z ", "-d -x -y", "  ".join("w%d" % i for i in range(40)), " ".join("%d" % i for i in range(300)), "x"*3000]
    ps=[]
    for i in range(24):
        a=fixed[i] if i < len(fixed) else (" "*rng.choice([1, 1, 2])).join(word() for _ in range(rng.randrange(0, 9)))
        p={"restart": rng.random() < 0.4}
        if a is not None: p["args"]=a
        if rng.random() < 0.15: p["path"]="p%d" % i                     # found on the PATH
        if rng.random() < 0.3: p["name"]="a process with a name"
        ps.append(p)
    order=ps[:]; rng.shuffle(order)
    for i, p in enumerate(order):
        if p.get("path"): p["path"]="p%d" % i
    m=mk(order, style=k % 3); m.expect_started([p["base"] for p in order]); time.sleep(0.1); m.shapes()
    if [s.base for s in sorted(m.starts, key=lambda s: s.pid)] != [p["base"] for p in order] and max(s.pid for s in m.starts)-m.pid < 1000 and min(s.pid for s in m.starts) > m.pid:
        raise Violation("order", "the processes were not started in the order of the configuration")
    for p in order: m.exact(p["base"], 1); c.case(("argv", p.get("args"), len(p.get("args", "").split())), {"args": p.get("args")} if len(p.get("args", "")) < 60 else None)
    # and once more when they are restarted
    vict=[p for p in order if p["restart"]]
    for p in vict: m.kill(m.last(p["base"]))
    m.expect_started([p["base"] for p in vict], 3, 2); m.shapes(); m.shutdown(); 
@session
def identities(c, mk, k):
    rng=c.rng; ps=[]
    names=[("user", "nobody"), ("user", "daemon"), ("user", "no-such-user"), ("uid", 65534), ("uid", 12345), ("uid", 0), ("user", "root"), None]
    gn=[("group", "nogroup"), ("group", "daemon"), ("group", "no-such-group"), ("gid", 65534), ("gid", 23456), ("gid", 0), ("group", "root"), None]
    try: pwd.getpwnam("nobody"); pwd.getpwnam("daemon"); grp.getgrnam("nogroup"); grp.getgrnam("daemon")
    except KeyError: names=[n for n in names if n is None or n[0] == "uid"]; gn=[n for n in gn if n is None or n[0] == "gid"]
    combos=[(u, g) for u in names for g in gn]; rng.shuffle(combos)
    for u, g in combos[:40] if c.quick else combos:
        p={"restart": rng.random() < 0.5}
        if u: p[u[0]]=u[1]
        if g: p[g[0]]=g[1]
        if u and u[0] == "user" and rng.random() < 0.2: p["uid"]=23455       # the number wins
        ps.append(p)
    for p in ps: p["ok"]=None not in identity(p, 0, 0)
    m=mk(ps, groups=[0, 4, 20, 24] if k % 2 == 0 else [], style=k % 3)
    good=[p for p in ps if p["ok"]]; bad=[p for p in ps if not p["ok"]]
    m.expect_started([p["base"] for p in good]); m.shapes()
    for p in ps: c.case(("id", tuple(sorted((x, p[x]) for x in ("uid", "user", "gid", "group") if x in p))), {x: p[x] for x in ("uid", "user", "gid", "group") if x in p})
    for p in good:
        if p["restart"]: m.kill(m.last(p["base"]))
    m.expect_started([p["base"] for p in good if p["restart"]], 3, 2); m.shapes()
    time.sleep(1.2)
    for p in bad:
        if m.n(p["base"]): raise Violation("unknown-user", "process %s has a user or group that does not exist and was started as %s" % ({x: p[x] for x in ("user", "group", "uid", "gid") if x in p}, m.by[p["base"]][0].uids))
    m.check(); c.count("not started for lack of the user", len(bad)); m.shutdown()
@session
def unprivileged(c, mk, k):
    ps=[{"restart": True}, {"restart": False, "args": "a b"}, {"restart": True, "user": "nobody"} if k % 2 else {"restart": True}]
    m=mk(ps, uid=NOBODY, gid=NOBODY, groups=[]); m.expect_started(["p0", "p1", "p2"]); m.shapes()
    m.kill(m.last("p0")); m.expect_started(["p0"], 3, 2); m.shapes(); c.case(("unpriv", k)); m.shutdown()
@session
def delays(c, mk, k):
    """each start waits for the delay of the one before, whatever signals come meanwhile"""
    rng=c.rng; ps=[]
    for i in range(8):
        p={"delay": rng.choice([0, 1, 30, 120, 250, 400, 999, 1000, 1200]) if i else 150, "restart": rng.random() < 0.5, "ctl": rng.choice(["", "", "exit 0", "live 50", "abort"])}
        if rng.random() < 0.1: del p["delay"]
        ps.append(p)
    m=mk(ps, style=k % 3); stop=[]
    def storm():
        r=random.Random(k)
        time.sleep(0.15)
        while not stop:
            try: os.kill(m.pid, r.choice([signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD]))
            except OSError: return
            c.count("signals"); time.sleep(r.random()*0.06)
    th=threading.Thread(target=storm, daemon=True); wait(lambda: m.n("p0"), 10)
    if k % 2: th.start()
    tot=sum(p.get("delay", 0) for p in ps)/1000
    m.expect_started([p["base"] for p in ps], tot); m.shapes()
    first=[m.by[p["base"]][0] for p in ps]
    for i in range(1, len(ps)):
        d=ps[i-1].get("delay", 0); gap=(first[i].t-first[i-1].t)/1000
        # a child reports a little after it was forked: the reports may come closer together than the forks
        if gap < d-60: raise Violation("delay", "process %d was started %.0f ms after the one before it, which has delay=%d" % (i, gap, d))
        if gap > d+1500+SLACK*1000: raise Violation("delay", "process %d was started only %.0f ms after the one before it, which has delay=%d" % (i, gap, d))
        c.case(("delay", d, k % 2)); c.count("delays measured")
    time.sleep(0.3)
    for p in ps:
        if not p["restart"]: m.exact(p["base"], 1)
    stop.append(1); m.check(); m.shutdown()

def delay_of(n): return 0 if n == 0 else min(60000, 100*2**(n-1))
@session
def together(c, mk, k, n, rounds, frozen):
    """many processes end together; every restartable one comes back once, the others do not"""
    rng=c.rng; ps=[{"restart": (i % 3 != 2) if k % 2 else i % 5 != 4, "ctl": rng.choice(["", "", "setpgid 1"])} for i in range(n)]
    m=mk(ps, style=k % 3); m.expect_started([p["base"] for p in ps]); deaths={p["base"]: 0 for p in ps}; when={}
    rs={p["base"]: p["restart"] for p in ps}
    for r in range(rounds):
        up=[b for b in deaths if rs[b] or deaths[b] == 0]
        vict=up if r == 0 or rng.random() < 0.4 else rng.sample(up, rng.randrange(1, len(up)+1))
        if frozen: os.kill(m.pid, signal.SIGSTOP); time.sleep(0.02)
        sig=rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGABRT, signal.SIGSEGV, signal.SIGTERM])
        for b in vict:
            s=m.last(b); when[b]=m.kill(s, sig); deaths[b]+=1
            if rng.random() < 0.1: time.sleep(rng.random()*0.02)
        c.count("deaths", len(vict)); c.count("largest group of deaths", max(0, len(vict)-c.counts.get("largest group of deaths", 0)))
        if frozen:
            wait(lambda: not any(m.live(m.last(b)) for b in vict), 5); os.kill(m.pid, signal.SIGCONT); 
        back=[b for b in vict if rs[b]]
        lim=max([delay_of(deaths[b]-1) for b in back]+[0])/1000+1.5
        if not wait(lambda: (m.check(), m.poll(), all(len(m.by[b]) > deaths[b] for b in back))[2], lim+SLACK):
            raise Violation("not-restarted", "%d processes ended together (%s); %.0f s later %d of them are not running again: %s" % (len(vict), "while the master was stopped" if frozen else "at once", lim+SLACK, sum(len(m.by[b]) <= deaths[b] for b in back), [b for b in back if len(m.by[b]) <= deaths[b]][:10]))
        for b in back:
            gap=(m.last(b).t-when[b])/1000; d=delay_of(deaths[b]-1)
            if gap < d*0.5-1: raise Violation("delay-growth", "process %s ended for the %d. time and was restarted after %.0f ms: the delay does not grow" % (b, deaths[b], gap))
        c.case(("together", len(vict), r, frozen, int(sig)), {"deaths": len(vict), "round": r, "master stopped": frozen})
    time.sleep(0.6)
    for p in ps: m.exact(p["base"], 1+(deaths[p["base"]] if p["restart"] else 0))
    m.shapes(); m.check()
    lv={}
    for s in m.alivelist(): lv[s.base]=lv.get(s.base, 0)+1
    for p in ps:
        w=1 if p["restart"] or deaths[p["base"]] == 0 else 0
        if lv.get(p["base"], 0) != w: raise Violation("live-set", "%s: %d live instances, should be %d" % (p["base"], lv.get(p["base"], 0), w))
    m.shutdown(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]))
@session
def broken(c, mk, k):
    """programs that cannot be executed, or end at once, do no harm to the others"""
    rng=c.rng; ps=[]
    for i in range(14):
        t=i % 7; p={"restart": rng.random() < 0.7, "kind": t}
        if t == 0: p["path"]="/nonexistent/program"; p["missing"]=True
        elif t == 1: p["path"]=c.base; p["missing"]=True
        elif t == 2: p["path"]="no-such-program-on-the-path"; p["missing"]=True
        elif t == 3: p["ctl"]="exit %d" % rng.choice([0, 1, 255])
        elif t == 4: p["ctl"]="abort"
        elif t == 5: p["ctl"]="live %d" % rng.choice([5, 40, 90]); p["restart"]=True
        ps.append(p)
    rng.shuffle(ps)
    junk="add_process{path=\"/bin/true\"}\nadd_process{name=\"nopath\", restart=true}\n" if k % 2 else ""
    m=mk(ps, style=k % 3, conf=junk); t0=time.time(); m.expect_started([p["base"] for p in ps if not p.get("missing")])
    time.sleep(max(0, 7.5-(time.time()-t0))); m.check(); m.shapes(); el=(time.monotonic()*1e6-m.t0)/1000
    for p in ps:
        if p.get("missing"): continue
        g=m.n(p["base"])
        if p["kind"] == 6: m.exact(p["base"], 1)
        elif not p["restart"]: m.exact(p["base"], 1)
        else:
            # 0 100 300 700 1500 3100 6300: at most this many starts in that time, and not many fewer
            most=1; t=0
            while t+delay_of(most-1) <= el: t+=delay_of(most-1); most+=1
            if g > most+1: raise Violation("delay-growth", "%s ends at once and was started %d times in %.1f s: the delay does not grow" % (p["base"], g, el/1000))
            if g < most-3: raise Violation("not-restarted", "%s ends at once and was started only %d times in %.1f s, should be about %d" % (p["base"], g, el/1000, most))
            ts=[s.t for s in m.by[p["base"]]]
            for a in range(1, len(ts)):
                if (ts[a]-ts[a-1])/1000 < delay_of(a-1)*0.5-1: raise Violation("delay-growth", "%s: start %d came %.0f ms after the one before" % (p["base"], a+1, (ts[a]-ts[a-1])/1000))
        c.case(("broken", p["kind"], p["restart"], g), {"ctl": p.get("ctl"), "restart": p["restart"], "starts": g})
    m.shutdown()
@session
def signals(c, mk, k):
    """the signals that do not mean quit change nothing"""
    rng=c.rng; ps=[{"restart": i % 2 == 0, "ctl": "live 300" if i == 4 else ""} for i in range(6)]
    m=mk(ps); m.expect_started(["p%d" % i for i in range(6)]); t0=time.time(); kills=0
    while time.time()-t0 < 2.5:
        for _ in range(rng.randrange(1, 30)): os.kill(m.pid, rng.choice([signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD])); c.count("signals")
        if rng.random() < 0.05 and kills < 3:
            kills+=1; m.kill(m.last("p0")); m.expect_started(["p0"], 2, kills+1)
        time.sleep(0.01)
    m.check(); time.sleep(0.2)
    m.exact("p0", 1+kills); m.exact("p2", 1)
    for i in (1, 3, 5): m.exact("p%d" % i, 1)
    left={s.base for s in m.alivelist()}
    if not {"p0", "p1", "p2", "p3", "p5"} <= left: raise Violation("live-set", "after a storm of HUP, PIPE and CHLD only %s are running" % sorted(left))
    c.case(("signals", kills)); m.shutdown(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]))
KINDS=["", "setsid 1", "setpgid 1", "ignterm 1", "ignterm 1 setsid 1", "ignterm 1 ignquit 1 setpgid 1", "slowterm 300", "slowterm 300 setsid 1", "live 200", "exit 0", "abort", "live 1100"]
@session
def shutdown(c, mk, k, stubborn, warp):
    """however the children behave and whenever the signal comes, they all end with the master"""
    rng=c.rng; kinds=KINDS if stubborn else [x for x in KINDS if "ign" not in x]
    ps=[{"restart": rng.random() < 0.7, "ctl": rng.choice(kinds), "delay": rng.choice([0, 0, 0, 20])} for _ in range(rng.choice([1, 3, 8, 20]))]
    m=mk(ps, flavour="plain" if warp else "asan", warp=warp); w=rng.choice([0.0, 0.05, 0.3, 1.0, 1.0+rng.random(), 2.2])
    wait(lambda: m.n("p0"), 10)
    if w > 0.9: m.expect_started([p["base"] for p in ps], 3)
    time.sleep(w); sig=rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT])
    if rng.random() < 0.3: m.check(); os.kill(m.pid, signal.SIGHUP)
    if rng.random() < 0.3:
        for s in m.alivelist():
            if rng.random() < 0.5: m.kill(s)
    n0=len(m.poll()); m.shutdown(sig, True, None if stubborn else 10+SLACK)
    # gracefully where that is possible
    told={b for t, b, pid, s in m.terms}; c.count("children that ended by themselves", len(told))
    time.sleep(0.4); n1=len(m.poll()); time.sleep(0.6)
    if len(m.poll()) != n1: raise Violation("started-after-end", "something was started after the master had ended")
    c.case(("shutdown", tuple(sorted(p["ctl"] for p in ps)), int(sig), w), {"ctl": [p["ctl"] for p in ps][:6], "signal": int(sig), "after": w})
@session
def graceful(c, mk, k):
    """a child that listens is asked, not killed"""
    ps=[{"ctl": x, "restart": True} for x in ("", "setsid 1", "setpgid 1", "slowterm 300", "slowterm 800 setsid 1", "")]
    m=mk(ps, warp=None); m.expect_started(["p%d" % i for i in range(6)]); time.sleep(1.2 if k % 2 else 0.3); m.shutdown([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT][k % 3])
    m.poll(); told={b for t, b, pid, s in m.terms}
    if len(told) != 6: raise Violation("not-asked", "at shutdown only %s were asked to end, the others were killed outright" % sorted(told))
    c.case(("graceful", k))
@session
def nofork(c, mk, k):
    """the system refuses to fork for a while"""
    ps=[{"restart": i >= 3, "ctl": "live 2500" if i < 3 else ""} for i in range(8)]
    m=mk(ps, uid=NOBODY+1+k, gid=NOBODY, groups=[], nproc=6)
    if not wait(lambda: (m.check(), m.n("p0"))[1], 10): raise Violation("not-started", "p0")
    time.sleep(1.5); m.check(); n=len(m.poll())
    if n >= 8: c.count("fork limit without effect")
    else: c.count("forks refused", 8-n)
    m.expect_started(["p%d" % i for i in range(3, 8)], 9)
    for i in range(3): m.exact("p%d" % i, 1)
    m.shapes(); c.case(("nofork", n)); m.shutdown()
@session
def daemonized(c, mk, k):
    """in the background, as an unprivileged user"""
    ps=[{"restart": True, "args": "a -b  c"}, {"restart": False}, {"restart": True, "ctl": "setsid 1"}]
    viaconf=k % 2 == 1
    m=mk(ps, uid=NOBODY, gid=NOBODY, groups=[], args=["-p", "/nonexistent/pid"]+([] if viaconf else ["-D"]), conf="daemonize = true\n" if viaconf else ""); m.daemon=True
    if not wait(lambda: len(m.poll()) >= 3, 15+SLACK): raise Violation("not-started", "in the background only %d of 3 processes were started" % len(m.poll()))
    m.pid=m.last("p0").ppid; m.shapes()
    if len({s.ppid for s in m.starts}) != 1 or m.pid == m.p.pid: raise Violation("parent", "parents %s of the processes" % [s.ppid for s in m.starts])
    m.kill(m.last("p0")); m.kill(m.last("p1")); 
    if not wait(lambda: m.n("p0") >= 2, 3+SLACK): raise Violation("not-restarted", "p0 was not restarted by the daemon")
    m.shapes(); m.exact("p1", 1); c.case(("daemon", k)); m.shutdown()

# ---- a faster clock: the long delays and the limits
@session
def ladder(c, mk, W, top):
    """the delay grows to a minute, stays there, and is forgotten after a good run"""
    ps=[{"restart": True, "ctl": "exit 0"}, {"restart": True, "ctl": "live %d" % (30000/W)}, {"restart": False}]
    m=mk(ps, flavour="plain", warp=W); m.expect_started(["p0", "p1", "p2"])
    need=sum(delay_of(i) for i in range(top))/1000/W
    if not wait(lambda: (m.check(), m.n("p0") > top)[1], need*1.6+4*SLACK): raise Violation("not-restarted", "a process that ends at once was restarted only %d times in %.0f s of its time, should be %d" % (m.n("p0")-1, (time.monotonic()*1e6-m.t0)/1e6*W, top))
    t=[s.t for s in m.by["p0"]]; gaps=[(t[i+1]-t[i])*W/1e6 for i in range(len(t)-1)]
    for i, g in enumerate(gaps):
        if g < delay_of(i)/1000*0.5-0.2: raise Violation("delay-growth", "restart %d came after %.1f s: the delay does not grow (%s)" % (i+1, g, ["%.1f" % x for x in gaps]))
    if min(gaps[-3:]) > 60+1.5*W: raise Violation("delay-bound", "the last delays before restarts were %s s: not bounded" % ["%.1f" % x for x in gaps[-4:]])
    t1=[s.t for s in m.by["p1"]]; g1=[(t1[i+1]-t1[i])*W/1e6-30 for i in range(len(t1)-1)]
    for i, g in enumerate(g1):
        if g < delay_of(i)/1000*0.4-3: raise Violation("delay-growth", "a process that lives 30 s was restarted %.1f s after its end number %d" % (g, i+1))
    c.count("longest delay seen, s", int(max(gaps))); c.case(("ladder", len(gaps)), {"gaps s": ["%.1f" % x for x in gaps]})
    # a run of more than a minute
    best=None; m.ctl("p0", "live %d" % (75000/W))
    n=m.n("p0")
    if not wait(lambda: m.n("p0") > n, 60/W*1.6+2*SLACK): raise Violation("not-restarted", "p0 stays down")
    for _ in range(4):
        n=m.n("p0"); s=m.last("p0")
        if not wait(lambda: m.n("p0") > n, (75+60)/W*1.6+2*SLACK): raise Violation("not-restarted", "p0 stays down after a good run")
        gap=(m.last("p0").t-s.t)*W/1e6-75
        best=gap if best is None else min(best, gap)
        if best < 20: break
    if best > 20: raise Violation("delay-reset", "after a run of more than a minute the restart still took %.0f s" % best)
    c.count("delay forgotten after a good run"); m.exact("p2", 1); m.shapes(); m.shutdown()
@session
def memory(c, mk, W):
    """a process over its memory limit is told to quit, then killed; the others are left alone"""
    b0="p0"; b4=c.rng.choice(["p 4", "p) S 4", "(p 4)", "p (4) R 4 4", "p\n4"])        # the name of a program can be anything
    ps=[{"base": b0, "restart": True, "ctl": "alloc 40000", "mem": 20000}, {"restart": True, "ctl": "alloc 40000 ignquit 1", "mem": 20000}, {"restart": True, "ctl": "alloc 40000"},
        {"restart": False, "ctl": "alloc 1000", "mem": 60000}, {"base": b4, "restart": False, "ctl": "alloc 40000", "mem": 20000}, {"restart": True, "mem": 0, "cpu": 0}]
    m=mk(ps, flavour="plain", warp=W); m.expect_started([b0, "p1", "p2", "p3", b4, "p5"])
    one=70/W*1.6
    if not wait(lambda: (m.check(), m.n(b0) >= 2)[1], 2*one+2*SLACK): raise Violation("memory-limit", "a process of 40 MB called %r with mem=20000 was left alone for %.0f s" % (b0, (time.monotonic()*1e6-m.t0)*W/1e6))
    m.poll()
    if not any(b == b0 and s == signal.SIGQUIT for t, b, p, s in m.terms): raise Violation("memory-limit", "it was ended without being told to quit: %s" % m.terms[:4])
    if not wait(lambda: (m.check(), m.n("p1") >= 2)[1], 3*one+2*SLACK): raise Violation("memory-limit", "a process over its limit that ignores SIGQUIT was not killed")
    if not wait(lambda: (m.poll(), not m.live(m.last(b4)))[1], 2*one+2*SLACK): raise Violation("memory-limit", "a process over its limit called %r that is not restarted was left alone" % b4)
    time.sleep(2*70/W); m.shapes()
    for b in ("p2", "p3", b4, "p5"): m.exact(b, 1)
    c.case(("memory", b4), {"over the limit": "QUIT then KILL"}); m.shutdown()

def body(c):
    core.build("asan", ["master"]); core.build("plain", ["master"])
    bins=os.path.join(c.base, "bin"); os.mkdir(bins)
    for f in ("asan", "plain"):
        os.mkdir(os.path.join(bins, f)); b=os.path.join(core.BUILD, f)
        shutil.copy(os.path.join(b, "src/master/opendax"), os.path.join(bins, f))
        shutil.copy(os.path.join(b, "src/lib/logger/libdaxlog.so"), os.path.join(bins, f))
    H=os.path.join(core.VERIF, "harness")
    subprocess.check_call(["gcc", "-O1", "-w", "-o", bins+"/child", H+"/child.c"]); subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", bins+"/warp.so", H+"/warp.c", "-ldl"])
    for r, d, fs in os.walk(bins):
        os.chmod(r, 0o755)
        for f in fs: os.chmod(os.path.join(r, f), 0o755)
    priv=os.geteuid() == 0 and can_setuid()
    if not priv: c.assumptions.append("no right to change user ids here: the identity workloads did not run")
    for k in range(c.n(2, 9)): c.run("arguments %d" % k, arguments, c, bins, k)
    if priv:
        for k in range(c.n(2, 6)): c.run("identities %d" % k, identities, c, bins, k)
        for k in range(c.n(1, 4)): c.run("unprivileged %d" % k, unprivileged, c, bins, k)
        for k in range(c.n(1, 3)): c.run("no fork %d" % k, nofork, c, bins, k)
        for k in range(c.n(2, 4)): c.run("daemon %d" % k, daemonized, c, bins, k)
    for k in range(c.n(2, 8)): c.run("delays %d" % k, delays, c, bins, k)
    for k in range(c.n(4, 16)): c.run("together %d" % k, together, c, bins, k, [40, 12, 30, 3, 80, 11][k % 6], c.n(3, 6), k % 2 == 0)
    for k in range(c.n(1, 6)): c.run("broken %d" % k, broken, c, bins, k)
    for k in range(c.n(1, 6)): c.run("signals %d" % k, signals, c, bins, k)
    for k in range(c.n(2, 9)): c.run("graceful %d" % k, graceful, c, bins, k)
    for k in range(c.n(5, 40)): c.run("shutdown %d" % k, shutdown, c, bins, k, False, None)
    for k in range(c.n(3, 20)): c.run("stubborn shutdown %d" % k, shutdown, c, bins, k, True, 15)
    for k in range(c.n(0, 2)): c.run("stubborn shutdown, real clock %d" % k, shutdown, c, bins, k, True, None)
    for k in range(c.n(1, 4)): c.run("ladder %d" % k, ladder, c, bins, 30 if k % 2 == 0 else 15, 14)
    for k in range(c.n(1, 4)): c.run("memory %d" % k, memory, c, bins, 30 if k % 2 == 0 else 12)
core.main("P23", "one evaluation is one started process, death pattern, configuration or shutdown whose start records (arguments, identity, environment, time) and live set were compared with the configuration", body)
