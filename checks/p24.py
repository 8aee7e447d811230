import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pty, socket, struct, subprocess, time, threading, tty
from vf import core, proto
from vf.core import Violation, Died, hx
NONE, OPT, REQ, CMD, CONF, NOVAL = 0, 1, 2, 4, 0x10, 0x20
BUILD = "\0built in"
serial=0
class Cfg:
    def __init__(self, exe, base, log): self.log=log; self.p=core.spawn([exe], base, log, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def cmd(self, *a):
        try: self.p.stdin.write((" ".join(str(x) for x in a)+"\n").encode()); self.p.stdin.flush()
        except OSError: self.dead(a)
        t=threading.Timer(30, self.p.kill); t.start(); l=self.p.stdout.readline(); t.cancel()
        if not l.endswith(b"\n"): self.dead(a)
        return l.decode().split()
    def i(self, *a): return int(self.cmd(*a)[0])
    def get(self, k, n): r=self.cmd("get", k, hx(n))[0]; return None if r == "-" else core.uhx(r).decode("latin1")
    def dead(self, a):
        try: self.p.wait(3)
        except Exception: self.p.kill(); self.p.wait()
        r=core.san_report(self.log)
        raise Died("configuration ended in %s rc=%s" % (a[0], self.p.returncode), r or {"key": "cfg-exit:%s:%s" % (self.p.returncode, a[0]), "text": open(self.log, errors="replace").read()[-2000:]})
    def close(self): self.p.stdin.close(); self.p.kill(); self.p.wait()
BUILTIN = [("socketname", "U", REQ|CMD|CONF, "/tmp/opendax"), ("serverip", "I", REQ|CMD|CONF, "127.0.0.1"), ("serverport", "P", REQ|CMD|CONF, "7777"), ("server", "S", REQ|CMD|CONF, "LOCAL"),
    ("name", "N", REQ|CMD|CONF, None), ("cachesize", "Z", REQ|CMD|CONF, "8"), ("msgtimeout", "O", REQ|CMD|CONF, BUILD), ("config", "C", REQ|CMD, None), ("confdir", "K", REQ|CMD, BUILD),
    ("logtopics", "T", REQ|CMD, None), ("verbose", "v", NONE|CMD, None)]
def val(r):
    k=r.randrange(8)
    if k == 0: return str(r.randrange(-5, 100000))
    if k == 1: return "".join(r.choice("abcXYZ019_./:, =-+") for _ in range(r.randrange(1, 60)))
    if k == 2: return ""
    if k == 3: return "x"*r.choice([1, 63, 64, 255, 256, 900])
    if k == 4: return "".join(chr(r.randrange(33, 127)) for _ in range(r.randrange(1, 20)))
    return r.choice(["on", "true", "false", "Yes", "-", "--", "%s%n%d", "/a/b", "LOCAL", "\xff\x80"]) if k > 5 else "v%d" % r.randrange(1000)
def lua(s): return '"'+"".join("\\%03d" % ord(ch) for ch in s)+'"'
class Attr:
    def __init__(self, name, lo, sh, fl, df): self.name, self.lo, self.sh, self.fl, self.df=name, lo, sh, fl, df; self.v=None; self.cb=False
def cmdline(r, attrs):
    """arguments, and what each of them sets"""
    args=[]; sets=[]
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12, 60])):
        a=r.choice(attrs)
        if not a.fl & CMD or a.name in ("config", "confdir", "name"): continue
        forms=[f for f, ok in (("l", a.lo), ("s", a.sh)) if ok]
        if not forms: continue
        f=r.choice(forms); arg=a.fl & (OPT|REQ); v=None
        if arg:
            if arg & OPT and r.random() < 0.5: pass            # an optional argument is left out
            else: v=val(r)
        if arg & OPT or (arg and r.random() < 0.6):             # attached
            if v is None: args.append("--"+a.lo if f == "l" else "-"+a.sh)
            else:
                if f == "s" and v == "": v="q"
                args.append("--%s=%s" % (a.lo, v) if f == "l" else "-%s%s" % (a.sh, v))
        elif arg: args+=["--"+a.lo if f == "l" else "-"+a.sh, v]
        else: args.append("--"+a.lo if f == "l" else "-"+a.sh)
        sets.append((a, v))
        if r.random() < 0.1: args.append("word%d" % r.randrange(9))
    if r.random() < 0.2:   # flags in one word
        fl=[a for a in attrs if a.sh and a.fl & CMD and not a.fl & (OPT|REQ)]
        if fl: g=[r.choice(fl) for _ in range(r.randrange(1, 4))]; args.append("-"+"".join(a.sh for a in g)); sets+=[(a, None) for a in g]
    if r.random() < 0.15:
        args.append(r.choice(["--nosuch", "--nosuch=3", "-%"]))      # unknown ones are ignored
    if r.random() < 0.15:
        args.append("--")
        for _ in range(r.randrange(3)):
            a=r.choice(attrs); args.append("--"+(a.lo or "zz"))      # not options any more
    return args, sets
def conffile(r, attrs, path):
    """a configuration file and the text every attribute gets from it"""
    out=[]; vals={}; cands=[a for a in attrs]; r.shuffle(cands)
    for a in cands[:r.randrange(0, len(cands)+1)]:
        if a.name in ("config", "confdir") and r.random() < 0.5: continue
        k=r.randrange(9)
        if k == 0: n=r.randrange(-100, 10**6); out.append("%s = %d" % (a.name, n)); vals[a.name]=str(n)
        elif k == 1: out.append("%s = true" % a.name); vals[a.name]="true"
        elif k == 2 and a.fl & (OPT|REQ): out.append("%s = false" % a.name); vals[a.name]="false"
        elif k == 2: out.append("%s = false" % a.name)
        elif k == 3: out.append("%s = {1,2}" % a.name)
        elif k == 4: out.append("%s = nil" % a.name)
        elif k == 5: out.append("%s = %s; %s = %s" % (a.name, lua("first"), a.name, lua("second"))); vals[a.name]="second"
        else: v=val(r).replace("\0", ""); out.append("%s = %s" % (a.name, lua(v))); vals[a.name]=v
    if r.random() < 0.3: out.append("print(%s)" % lua(val(r)))
    if r.random() < 0.3: out.append("print(calling_module .. configdir)")
    out.append("unrelated_global = 5"); fail=r.random() < 0.08
    if fail: out.append(r.choice(["error('no')", "x = = 1", "nosuchfunction()", "print()"])); 
    open(path, "w", encoding="latin1").write("\n".join(out)+"\n")
    return vals, fail
def client(c, exe, n):
    global serial; serial+=1
    r=c.rng; d=os.path.join(c.base, "c%d" % serial); os.makedirs(d+"/cwd"); x=Cfg(exe, d+"/cwd", os.path.join(d, "log"))
    try:
        for k in range(n):
            nm=r.choice(["mod", "module with space", "m", "M"*40, "daxtest"])
            s, res=(int(v) for v in x.cmd("new", 0, hx(nm)))
            if res: raise Violation("init", "dax_init_config returned %d" % res)
            attrs=[Attr(a, a, b, f, df) for a, b, f, df in BUILTIN]; by={a.name: a for a in attrs}; by["name"].df=nm
            for j in range(r.choice([0, 1, 3, 8, 20])):
                name=r.choice(["at%d" % r.randrange(30), "_x%d" % j, "A%d_b" % j, "verbose", "name", "9bad", "sp ace", "da-sh", "", "cachesize"]); lo=r.choice([None, name, "opt-%d" % r.randrange(30), "o_%d" % j, "server", "b=d", "opt-1"])
                sh=r.choice(["", "", "a", "b", "c", "d", "e", "f", "U", "v", "0", "9", "G", "x"]); fl=r.choice([NONE, OPT, REQ])|r.choice([CMD, CONF, CMD|CONF, CMD|CONF])|(NOVAL if r.random() < 0.12 else 0); df=r.choice([None, "def", "", "12"])
                got=x.i("add", s, hx(name), hx(lo) if lo else "-", ord(sh) if sh else 0, fl, hx(df) if df is not None else "-")
                okname=name and (name[0].isalpha() or name[0] == "_") and all(q.isalnum() or q == "_" for q in name); oklo=lo is None or all(q.isalnum() or q in "-_" for q in lo[1:])
                if lo == "": lo=None; oklo=True
                if not okname or not oklo: want=-4
                elif any(a.name == name or (lo and a.lo == lo) or (sh and a.sh == sh) for a in attrs): want=-12
                else: want=0; a=Attr(name, lo, sh, fl, df); attrs.append(a); by[name]=a
                if got != want: raise Violation("add", "dax_add_attribute(%r, %r, %r, %#x) returned %d, not %d" % (name, lo, sh, fl, got, want))
                c.count("attributes")
                if want == 0 and r.random() < 0.4:
                    if x.i("cb", s, hx(name)): raise Violation("callback", "dax_attr_callback(%r) failed" % name)
                    by[name].cb=True
            if x.i("cb", s, hx("nosuch")) != -5: raise Violation("callback", "callback for an attribute that does not exist")
            if r.random() < 0.2:     # the program sets something before
                a=r.choice(attrs)
                if a.name not in ("config", "confdir", "name"):
                    v=val(r); x.i("set", s, hx(a.name), hx(v)); a.v=v
                    if r.random() < 0.5:
                        if x.i("self", s, hx(a.name)): raise Violation("set", "dax_set_attr")
            for a in attrs: a.alt=0
            flags=r.choice([CMD|CONF]*6+[CMD, CONF, 0])
            args, sets=cmdline(r, attrs); pre=[]
            # where the file is
            how=r.randrange(4); conf=os.path.join(d, "f%d.conf" % k); cname=nm; usename=r.random() < 0.3
            if usename: v="nm%d" % k; pre+=r.choice([["-N", v], ["--name", v], ["--name="+v], ["-N"+v]]); sets.append((by["name"], v)); cname=v
            if how == 0: pre+=r.choice([["-C", conf], ["--config="+conf], ["-C"+conf]]); sets.append((by["config"], conf))
            elif how == 1: pre+=r.choice([["-K", d], ["--confdir", d]]); sets.append((by["confdir"], d)); conf=os.path.join(d, cname+".conf")
            elif how == 2: pre+=["-K", "/nonexistent", "-C", conf]; sets+=[(by["confdir"], "/nonexistent"), (by["config"], conf)]
            else: pre+=["-C", os.path.join(d, "nosuch")]; sets.append((by["config"], os.path.join(d, "nosuch")))
            args=pre+args; vals, fail=conffile(r, attrs, conf)
            if how == 3: fail=True
            if not flags & CMD: sets=[]; fail=True
            got=x.cmd("conf", s, flags, hx("prog"), *[hx(a) for a in args]); cbs=got[1:]; wcb=[]
            text=lambda a, v: v if v is not None and a.fl & (OPT|REQ) else "Yes"
            last={}
            for a, v in sets:
                if not a.fl & NOVAL: a.v=text(a, v)
                if a.cb: wcb.append((a.name, v))
            if flags & CONF and not fail:
                for a in reversed(attrs):      # callbacks have no promised order here, compared as a set below
                    if a.fl & CONF and a.name in vals and a.v is None:
                        if not a.fl & NOVAL: a.v=text(a, vals[a.name])
                        if a.cb: wcb.append((a.name, vals[a.name]))
            for a in attrs:
                if a.v is None: a.v=a.df
            ctx="arguments %s, file %s%s, flags %#x" % (repr(args)[:600], repr(vals)[:600], " (bad)" if fail else "", flags)
            if (int(got[0]) != 0) != bool(flags & CONF and fail): raise Violation("result", "dax_configure returned %s: %s" % (got[0], ctx), open(conf, encoding="latin1").read())
            for a in attrs:
                g=x.get(s, a.name); c.count("values")
                if a.name == "confdir" and a.df == BUILD and a.v == BUILD: 
                    if not g: raise Violation("value", "confdir is not set: "+ctx)
                    continue
                if a.name == "msgtimeout" and a.v == BUILD:
                    if not g or not g.isdigit(): raise Violation("value", "msgtimeout is %r by default: %s" % (g, ctx))
                    continue
                if g != a.v: raise Violation("value:%s" % ("builtin" if a.name in dict((b[0], 1) for b in BUILTIN) else "attr"), "%s is %r, not %r: %s" % (a.name, g, a.v, ctx))
            gl=[tuple(None if q == "-" else core.uhx(q).decode("latin1") for q in z.split("=")) for z in cbs]
            if sorted(gl, key=repr) != sorted(wcb, key=repr): raise Violation("callback", "callbacks %r, expected %r: %s" % (gl, wcb, ctx))
            if x.get(s, "nosuch") is not None: raise Violation("value", "an attribute that does not exist has a value")
            c.case((how, flags, tuple(args), repr(vals)), "%s -> ok" % ctx[:200] if k < 3 else None)
            # the program changes its mind
            for _ in range(r.randrange(3)):
                a=r.choice(attrs); v=r.choice([val(r), None])
                if a.name == "msgtimeout" or a.name == "confdir": continue
                if x.i("set", s, hx(a.name), hx(v) if v is not None else "-"): raise Violation("set", "dax_set_attr failed")
                w=v if v is not None else a.df
                for b in attrs:
                    g=x.get(s, b.name)
                    if b is a and g != w: raise Violation("set", "%s is %r after setting %r" % (a.name, g, w))
                    if b is not a and b.v not in (BUILD, g) : raise Violation("set", "setting %s changed %s to %r" % (a.name, b.name, g))
                a.v=w
            if x.i("set", s, hx("nosuch"), hx("1")) != -5: raise Violation("set", "setting an attribute that does not exist")
            x.cmd("free", s)
        rep=core.san_report(x.log)
        if rep: raise Violation(rep["key"], "configuration", rep["text"])
    finally: x.close()
def connects(c, b, exe):
    """the settings have their effect: where the client connects and what it is called"""
    global serial; serial+=1
    r=c.rng; d=os.path.join(c.base, "n%d" % serial); os.makedirs(d)
    s1=core.Server(b, d, "one").start(); s2=core.Server(b, d, "two").start(); x=Cfg(exe, d, os.path.join(d, "log"))
    cl={}
    try:
        for s in (s1, s2): q=proto.Raw(s, "obs"); cl[s]=q
        for k in range(c.n(25, 200)):
            s=x.cmd("new", 0, hx("cl"))[0]; src={}; conf=os.path.join(d, "k%d.conf" % k); args=["-C", conf]; fl=[]
            names={"name": ["alpha%d" % k, "beta%d" % k, "cl"]}; w1, w2=r.sample([s1, s2], 2); tcp=r.random() < 0.5
            opt=[("name", "N", "alpha%d" % k, "beta%d" % k)]
            # the right server is on the command line, or in the file only; the other one must lose
            mode=r.randrange(3)
            vals=[("serverport", "P", str(w1.port), str(w2.port)), ("serverip", "I", "127.0.0.1", "127.0.0.77"), ("server", "S", "TCP", "LOCAL")] if tcp else [("socketname", "U", w1.sock, w2.sock), ("server", "S", "LOCAL", "tcp")]
            for n, sh, good, bad in vals:
                if mode == 0: args+=r.choice([["-"+sh, good], ["--%s=%s" % (n, good)], ["--"+n, good]]); fl.append((n, bad))
                elif mode == 1: fl.append((n, good))
                else:
                    if r.random() < 0.5: args+=["-"+sh, good]; fl.append((n, bad))
                    else: fl.append((n, good))
            nm="cl"
            if r.random() < 0.4: args+=["--name", "alpha%d" % k]; nm="alpha%d" % k
            if r.random() < 0.4: fl.append(("name", "beta%d" % k)); nm="beta%d" % k if nm == "cl" else nm
            open(conf, "w").write("".join('%s = "%s"\n' % (n, v) if n != "serverport" or r.random() < 0.5 else "%s = %s\n" % (n, v) for n, v in fl))
            got=x.i("conf", s, CMD|CONF, hx("p"), *[hx(a) for a in args])
            if got: raise Violation("result", "dax_configure returned %d: %r" % (got, args))
            if x.i("connect", s): raise Violation("effect:connect", "client does not connect with %r and file %r" % (args, fl))
            tag="_m"+nm; here=cl[w1].by_name(tag); there=cl[w2].by_name(tag)
            if here[0] != 0: raise Violation("effect:name", "no module %s at the server it should be at: %r, file %r" % (nm, args, fl))
            if there[0] == 0 and not nm == "cl": raise Violation("effect:server", "module %s connected to the wrong server: %r, file %r" % (nm, args, fl))
            x.cmd("disconnect", s); x.cmd("free", s); c.case(("connect", tuple(args[2:]), tuple(fl))); c.count("connections")
            t0=time.time()
            while cl[w1].by_name(tag)[0] == 0 and time.time()-t0 < 5: time.sleep(0.005)
    finally: x.close(); s1.kill9(); s2.kill9()
class Srv:
    def __init__(self, sock, p): self.sock, self.p=sock, p
    def alive(self): return self.p.poll() is None
    def check(self): pass
    def wait_dead(self, t): pass
def listening(p):
    """the TCP address a process listens on"""
    ino=set()
    for f in os.listdir("/proc/%d/fd" % p.pid):
        try: l=os.readlink("/proc/%d/fd/%s" % (p.pid, f))
        except OSError: continue
        if l.startswith("socket:["): ino.add(l[8:-1])
    for l in open("/proc/net/tcp").read().split("\n")[1:]:
        q=l.split()
        if len(q) > 9 and q[3] == "0A" and q[9] in ino:
            a, po=q[1].split(":"); return socket.inet_ntoa(struct.pack("=I", int(a, 16))), int(po, 16)
    return None
def server(c, b, k):
    global serial; serial+=1
    r=c.rng; d=os.path.join(c.base, "s%d" % serial); os.makedirs(d); log=os.path.join(d, "log")
    pa, pb=core.free_port(), core.free_port()
    spec={"socketname": ("S", os.path.join(d, "a"), os.path.join(d, "b"), None), "serverip": ("I", r.choice(["127.0.0.1", "0.0.0.0", "127.0.0.9"]), r.choice(["127.0.0.2", "0.0.0.0", "127.0.0.1"]), "0.0.0.0"),
        "serverport": ("P", str(pa), str(pb), None), "mod_tag_exclude": ("X", "aaa bbb", "ccc", "")}
    lo={"mod_tag_exclude": "mod-tag-exclude"}; want={}; args=[]; conf=[]; how={}
    for n, (sh, cv, fv, df) in spec.items():
        w=r.choice(["cmd", "conf", "both", "both"] if df is None else ["cmd", "conf", "both", "none"]); how[n]=w
        if w in ("cmd", "both"):
            if r.random() < 0.15: args+=["-"+sh, fv]     # the last one counts
            args+=r.choice([["-"+sh, cv], ["-"+sh+cv], ["--%s=%s" % (lo.get(n, n), cv)], ["--"+lo.get(n, n), cv]])
        if w in ("conf", "both"): conf.append("%s = %s" % (n, fv if n == "serverport" and r.random() < 0.5 else '"%s"' % fv))
        want[n]=cv if w in ("cmd", "both") else fv if w == "conf" else df
    topics=r.choice([None, "COMM", "DEBUG", "MAJOR,COMM", "ALL"]); t=None
    if topics:
        t=r.choice([["-T", topics], ["--logtopics="+topics], ["--logtopics", topics], ["-T"+topics]])
        if topics == "ALL" and r.random() < 0.5: t=r.choice([["-v"], ["--verbose"]])
        args+=t
    if r.random() < 0.4: conf.append("other = configdir .. calling_module")
    if r.random() < 0.2: conf.append("min_buffers = %d" % r.randrange(1, 100))
    r.shuffle(conf); cf=os.path.join(d, "t.conf"); open(cf, "w").write("\n".join(conf)+"\n")
    args+=r.choice([["-C", cf], ["--configfile="+cf], ["--configfile", cf]])
    ctx="arguments %r, file %r" % (args, conf)
    # a terminal, so that every log line arrives at once
    ma, sl=pty.openpty(); tty.setraw(sl); said=[]
    p=core.spawn([os.path.join(b, "src/server/tagserver")]+args, d, log, stdout=sl); os.close(sl)
    def reader():
        while True:
            try: z=os.read(ma, 65536)
            except OSError: break
            if not z: break
            said.append(z)
    th=threading.Thread(target=reader, daemon=True); th.start()
    try:
        t0=time.time(); a=None
        while time.time()-t0 < 20:
            if p.poll() is not None:
                rep=core.san_report(log); raise Violation("server:exit" if not rep else rep["key"], "server ended with %s: %s" % (p.returncode, ctx), open(log, errors="replace").read()[-2000:])
            a=listening(p)
            if a and os.path.exists(want["socketname"]):
                try: q=proto.Raw(Srv(want["socketname"], p), "obs"); break
                except OSError: pass
            time.sleep(0.01)
        else: raise Violation("server:socket", "server is not at %s (tcp %r): %s" % (want["socketname"], a, ctx), open(log, errors="replace").read()[-2000:])
        if a != (want["serverip"], int(want["serverport"])): raise Violation("server:address", "server listens on %r, not on %s:%s: %s" % (a, want["serverip"], want["serverport"], ctx))
        for s in (spec["socketname"][1], spec["socketname"][2]):
            if s != want["socketname"] and os.path.exists(s): raise Violation("server:socket", "server made %s: %s" % (s, ctx))
        ex=want["mod_tag_exclude"].split()
        for n in ("aaa", "bbb", "ccc", "aa", "ddd", "aaab", "xaaa", "bbbb", "cc", "AAA"):
            z=proto.Raw(Srv(want["socketname"], p), n); got=q.by_name("_m"+n)[0] == 0; z.close()
            if got == (n in ex): raise Violation("server:exclude", "module tag of %s is %s with exclusion %r: %s" % (n, "there" if got else "not there", want["mod_tag_exclude"], ctx))
        z=socket.create_connection((a[0] if a[0] != "0.0.0.0" else "127.0.0.1", a[1])); z.close()
        time.sleep(0.05); p.kill(); p.wait(); th.join(5)
        lines=b"".join(said).decode(errors="replace"); tops=set(l.split("] ", 1)[1].split(":")[0] for l in lines.split("\n") if l.startswith("[") and "] " in l)
        sel=set((topics or "ERROR,FATAL").split(",")) if topics != "ALL" else None
        if sel is not None and tops-sel: raise Violation("server:topics", "topics %r logged with %r: %s" % (tops, topics, ctx))
        c.count("log_topics_seen", len(tops))
        if topics and ("COMM" in topics or topics == "ALL") and "COMM" not in tops: raise Violation("server:topics", "nothing of COMM logged with %r, only %r: %s" % (topics, tops, ctx))
        c.case(("server", tuple(sorted(how.items())), topics)); c.count("servers")
    finally: p.kill(); p.wait(); th.join(5); os.close(ma)
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("asan", "cfg.c")
    for i in range(c.n(12, 60)): c.run("client %d" % i, client, c, exe, c.n(60, 200))
    for i in range(c.n(2, 10)): c.run("effects %d" % i, connects, c, b, exe)
    for k in range(c.n(80, 500)): c.run("server %d" % k, server, c, b, k)
core.main("P24", "one evaluation per configuration: arguments, file and defaults merged by the real code and compared with the documented precedence", body)
