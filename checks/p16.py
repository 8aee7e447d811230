import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re, subprocess, threading, time
from vf import core
from vf.core import Violation, Died
serial=0
def races(path):
    """ThreadSanitizer reports in a log, one key per pair of functions"""
    t=open(path, "rb").read().decode(errors="replace"); out={}
    for rep in t.split("WARNING: ThreadSanitizer: ")[1:]:
        kind=rep.split("(")[0].split("\n")[0].strip(); stacks=re.split(r"\n\s*\n", rep); fn=[]
        for st in stacks[:3]:
            m=[f for f, p in re.findall(r"#\d+ (\w+) (/\S+?):\d+", st) if "/src/" in p and "/harness/" not in p]
            if m and len(fn) < 2: fn.append(m[0])
        out.setdefault(kind.replace(" ", "-")+":"+"/".join(sorted(fn) or ["?"]), rep[:3500])
    return out
def run(c, b, exe, mode, nt, iters, nd, tcp):
    global serial; serial+=1
    r=c.rng; srv=core.Server(b, c.base, "m%d" % serial).start()
    log=os.path.join(c.base, "mt%d.log" % serial); conf=os.path.join(c.base, "empty.conf"); open(conf, "w").close()
    a=["-C", conf, "-K", c.base, "-O", "40000" if mode != 3 else "4000", "-Z", str(r.choice([1, 2, 3, 8, 40]))]
    a+=["-S", "127.0.0.1", "-I", "127.0.0.1", "-P", str(srv.port)] if tcp else ["-U", srv.sock]
    try:
        p=core.spawn([exe, str(mode), str(nt), str(iters), str(r.randrange(1, 1 << 30)), str(nd), "--"]+a, c.base, log, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        stuck=[]
        def kill(): stuck.append(1); p.kill()
        tm=threading.Timer(c.n(180, 600), kill); tm.start(); end=False; bads=[]
        for l in p.stdout:
            l=l.decode(errors="replace").strip()
            if l == "KILL":
                (srv.kill9 if r.random() < 0.7 else lambda: srv.term(t=3))(); p.stdin.write(b"\n"); p.stdin.flush()
            elif l.startswith("N "): c.count(l.split()[1], int(l.split()[2]))
            elif l.startswith("BAD "): bads.append(l[4:])
            elif l == "END": end=True
        p.wait(); tm.cancel()
        rr=races(log)
        c.case((mode, nt, nd, tcp, serial)); c.count("runs_mode%d" % mode)
        for k, t in rr.items(): c.report(k, "mode %d, %d threads: %s" % (mode, nt, t[:300]), t)
        for l in bads[:4]: raise Violation(l.split(" ", 1)[0], "mode %d: %s" % (mode, l), bads)
        if stuck: raise Violation("stuck", "mode %d, %d threads: not finished after the time allowed" % (mode, nt))
        if rr: return
        rep=core.san_report(log)
        if rep: raise Violation(rep["key"], "mode %d" % mode, rep["text"])
        if not end or p.returncode not in (0,): raise Violation("exit", "mode %d: ended with %s" % (mode, p.returncode), open(log, errors="replace").read()[-3000:])
        if mode != 3: srv.check()
    finally: srv.kill9()
def body(c):
    b=core.build("tsan", ["tagserver", "dax", "daxlog"]); exe=core.build_harness("tsan", "mt.c")
    ba=core.build("asan", ["tagserver", "dax", "daxlog"]); exa=core.build_harness("asan", "mt.c")
    r=c.rng
    for i in range(c.n(4, 40)):
        # threads share one connection
        c.run("shared %d" % i, run, c, b, exe, 0, r.choice([2, 3, 4, 8]), c.n(1500, 6000), r.choice([1, 2, 3]), r.random() < 0.4, retry=False)
        c.run("separate %d" % i, run, c, b, exe, 1, r.choice([2, 4, 6]), c.n(15, 80), 0, r.random() < 0.4, retry=False)
        c.run("reopened %d" % i, run, c, b, exe, 2, r.choice([2, 4, 8]), 10**7, r.choice([0, 1, 2]), r.random() < 0.4, retry=False)
        c.run("lost %d" % i, run, c, b, exe, 3, r.choice([2, 4, 8]), 10**6, r.choice([0, 1, 2]), r.random() < 0.4, retry=False)
        # the same with the memory checked
        m=i % 4; c.run("memory %d" % i, run, c, ba, exa, m, r.choice([4, 8]), [c.n(1500, 6000), c.n(15, 80), 10**7, 10**6][m], r.choice([1, 2]), r.random() < 0.4, retry=False)
    c.samples+=["threads sharing a connection, separate connections opened and closed, a shared connection reopened under its users, the server lost under its users"]
core.main("P16", "one evaluation per multi-threaded run of the library under a race or memory detector; every operation in it is checked", body)
