"""Common machinery: sanitizer builds of /repo, process launchers, evidence, verdicts."""
import os, sys, json, time, random, shutil, subprocess, tempfile, signal, socket, threading, traceback, hashlib, atexit, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

FLAVOURS = {
    # heap, stack, bounds: every process of the system runs with these
    "asan": "-fsanitize=address,bounds,object-size,null,unreachable,return -fno-sanitize-recover=all -fno-omit-frame-pointer -g -Wno-error -w",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer -g -Wno-error -w",
    "plain": "-g -Wno-error -w",
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=1:handle_abort=1:handle_sigfpe=1:print_summary=1:symbolize=1:strict_memcmp=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0",
}

class BuildError(Exception): pass

def build(flavour, targets):
    """(Re)build the named ninja targets of /repo's working tree in a build directory of ours."""
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "CXXFLAGS")}
        env["CC"] = "gcc"; env["CXX"] = "g++"
        r = subprocess.run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_C_FLAGS=" + FLAVOURS[flavour]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-3000:])
        r = subprocess.run(["ninja", "-C", bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    return bdir

def build_harness(flavour, src, out=None, extra=(), lua=False):
    """Compile one of our harness sources against the library of that flavour."""
    bdir = os.path.join(BUILD, flavour)
    out = out or os.path.splitext(src)[0]
    exe = os.path.join(bdir, "vf_" + out)
    cmd = ["gcc"] + FLAVOURS[flavour].split() + ["-I" + REPO + "/src", "-I" + bdir + "/src", "-I/usr/include/lua5.4", "-I/usr/include/lua5.3",
           os.path.join(VERIF, "harness", src), "-o", exe, "-L" + bdir + "/src/lib", "-L" + bdir + "/src/lib/logger",
           "-Wl,-rpath," + bdir + "/src/lib", "-Wl,-rpath," + bdir + "/src/lib/logger", "-ldax", "-ldaxlog", "-lpthread", "-lm"] + list(extra)
    tmp = exe + ".%d" % os.getpid(); cmd[cmd.index("-o") + 1] = tmp
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, exe)
    return exe

def rmtree(p):
    if p and p.startswith("/tmp/vf."):
        shutil.rmtree(p, ignore_errors=True)

_ports = random.Random()
def free_port():
    """a port nobody listens at, outside the range that outgoing connections take theirs from"""
    while True:
        p = _ports.randrange(12000, 32000); s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try: s.bind(("127.0.0.1", p))
        except OSError: continue
        finally: s.close()
        return p

def fresh(path):
    """the path, or one like it, that does not exist: a workload that is run again starts from nothing"""
    k = 0; p = path
    while os.path.lexists(p): k += 1; p = "%s~%d" % (path, k)
    return p

_procs = []
def _killall():
    for p in _procs:
        try:
            if p.poll() is None: p.kill()
        except Exception: pass
atexit.register(_killall)

def spawn(argv, cwd, log, stdin=None, stdout=None, env=None, setsid=True, preexec=None):
    e = dict(os.environ); e.update(SAN_ENV); e["LANG"] = "C"
    if env: e.update(env)
    lf = open(log, "ab")
    p = subprocess.Popen(argv, cwd=cwd, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else lf, stderr=lf, env=e, start_new_session=setsid, preexec_fn=preexec)
    lf.close()
    _procs.append(p)
    return p

def san_report(path):
    """The first sanitizer report in a log, or None.  A short stable key and the text."""
    try:
        t = open(path, "rb").read().decode(errors="replace")
    except OSError:
        return None
    import re
    pos = -1
    for pat in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "AddressSanitizer:DEADLYSIGNAL", "AddressSanitizer CHECK failed"):
        i = t.find(pat)
        if i >= 0 and (pos < 0 or i < pos): pos = i
    if pos < 0: return None
    body = t[max(0, pos - 200):pos + 6000]
    m = re.search(r"(heap-buffer-overflow|heap-use-after-free|stack-buffer-overflow|stack-buffer-underflow|stack-use-after-return|stack-use-after-scope|stack-overflow|dynamic-stack-buffer-overflow|global-buffer-overflow|double-free|attempting free|SEGV|negative-size-param|memcpy-param-overlap|strcpy-param-overlap|unknown-crash|ABRT|FPE|data race|heap-buffer|deadlock|bad-free|null pointer|out of bounds|runtime error|allocation-size-too-big|out-of-memory)", body)
    kind = m.group(1) if m else "sanitizer"
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) (/\S+?):(\d+)", body) or [(a, b, "0") for a, b in re.findall(r"#\d+ (\w+) (/\S+?)(?::\d+)", body)]
    where = "?"
    for f, path_, ln in fr:
        if REPO in path_:
            where = f + "@" + os.path.basename(path_); break
    return {"key": kind + ":" + where, "text": body}

class Died(Exception):
    """A process under observation ended or stopped answering."""
    def __init__(self, what, report=None):
        super().__init__(what); self.what = what; self.report = report

class Violation(Exception):
    def __init__(self, key, msg, data=None):
        super().__init__(msg); self.key = key; self.msg = msg; self.data = data

class Server:
    """A private tag server: own directory, socket, port."""
    def __init__(self, bdir, base, name="srv", args=(), wrap=(), env=None):
        self.bdir = bdir; self.base = base; self.name = name; self.args = list(args); self.wrap = list(wrap); self.env = env
        self.cwd = fresh(os.path.join(base, name)); os.makedirs(self.cwd)
        self.sock = os.path.join(self.cwd, "s"); self.port = None; self.gen = 0; self.p = None
        self.conf = os.path.join(self.cwd, "tagserver.conf")
        if not os.path.exists(self.conf): open(self.conf, "w").close()
        self.log = os.path.join(self.cwd, "log")
    def start(self, extra=()):
        for attempt in range(5):
            self.port = free_port(); self.gen += 1
            self.log = os.path.join(self.cwd, "log.%d" % self.gen)
            try: os.unlink(self.sock)
            except OSError: pass
            self.p = spawn(self.wrap + [os.path.join(self.bdir, "src/server/tagserver"), "-S", self.sock, "-I", "127.0.0.1", "-P", str(self.port), "-C", self.conf] + self.args + list(extra), self.cwd, self.log, env=self.env)
            t0 = time.time()
            while time.time() - t0 < 30:
                if self.p.poll() is not None: break
                try:
                    s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close()
                    return self
                except OSError:
                    time.sleep(0.005)
            r = san_report(self.log)
            if r: raise Died("server died at start: " + r["key"], r)
            if self.p.poll() is None: self.p.kill(); self.p.wait()
        raise Died("server does not start", {"key": "nostart", "text": open(self.log).read()[-2000:]})
    def alive(self): return self.p is not None and self.p.poll() is None
    def check(self):
        """Raise Died if the server is gone or a sanitizer complained."""
        if not self.alive():
            r = san_report(self.log)
            raise Died("server exited rc=%s %s" % (self.p.returncode, r["key"] if r else ""), r or {"key": "exit:%s" % self.p.returncode, "text": open(self.log, errors="replace").read()[-3000:]})
        return True
    def wait_dead(self, t=5):
        try: self.p.wait(t)
        except subprocess.TimeoutExpired: return False
        return True
    def kill9(self):
        if self.alive(): self.p.kill()
        self.p.wait()
    def term(self, sig=signal.SIGTERM, t=10):
        if self.alive(): self.p.send_signal(sig)
        try: self.p.wait(t)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait(); return False
        return True
    stop = kill9
    def rss(self):
        for l in open("/proc/%d/status" % self.p.pid):
            if l.startswith("VmRSS"): return int(l.split()[1])
        return 0

class Drv:
    """A libdax client in its own (sanitized) process."""
    def __init__(self, exe, base, srv, name, tcp=False, args=(), timeout=40):
        self.name = name; self.timeout = timeout
        self.log = os.path.join(base, "drv.%s.%d.log" % (name[:40], random.SystemRandom().randrange(10**9)))
        conf = os.path.join(base, "empty.conf")
        if not os.path.exists(conf): open(conf, "w").close()
        self.p = spawn([exe], base, self.log, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        a = ["-C", conf, "-K", base]
        if tcp: a += ["-S", "127.0.0.1", "-I", "127.0.0.1", "-P", str(srv.port)]
        else: a += ["-U", srv.sock]
        self.init = self.cmd("init", name, *a, *args)
    def cmd(self, *a):
        l = (" ".join(str(x) for x in a) + "\n").encode()
        try:
            self.p.stdin.write(l); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.dead("write")
        timer = threading.Timer(self.timeout, self._stuck); timer.start()
        r = self.p.stdout.readline()
        timer.cancel()
        if not r.endswith(b"\n"): self.dead(a[0])
        return r.decode(errors="replace").split()
    def batch(self, cmds, chunk=100):
        """many calls, pipelined"""
        for k in range(0, len(cmds), chunk):
            part = cmds[k:k + chunk]
            try:
                self.p.stdin.write(("".join(" ".join(str(x) for x in a) + "\n" for a in part)).encode()); self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                self.dead("write")
            for a in part:
                timer = threading.Timer(self.timeout, self._stuck); timer.start()
                r = self.p.stdout.readline()
                timer.cancel()
                if not r.endswith(b"\n"): self.dead(a[0])
                yield a, r.decode(errors="replace").split()
    def _stuck(self):
        self.stuck = True
        try: self.p.kill()
        except Exception: pass
    stuck = False
    def dead(self, what):
        try: self.p.wait(5)
        except Exception: self.p.kill(); self.p.wait()
        r = san_report(self.log)
        if self.stuck: raise Died("client call %s did not return within %ss" % (what, self.timeout), {"key": "hang:" + str(what), "text": ""})
        raise Died("client died in %s: rc=%s" % (what, self.p.returncode), r or {"key": "client-exit:%s:%s" % (self.p.returncode, what), "text": open(self.log, errors="replace").read()[-2000:]})
    def i(self, *a): return int(self.cmd(*a)[0])
    def connect(self): return self.i("connect")
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill(); self.p.wait()
    def kill(self):
        self.p.kill(); self.p.wait()

def hx(b):
    if b is None: return "-"
    if isinstance(b, str): b = b.encode("latin1")
    return b.hex() if len(b) else "."
def uhx(s): return b"" if s == "." else bytes.fromhex(s)

class Check:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid = pid; self.level = level; self.rule = rule
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.base = tempfile.mkdtemp(prefix="vf.%s." % pid, dir="/tmp")
        os.chmod(self.base, 0o755)
        atexit.register(rmtree, self.base)
        self.evals = 0; self.distinct = set(); self.samples = []; self.counts = {}
        self.violations = {}; self.knownhits = {}; self.assumptions = []; self.notes = []
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid]
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    @property
    def quick(self): return self.tier == "quick"
    def n(self, q, t): return q if self.tier == "quick" else t
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def case(self, key=None, sample=None):
        self.evals += 1
        if key is not None:
            if not isinstance(key, (str, int, tuple)): key = repr(key)
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def report(self, key, msg, data=None):
        """A violation with a stable key; known ones are announced, others fail the check."""
        for k in self.known:
            if k["key"] == key:
                self.knownhits.setdefault(key, (k, msg)); return
        if key not in self.violations:
            rd = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, "%s-%d.json" % (self.pid, len(self.violations)))
            json.dump({"property": self.pid, "key": key, "message": msg, "seed": self.seed, "tier": self.tier, "data": data}, open(f, "w"), indent=1, default=repr)
            self.violations[key] = (msg, f)
            print("  violation %s: %s" % (key, msg[:600])); sys.stdout.flush()
    def run(self, name, fn, *a, retry=True):
        """Run one workload; process deaths and oracle mismatches become violations (confirmed by one rerun)."""
        last = None
        if self.violations and (len(self.violations) >= 3 or time.time() - self.t0 > 150): return False    # the verdict is known
        for attempt in range(2 if retry else 1):
            st = self.rng.getstate()
            try:
                fn(*a); return True
            except Violation as v:
                last = (v.key, "%s: %s" % (name, v.msg), v.data)
            except Died as d:
                k = (d.report or {}).get("key", "died"); last = ("died:" + k, "%s: %s" % (name, d.what), d.report)
            except (BuildError, KeyboardInterrupt): raise
            except Exception as e:
                # a reply the harness cannot even take apart
                last = ("malformed:" + type(e).__name__, "%s: %r" % (name, e), traceback.format_exc())
            if attempt == 0 and retry: self.rng.setstate(st); self.count("reruns"); print("  (rerunning after %s: %s)" % (last[0], last[1][:500])); sys.stdout.flush()
        self.report(*last); return False
    def finish(self):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update({k: v for k, v in sorted(self.counts.items())})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=repr)
        for key, (k, msg) in self.knownhits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for key, (msg, f) in self.violations.items():
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(f, VERIF)))
        print("%s: %d evaluations, %d distinct, %.1fs, %d violation(s) %s" % (self.pid, self.evals, len(self.distinct), time.time() - self.t0, len(self.violations), json.dumps(self.counts)))
        sys.stdout.flush()
        _killall()
        rmtree(self.base)
        os._exit(1 if self.violations else 0)

def main(pid, rule, body, level="exploration"):
    c = Check(pid, level, rule)
    try:
        body(c)
    except BuildError as e:
        print("build failed:\n" + str(e)); rmtree(c.base); os._exit(2)
    except Exception:
        traceback.print_exc(); _killall(); rmtree(c.base)
        os._exit(1 if False else 2)
    c.finish()
