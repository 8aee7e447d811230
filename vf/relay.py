"""A relay between clients and the server that delivers both byte streams in arbitrary pieces, and a source of
interruptions for the processes at both ends."""
import os, random, select, signal, socket, threading, time
from . import core

class Cut:
    """stands in for a Server: .sock and .port lead through the relay"""
    def __init__(t, srv, path, seed, slow=0.5):
        path=core.fresh(path); t.srv=srv; t.sock=path; t.r=random.Random(seed); t.slow=slow; t.pieces=0; t.cs=[]; t.go=threading.Event(); t.go.set(); t.rcvbuf=None
        t.lu=socket.socket(socket.AF_UNIX); t.lu.bind(path); t.lu.listen(16)
        t.li=socket.socket(); t.li.bind(("127.0.0.1", 0)); t.li.listen(16); t.port=t.li.getsockname()[1]
        for l in (t.lu, t.li): threading.Thread(target=t.accept, args=(l,), daemon=True).start()
    def accept(t, l):
        while True:
            try: c, _=l.accept()
            except OSError: return
            if l is t.lu: s=socket.socket(socket.AF_UNIX)
            else: s=socket.socket()
            try: s.connect(t.srv.sock if l is t.lu else ("127.0.0.1", t.srv.port))
            except OSError: c.close(); s.close(); continue
            if t.rcvbuf: c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, t.rcvbuf)
            if l is t.li:
                for x in (c, s): x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            t.cs+=[c, s]
            for a, b in ((c, s), (s, c)): threading.Thread(target=t.pump, args=(a, b, random.Random(t.r.random()), a is c), daemon=True).start()
    def pump(t, a, b, r, up):
        while True:
            if up:
                t.go.wait()
                try: select.select([a], [], [])
                except (OSError, ValueError): return
                t.go.wait()
            try: d=a.recv(65536)
            except OSError: d=b""
            if not d:
                for x, how in ((b, socket.SHUT_WR), (a, socket.SHUT_RD)):
                    try: x.shutdown(how)
                    except OSError: pass
                return
            k=r.random(); n=len(d)
            if k < 0.15: cuts=list(range(1, min(n, 24)))
            elif k < 0.25: cuts=[x for x in (4, 8, 12) if x < n]
            elif k < 0.8 and n > 1: cuts=sorted(r.sample(range(1, n), min(n-1, 1+int(r.expovariate(0.5)))))
            else: cuts=[]
            p=0
            for x in cuts+[n]:
                try: b.sendall(d[p:x])
                except OSError: return
                t.pieces+=1; p=x
                if x != n and r.random() < t.slow: time.sleep(r.choice([0, 0.0002, 0.001, 0.003]))
    def close(t):
        for x in [t.lu, t.li]+t.cs:
            try: x.shutdown(socket.SHUT_RDWR)
            except OSError: pass
            x.close()
    alive=lambda t: t.srv.alive()
    check=lambda t: t.srv.check()
    p=property(lambda t: t.srv.p)
    def __getattr__(t, n): return getattr(t.srv, n)

class Interrupt:
    """stops and continues processes: system calls that wait come back with EINTR"""
    def __init__(t, seed): t.r=random.Random(seed); t.pids={}; t.n=0; t.on=True; t.th=threading.Thread(target=t.run, daemon=True); t.th.start()
    def run(t):
        while t.on:
            time.sleep(t.r.choice([0.0005, 0.002, 0.004, 0.01]))
            ps=list(t.procs())
            if not ps: continue
            p=t.r.choice(ps)
            if p.poll() is not None: continue
            try:
                p.send_signal(signal.SIGSTOP); time.sleep(t.r.choice([0, 0.0003, 0.002])); p.send_signal(signal.SIGCONT); t.n+=1
            except OSError: pass
    def procs(t): return []
    def stop(t): t.on=False; t.th.join()
