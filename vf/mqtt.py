"""A small MQTT 3.1.1 broker: it keeps what its one client sends and sends it what it is told to."""
import socket, threading, time, struct

def match(sub, topic):
    """does a subscription (an MQTT topic filter) match a topic"""
    s=sub.split("/"); t=topic.split("/")
    for i, e in enumerate(s):
        if e == "#": return True
        if i >= len(t): return False
        if e != "+" and e != t[i]: return False
    return len(s) == len(t)

def text(s): b=s if isinstance(s, bytes) else s.encode(); return struct.pack(">H", len(b))+b
def varlen(n):
    o=b""
    while True:
        o+=bytes([n & 127 | (128 if n > 127 else 0)]); n>>=7
        if not n: return o

class Broker:
    def __init__(b, port):
        b.port=port; b.lock=threading.RLock(); b.cond=threading.Condition(b.lock)
        b.connects=[]; b.subs={}; b.sublog=[]; b.msgs=[]; b.retained={}; b.refuse=0; b.ban=set(); b.disconnects=0; b.errors=[]
        b.sock=None; b.acks={}; b.mid=0; b.pend={}; b.up=False; b.slow=0; b.early=False; b.stopped=False; b.pings=0
        b.ls=socket.socket(); b.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); b.ls.bind(("127.0.0.1", port)); b.ls.listen(5)
        threading.Thread(target=b._accept, daemon=True).start()
    def _accept(b):
        while not b.stopped:
            try: s, _=b.ls.accept()
            except OSError: return
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=b._serve, args=(s,), daemon=True).start()
    def _serve(b, s):
        buf=b""
        try:
            while True:
                while True:
                    p=b._packet(buf)
                    if p is None: break
                    t, body, buf=p
                    if b._handle(s, t, body): return
                d=s.recv(65536)
                if not d: break
                buf+=d
        except OSError: pass
        except Exception as e: b.errors.append("malformed packet: %r" % e)
        finally:
            with b.lock:
                if b.sock is s: b.sock=None; b.up=False; b.subs={}; b.pend={}
                b.cond.notify_all()
            try: s.close()
            except OSError: pass
    def _packet(b, buf):
        if len(buf) < 2: return None
        n=0; sh=0; i=1
        while True:
            if i >= len(buf): return None
            n|=(buf[i] & 127) << sh; sh+=7; i+=1
            if not buf[i-1] & 128: break
            if i > 4: raise ValueError("length")
        if len(buf) < i+n: return None
        return buf[0], buf[i:i+n], buf[i+n:]
    def _send(b, s, t, body):
        with b.lock: s.sendall(bytes([t])+varlen(len(body))+body)
    def _handle(b, s, t, d):
        k=t >> 4
        if k == 1:
            n=struct.unpack(">H", d[:2])[0]; name=d[2:2+n]; p=2+n; level, flags, keep=struct.unpack(">BBH", d[p:p+4]); p+=4; f=[]
            while p < len(d): n=struct.unpack(">H", d[p:p+2])[0]; f.append(d[p+2:p+2+n]); p+=2+n
            with b.lock:
                b.connects.append(dict(name=name, level=level, flags=flags, keep=keep, id=f[0] if f else b"", user=f[1] if flags & 128 and len(f) > 1 else None, pw=f[-1] if flags & 64 else None, t=time.time()))
                if b.refuse > 0: b.refuse-=1; b._send(s, 0x20, b"\0\x05"); b.cond.notify_all(); return True
                if b.sock is not None and b.sock is not s: b.errors.append("a second connection while one is up")
                b.sock=s; b.up=True; b.subs={}; b.pend={}; b._send(s, 0x20, b"\0\0"); b.cond.notify_all()
        elif k == 8:
            mid=d[:2]; p=2; codes=b""; got=[]
            while p < len(d): n=struct.unpack(">H", d[p:p+2])[0]; got.append((d[p+2:p+2+n].decode(), d[p+2+n])); p+=3+n
            with b.lock:
                ret=[]
                for tp, q in got:
                    b.sublog.append((tp, q))
                    if tp in b.ban: codes+=b"\x80"; continue
                    b.subs[tp]=q; codes+=bytes([q]); ret+=[(r, v) for r, v in b.retained.items() if match(tp, r)]
                m=b"".join(bytes([0x31])+varlen(len(text(r)+v))+text(r)+v for r, v in ret); a=bytes([0x90])+varlen(2+len(codes))+mid+codes
                s.sendall(m+a if b.early else a+m); b.cond.notify_all()
        elif k == 3:
            q=t >> 1 & 3; n=struct.unpack(">H", d[:2])[0]; tp=d[2:2+n]; p=2+n; mid=b""
            if q: mid=d[p:p+2]; p+=2
            with b.lock:
                if not (q == 2 and mid in b.pend): b.msgs.append((tp.decode(errors="replace"), d[p:], q, t & 1, t >> 3 & 1, time.time()))
                if q == 2: b.pend[mid]=1
                b.cond.notify_all()
            if b.slow: time.sleep(b.slow)
            if q == 1: b._send(s, 0x40, mid)
            elif q == 2: b._send(s, 0x50, mid)
        elif k == 6:
            b.pend.pop(d[:2], None); b._send(s, 0x70, d[:2])
        elif k in (4, 5, 7):
            with b.lock: b.acks[(k, d[:2])]=1; b.cond.notify_all()
        elif k == 12: b.pings+=1; b._send(s, 0xD0, b"")
        elif k == 14:
            with b.lock: b.disconnects+=1
            return True
        else: b.errors.append("packet type %d" % k)
    # -------------------------------------------------------------- the other side
    def wait(b, f, secs):
        end=time.time()+secs
        with b.cond:
            while not f():
                if time.time() > end: return False
                b.cond.wait(0.05)
        return True
    def deliver(b, topic, payload, qos=0, split=0, retain=0):
        """send a message if a subscription of the client asks for it; True if it was sent (and acknowledged)"""
        with b.lock:
            s=b.sock; qs=[q for tp, q in b.subs.items() if match(tp, topic)]
            if s is None or not qs: return False
            qos=min(qos, max(qs)); b.mid=b.mid % 60000+1; mid=struct.pack(">H", b.mid)
            body=text(topic)+(mid if qos else b"")+payload; pkt=bytes([0x30 | qos << 1 | retain])+varlen(len(body))+body
            try:
                if split: s.sendall(pkt[:split]); time.sleep(0.003); s.sendall(pkt[split:])
                else: s.sendall(pkt)
            except OSError: return False
        def acked(k): return b.wait(lambda: (k, mid) in b.acks or b.sock is not s, 15) and (k, mid) in b.acks
        if qos == 1 and not acked(4): return False
        if qos == 2:
            if not acked(5): return False
            try: b._send(s, 0x62, mid)
            except OSError: return False
            if not acked(7): return False
        for k in (4, 5, 7): b.acks.pop((k, mid), None)
        return True
    def drop(b):
        with b.lock:
            if b.sock:
                try: b.sock.shutdown(2)
                except OSError: pass
    def close(b):
        b.stopped=True; b.drop()
        try: b.ls.shutdown(2)
        except OSError: pass
        b.ls.close()
    def down(b):
        """nobody listens"""
        b.close()
    def again(b):
        b.stopped=False; b.ls=socket.socket(); b.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); b.ls.bind(("127.0.0.1", b.port)); b.ls.listen(5)
        threading.Thread(target=b._accept, daemon=True).start()
