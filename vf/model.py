"""Executable specification of the tag server: what a client may observe, request by request.

Every request method returns (ok, payload); ok is True/False.  Notifications that the request must cause
are appended to .out as (client, event type, tag index, event id, data or b"").
Indexes and ids that the server chooses are supplied by the caller (they are checked for freshness there)."""
import struct
from .proto import *

SYS = ["_tagcount","_lastindex","_tag_added","_tag_deleted","_dbsize","_starttime","_lastmodule","_overrides_installed","_overrides_set","_time","_my_tagname"]
TAGCOUNT,LASTINDEX,ADDED,DELETED,DBSIZE,STARTED,LASTMOD,OVR_INST,OVR_SET,TIMETAG,MYNAME = range(11)
NAMEMAX = 32; MODSIZE = 78; CMDOFF = 77
OPS = dict(INC=1,DEC=2,NOT=3,OR=4,AND=5,NOR=6,NAND=7,XOR=8,XNOR=9)

def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return float("inf") if x > 0 else float("-inf")

def validname(n):
    if len(n) > NAMEMAX or n == "": return False
    if not (n[0].isascii() and (n[0].isalpha() or n[0] == "_")): return False
    return all(ch.isascii() and (ch.isalnum() or ch == "_") for ch in n[1:])

class Ev:
    __slots__ = ("id","cl","byte","bit","count","size","type","et","opt","lim","test")
class Map:
    __slots__ = ("id","src","dst")
class Tag:
    def __init__(t, idx, name, type, count):
        t.idx=idx; t.name=name; t.type=type; t.count=count; t.attr=0; t.owner=None; t.data=None; t.odata=None; t.omask=None
        t.events=[]; t.maps=[]; t.queue=None; t.evids=set(); t.mapids=set(); t.stored=None

def getbit(b, i): return (b[i >> 3] >> (i & 7)) & 1
def setbit(b, i, v):
    if v: b[i >> 3] |= 1 << (i & 7)
    else: b[i >> 3] &= ~(1 << (i & 7)) & 0xFF

class Model:
    def __init__(m):
        m.tags={}; m.names={}; m.next=0; m.out=[]; m.types={}; m.typenames={}; m.cdtdef={}; m.dbsize=1024; m.dead=set()
        m.ovr_inst=0; m.ovr_set_n=0; m.clients=[]; m.ncdt=0
        m.stats={}
    # ---- types
    def typesize(m, t):
        """bytes of one element; None for an unknown type"""
        t &= ~QUEUE
        if t == BOOL: return 1
        if t in FMT: return tsize(t)
        if t & CUSTOM and t in m.types: return m.types[t]
        return None
    def tagsize(m, t, c): return c//8+1 if t == BOOL else m.typesize(t)*c
    def hsize(m, h):
        if h.type == BOOL: return (h.bit+h.count-1)//8+1
        return m.typesize(h.type)*h.count
    def tsize(m, tag): return m.tagsize(tag.type, tag.count)
    def get(m, idx): return m.tags.get(idx)
    # ---- notification
    def hit(m, t, e, off, size):
        d=t.data
        if e.et == E_WRITE: return True
        if e.et == E_CHANGE:
            if e.type == BOOL:
                r=False
                for i in range(e.bit, e.bit+e.count):
                    if getbit(e.test, i) != getbit(d, e.byte*8+i): r=True
                if r: e.test[:] = d[e.byte:e.byte+e.size]
                return r
            if e.test != d[e.byte:e.byte+e.size]:
                e.test[:] = d[e.byte:e.byte+e.size]; return True
            return False
        if e.et in (E_SET, E_RESET):
            r=False; want = 1 if e.et == E_SET else 0
            for i in range(e.bit, e.bit+e.count):
                if getbit(d, e.byte*8+i) == want:
                    if not getbit(e.test, i): r=True; setbit(e.test, i, 1)
                else: setbit(e.test, i, 0)
            return r
        if e.et == E_DELETED: return False
        inc=tsize(e.type); f="<"+FMT[e.type]
        a=max(0, off-e.byte)//inc; b=min(e.size, off+size-e.byte)
        r=False; i=a
        while i*inc < b:
            v=struct.unpack_from(f, d, e.byte+i*inc)[0]
            if e.et == E_DEADBAND:
                last=struct.unpack_from(f, e.test, i*inc)[0]
                diff=abs(v-last)
                if e.type == REAL: diff=abs(f32(last-v))
                if diff >= e.lim: r=True; struct.pack_into(f, e.test, i*inc, v)
            else:
                c = v == e.lim if e.et == E_EQUAL else v > e.lim if e.et == E_GREATER else v < e.lim
                if c:
                    if not getbit(e.test, i): r=True; setbit(e.test, i, 1)
                else: setbit(e.test, i, 0)
            i+=1
        return r
    def send(m, t, e):
        data=b""
        if e.opt & 1:
            data = bytes(t.queue[-1]) if t.queue is not None else bytes(t.data[e.byte:e.byte+e.size])
        m.out.append((e.cl, e.et, t.idx, e.id, data))
    def evcheck(m, t, off, size):
        if size <= 0: return
        for e in t.events:
            if off <= e.byte+e.size-1 and off+size-1 >= e.byte and m.hit(t, e, off, size): m.send(t, e)
    # ---- server internal writes
    def syswrite(m, idx, data, off=0):
        t=m.tags[idx]; t.data[off:off+len(data)] = data; m.evcheck(t, off, len(data)); 
    def desc(m, idx, t):
        m.syswrite(idx, struct.pack("<iIIH", t.idx, t.type, t.count, t.attr)+t.name.encode()[:32].ljust(33, b"\0"))
    def counter(m, idx, n): m.syswrite(idx, struct.pack("<i", n))
    # ---- tags
    def add_ok(m, cl, name, type, count, attr, internal=False):
        """-> None if refused, else existing Tag or 'new'"""
        if name[:1] == "_" and not internal: return None
        if count == 0 or m.typesize(type) is None or not validname(name): return None
        if m.tagsize(type, count) > 0x7FFFFFFF: return None
        if type & QUEUE and m.typesize(type)*count > 0x7FFFFFFF: return None
        if name in m.names:
            t=m.tags[m.names[name]]
            if t.attr & A_OWNED and t.owner is not cl: return None
            if t.type != type: return None
            if t.count < count and type & QUEUE: return None
            return t
        return "new"
    def setattr(m, cl, t, attr):
        if attr & A_RETAIN:
            if not t.attr & (A_RETAIN|A_VIRTUAL) and not t.type & QUEUE: t.attr |= A_RETAIN
        elif attr & A_OWNED:
            t.owner=cl; t.attr |= A_OWNED | (attr & A_READONLY)
    def add(m, cl, idx, name, type, count, attr, internal=False):
        """Apply an accepted tag_add; idx is what the server answered."""
        w=m.add_ok(cl, name, type, count, attr, internal)
        if w == "new":
            t=Tag(idx, name, type, count)
            if type & QUEUE: t.queue=[]; t.attr=A_VIRTUAL
            else: t.data=bytearray(m.tagsize(type, count))
            if m.next >= m.dbsize: m.dbsize*=2; m.counter(DBSIZE, m.dbsize)
            m.tags[idx]=t; m.names[name]=idx
            if LASTINDEX in m.tags: m.counter(LASTINDEX, idx)
            m.next=idx+1
            m.counter(TAGCOUNT, len(m.tags))
            m.setattr(cl, t, attr); m.desc(ADDED, t)
            return t
        t=w
        if m.next >= m.dbsize: m.dbsize*=2; m.counter(DBSIZE, m.dbsize)
        if t.count < count:
            grow=m.tagsize(type, count)-m.tsize(t)
            t.data += bytes(grow)
            if t.odata is not None: t.odata += bytes(grow); t.omask += bytes(grow)
            t.count=count; m.setattr(cl, t, attr); m.desc(ADDED, t)
        else: m.setattr(cl, t, attr)
        return t
    def delete(m, t):
        for e in t.events:
            if e.et == E_DELETED: m.send(t, e)
        t.events=[]; t.maps=[]
        m.desc(DELETED, t)
        if t.attr & A_OVRSET: m.ovr_set_n-=1; m.counter(OVR_SET, m.ovr_set_n)
        if t.attr & A_OVR: m.ovr_inst-=1; m.counter(OVR_INST, m.ovr_inst)
        del m.tags[t.idx]; del m.names[t.name]; m.dead.add(t.idx)
        m.counter(TAGCOUNT, len(m.tags))
    def tag_del(m, idx):
        t=m.get(idx)
        if t is None or t.name[0] == "_": return False
        m.delete(t); return True
    # ---- data
    def visible(m, t, off, size):
        d=bytearray(t.data[off:off+size])
        if t.attr & A_OVRSET:
            for i in range(len(d)):
                k=t.omask[off+i]; d[i]=(t.odata[off+i]&k)|(d[i]&~k&0xFF)
        return bytes(d)
    def inrange(m, t, off, size): return 0 <= off < 2**31 and 0 <= size < 2**31 and off+size <= m.tsize(t)
    def read(m, cl, idx, off, size):
        t=m.get(idx)
        if t is None or size > DATAMAX or not m.inrange(t, off, size): return False, b""
        if t.queue is not None:
            if off or size != m.tsize(t) or not t.queue: return False, b""
            return True, t.queue.pop(0)
        if idx == TIMETAG: return True, None
        if idx == MYNAME:
            if cl.tag is None: return False, b""
            return True, cl.tag.name.encode().ljust(33, b"\0")[off:off+size]
        return True, m.visible(t, off, size)
    def special_ok(m, cl, t, off, size):
        if t.attr & A_SPECIAL:
            if off == CMDOFF and size == 1: return True
            if cl is None or cl.tag is not t or off < 12: return False
        return True
    def writable(m, cl, t): return not t.attr & A_READONLY or (t.attr & A_OWNED and t.owner is cl)
    def write(m, cl, idx, off, data):
        t=m.get(idx)
        if t is None or not m.writable(cl, t) or not m.inrange(t, off, len(data)): return False
        if t.queue is not None:
            if off or len(data) != m.tsize(t): return False
            t.queue.append(bytes(data)); m.evcheck(t, 0, len(data)); return True
        if not m.special_ok(cl, t, off, len(data)): return False
        t.data[off:off+len(data)]=data
        m.evcheck(t, off, len(data)); m.mapcheck(t, off, len(data)); return True
    def rawmask(m, t, off, data, mask):
        for i in range(len(data)): t.data[off+i]=(data[i]&mask[i])|(t.data[off+i]&~mask[i]&0xFF)
        m.evcheck(t, off, len(data))
    def mask(m, cl, idx, off, data, mask):
        t=m.get(idx)
        if t is None or t.data is None or t.attr & A_VIRTUAL or not m.writable(cl, t) or not m.inrange(t, off, len(data)): return False
        if not m.special_ok(cl, t, off, len(data)): return False
        m.rawmask(t, off, data, mask); m.mapcheck(t, off, len(data)); return True
    # ---- handles
    def handle_ok(m, h):
        """size or None"""
        t=m.get(h.idx)
        if t is None: return None
        if t.queue is not None: return h.size if h.byte == 0 and h.size == m.tsize(t) else None
        if h.type & QUEUE or not m.typesize(h.type): return None
        if h.count == 0 or h.bit > 7 or (h.bit and h.type != BOOL): return None
        s=m.hsize(h)
        return s if h.byte+s <= m.tsize(t) else None
    # ---- events
    def ev_ok(m, cl, h, et):
        t=m.get(h.idx)
        if t is None or cl.tag is None and not cl.registered: return False
        if t.attr & A_VIRTUAL and t.queue is None: return False
        if t.queue is not None:
            if h.byte or et != E_WRITE or h.size != m.tsize(t): return False
        else:
            if h.type & QUEUE or not m.typesize(h.type) or h.count == 0 or h.bit > 7: return False
            if h.byte+m.hsize(h) > m.tsize(t): return False
        if et in (E_WRITE, E_CHANGE, E_DELETED): return True
        if et in (E_SET, E_RESET): return h.type == BOOL
        if et == E_EQUAL: return h.type not in (BOOL, REAL, LREAL) and not h.type & CUSTOM
        if et in (E_GREATER, E_LESS, E_DEADBAND): return h.type != BOOL and not h.type & CUSTOM
        return False
    def ev_add(m, cl, id, h, et, data):
        t=m.get(h.idx); e=Ev(); e.id=id; e.cl=cl; e.byte=h.byte; e.bit=h.bit; e.count=h.count; e.type=h.type; e.et=et; e.opt=0; e.lim=None; e.test=None
        e.size=h.size if t.queue is not None else m.hsize(h)
        if et in (E_CHANGE, E_DEADBAND): e.test=bytearray(t.data[e.byte:e.byte+e.size])
        elif et in (E_SET, E_RESET): e.test=bytearray(e.size)
        elif et in (E_EQUAL, E_GREATER, E_LESS): e.test=bytearray((e.count-1)//8+1)
        if et in (E_EQUAL, E_GREATER, E_LESS, E_DEADBAND): e.lim=struct.unpack_from("<"+FMT[h.type], data)[0]
        t.events.append(e); t.attr |= A_EVENT; t.evids.add(id); return e
    def findev(m, idx, id):
        t=m.get(idx)
        if t is None: return None, None
        for e in t.events:
            if e.id == id: return t, e
        return t, None
    def ev_del(m, cl, idx, id):
        t, e=m.findev(idx, id)
        if e is None or e.cl is not cl: return False
        t.events.remove(e)
        if not t.events: t.attr &= ~A_EVENT
        return True
    def ev_opt(m, cl, idx, id, o):
        t, e=m.findev(idx, id)
        if e is None or e.cl is not cl: return False
        if o & 1 and e.size+16 > MSGMAX: return False
        e.opt=o; return True
    # ---- mappings
    def bits(m, h): return h.count if h.type == BOOL else m.hsize(h)*8
    def map_ok(m, s, d):
        a=m.get(s.idx); b=m.get(d.idx)
        if a is None or b is None or (a.attr|b.attr) & A_VIRTUAL or b.attr & A_READONLY: return False
        if m.handle_ok(s) is None or m.handle_ok(d) is None: return False
        return m.bits(s) <= m.bits(d)
    def map_dupl(m, s, d):
        for x in m.tags[s.idx].maps:
            if (x.src.idx,x.src.byte,x.src.bit,x.src.count,x.src.type) == (s.idx,s.byte,s.bit,s.count,s.type) and (x.dst.idx,x.dst.byte,x.dst.bit,x.dst.count,x.dst.type) == (d.idx,d.byte,d.bit,d.count,d.type): return x.id
        return None
    def map_add(m, id, s, d):
        if m.map_dupl(s, d) is not None: return
        x=Map(); x.id=id; x.src=H(*s.tup()); x.dst=H(*d.tup()); x.src.size=m.hsize(s); x.dst.size=m.hsize(d)
        t=m.tags[s.idx]; t.maps.append(x); t.attr |= A_MAP; t.mapids.add(id)
    def findmap(m, idx, id):
        t=m.get(idx)
        if t is None: return None
        for x in t.maps:
            if x.id == id: return x
        return None
    def map_del(m, idx, id):
        x=m.findmap(idx, id)
        if x is None: return False
        t=m.tags[idx]; t.maps.remove(x)
        if not t.maps: t.attr &= ~A_MAP
        return True
    def mapcheck(m, t, off, size):
        if size <= 0: return
        for x in list(t.maps):
            d=m.get(x.dst.idx)
            if not (off <= x.src.byte+x.src.size-1 and off+size-1 >= x.src.byte): continue
            if d is None: m.map_del(t.idx, x.id); continue
            if d.attr & A_READONLY: continue
            m.stat("copies")
            if x.src.type == BOOL or x.dst.type == BOOL:
                n=m.bits(x.src); sz=(x.dst.bit+n-1)//8+1
                if not m.special_ok(None, d, x.dst.byte, sz): continue
                v=(int.from_bytes(t.data[x.src.byte:x.src.byte+x.src.size], "little") >> x.src.bit) & ((1<<n)-1)
                msk=((1<<n)-1) << x.dst.bit
                m.rawmask(d, x.dst.byte, (v<<x.dst.bit).to_bytes(sz, "little"), msk.to_bytes(sz, "little"))
            else:
                if not m.special_ok(None, d, x.dst.byte, x.src.size): continue
                d.data[x.dst.byte:x.dst.byte+x.src.size]=t.data[x.src.byte:x.src.byte+x.src.size]
                m.evcheck(d, x.dst.byte, x.src.size)
    # ---- groups
    def grp_ok(m, cl, hs):
        if not cl.registered or len(hs) > 150: return False
        tot=0
        for h in hs:
            s=m.handle_ok(h)
            if s is None or s != h.size: return False
            tot+=s
            if tot > 4084: return False
        return True
    def isbits(m, h): return h.type == BOOL and (h.bit or h.count % 8)
    def grp_read(m, cl, id):
        if not cl.registered or id not in cl.groups: return False, b""
        out=b""
        for h in cl.groups[id]:
            ok, d=m.read(cl, h.idx, h.byte, h.size)
            if not ok: return False, b""
            if d is None: return True, None
            if m.isbits(h): d=((int.from_bytes(d, "little") >> h.bit) & ((1<<h.count)-1)).to_bytes(h.size, "little")
            out+=d
        return True, out
    def grp_write(m, cl, id, data):
        if not cl.registered or id not in cl.groups: return False
        hs=cl.groups[id]
        if sum(h.size for h in hs) != len(data): return False
        for h in hs:
            t=m.get(h.idx)
            if t is None or not m.writable(cl, t) or not m.special_ok(cl, t, h.byte, h.size): return False
        pos=0
        for h in hs:
            t=m.tags[h.idx]; d=data[pos:pos+h.size]; pos+=h.size
            if m.isbits(h):
                v=int.from_bytes(d, "little") & ((1<<h.count)-1)
                m.rawmask(t, h.byte, (v<<h.bit).to_bytes(h.size, "little"), (((1<<h.count)-1)<<h.bit).to_bytes(h.size, "little"))
            else:
                t.data[h.byte:h.byte+h.size]=d; m.evcheck(t, h.byte, h.size)
            m.mapcheck(t, h.byte, h.size)
        return True
    # ---- atomic
    def atomic(m, cl, h, op, data):
        t=m.get(h.idx)
        if t is None or not m.writable(cl, t) or h.type & CUSTOM: return False
        s=m.handle_ok(h)
        if s is None or s != len(data) or t.attr & (A_VIRTUAL|A_SPECIAL): return False
        if op in (1, 2):
            if h.type == BOOL or h.count != 1: return False
            f="<"+FMT[h.type]; a=struct.unpack_from(f, t.data, h.byte)[0]; b=struct.unpack_from(f, data)[0]
            r=a+b if op == 1 else a-b
            if h.type == REAL: r=f32(r)
            elif h.type != LREAL: r=int(r) & ((1<<(8*s))-1)
            if h.type in (REAL, LREAL): struct.pack_into(f, t.data, h.byte, r)
            else: t.data[h.byte:h.byte+s]=r.to_bytes(s, "little")
        elif 3 <= op <= 9:
            if h.type in (REAL, LREAL): return False
            nb=h.count if h.type == BOOL else s*8
            full=int.from_bytes(t.data[h.byte:h.byte+s], "little"); msk=((1<<nb)-1)
            a=(full>>h.bit)&msk; b=int.from_bytes(data, "little")&msk
            r={3:~a,4:a|b,5:a&b,6:~(a|b),7:~(a&b),8:a^b,9:~(a^b)}[op]&msk
            full=(full & ~(msk<<h.bit))|(r<<h.bit)
            t.data[h.byte:h.byte+s]=full.to_bytes(s, "little")
        else: return False
        m.evcheck(t, h.byte, s); m.mapcheck(t, h.byte, s); return True
    # ---- overrides
    def ovr_ok(m, idx, off, size):
        t=m.get(idx)
        return t if t is not None and not t.attr & A_VIRTUAL and m.inrange(t, off, size) else None
    def ovr_add(m, idx, off, data, mask):
        t=m.ovr_ok(idx, off, len(data))
        if t is None: return False
        if t.odata is None: n=m.tsize(t); t.odata=bytearray(n); t.omask=bytearray(n)
        for i in range(len(data)):
            k=mask[i]; t.odata[off+i]=(t.odata[off+i]&~k&0xFF)|(data[i]&k); t.omask[off+i]|=k
        if not t.attr & A_OVR: m.ovr_inst+=1; t.attr|=A_OVR; m.counter(OVR_INST, m.ovr_inst)
        return True
    def ovr_del(m, idx, off, mask):
        t=m.ovr_ok(idx, off, len(mask))
        if t is None or t.odata is None: return False
        for i in range(len(mask)): t.omask[off+i]&=~mask[i]&0xFF; t.odata[off+i]&=~mask[i]&0xFF
        if any(t.omask): return True
        if t.attr & A_OVRSET: m.ovr_set_n-=1; m.counter(OVR_SET, m.ovr_set_n)
        t.attr&=~(A_OVR|A_OVRSET); m.ovr_inst-=1; m.counter(OVR_INST, m.ovr_inst); t.odata=t.omask=None
        return True
    def ovr_get(m, idx, off, size):
        t=m.ovr_ok(idx, off, size)
        if t is None or size > DATAMAX//2: return False, b"", b""
        return True, bytes(t.data[off:off+size]), bytes(t.omask[off:off+size]) if t.omask is not None else bytes(size)
    def ovr_set(m, idx, flag):
        t=m.get(idx)
        if t is None: return False
        if flag:
            if t.odata is None: return False
            if not t.attr & A_OVRSET: m.ovr_set_n+=1; m.counter(OVR_SET, m.ovr_set_n); t.attr|=A_OVRSET
        elif t.attr & A_OVRSET: m.ovr_set_n-=1; m.counter(OVR_SET, m.ovr_set_n); t.attr&=~A_OVRSET
        return True
    # ---- departure
    def depart(m, cl):
        for t in list(m.tags.values()):
            for e in [e for e in t.events if e.cl is cl]: t.events.remove(e)
            if not t.events: t.attr&=~A_EVENT
        cl.groups={}; cl.registered=False
        for i in sorted(m.tags):
            t=m.tags.get(i)
            if t is not None and t.attr & A_OWNED and t.owner is cl: m.delete(t)
        if cl.tag is not None: m.delete(cl.tag); cl.tag=None
    def stat(m, k): m.stats[k]=m.stats.get(k, 0)+1
