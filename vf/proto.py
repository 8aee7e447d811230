"""Raw protocol client and constants (independent of the client library)."""
import socket, struct, select, time, os
from .core import Died

BOOL=0x10; BYTE=0x03; SINT=0x13; CHAR=0x23; WORD=0x04; INT=0x14; UINT=0x24; DWORD=0x05; DINT=0x15; UDINT=0x25; REAL=0x35
LWORD=0x06; LINT=0x16; ULINT=0x26; TIME=0x36; LREAL=0x46
CUSTOM=0x80000000; QUEUE=0x40000000
BASE=[BOOL,BYTE,SINT,CHAR,WORD,INT,UINT,DWORD,DINT,UDINT,REAL,LWORD,LINT,ULINT,TIME,LREAL]
NAMES={BOOL:"BOOL",BYTE:"BYTE",SINT:"SINT",CHAR:"CHAR",WORD:"WORD",INT:"INT",UINT:"UINT",DWORD:"DWORD",DINT:"DINT",UDINT:"UDINT",REAL:"REAL",LWORD:"LWORD",LINT:"LINT",ULINT:"ULINT",TIME:"TIME",LREAL:"LREAL"}
FMT={BYTE:"B",SINT:"b",CHAR:"b",WORD:"H",INT:"h",UINT:"H",DWORD:"I",DINT:"i",UDINT:"I",REAL:"f",LWORD:"Q",LINT:"q",ULINT:"Q",TIME:"q",LREAL:"d"}
def tsize(t): return (1 << (t & 0xF)) // 8
(MOD_REG,TAG_ADD,TAG_DEL,TAG_GET,TAG_LIST,TAG_READ,TAG_WRITE,TAG_MWRITE,EVNT_ADD,EVNT_DEL,EVNT_GET,EVNT_OPT,CDT_CREATE,CDT_GET,
 MAP_ADD,MAP_DEL,MAP_GET,GRP_ADD,GRP_DEL,GRP_READ,GRP_WRITE,GRP_MWRITE,ATOMIC,ADD_OVRD,DEL_OVRD,GET_OVRD,SET_OVRD)=range(1,28)
RESP=0x01000000; ERRF=0x02000000; EVENT=0x80000000
A_READONLY=1; A_VIRTUAL=2; A_RETAIN=4; A_OVRSET=8; A_SPECIAL=0x10; A_OWNED=0x20; A_MAP=0x1000; A_EVENT=0x2000; A_OVR=0x4000
E_WRITE=2;E_CHANGE=3;E_SET=4;E_RESET=5;E_EQUAL=6;E_GREATER=7;E_LESS=8;E_DEADBAND=9;E_DELETED=10
ERR=dict(GENERIC=-1,NO_SOCKET=-2,BIG=-3,ARG=-4,NOTFOUND=-5,TAG_BAD=-8,TAG_DUPL=-9,DUPL=-12,ILLEGAL=-15,EMPTY=-20,BADTYPE=-21,AUTH=-23,DELETED=-26,READONLY=-27,WRITEONLY=-28,NOTIMPL=-29)
MSGMAX=4096; DATAMAX=4088

class H:
    """A tag handle."""
    __slots__=("idx","byte","bit","count","size","type")
    def __init__(s,idx,byte=0,bit=0,count=1,size=1,type=0): s.idx=idx;s.byte=byte;s.bit=bit;s.count=count;s.size=size;s.type=type
    def s(s_): return "%d:%u:%u:%u:%u:%u"%(s_.idx,s_.byte,s_.bit,s_.count,s_.size,s_.type)
    def p21(s): return struct.pack("<iIBIII",s.idx,s.byte,s.bit,s.count,s.size,s.type)
    @staticmethod
    def parse(t):
        a=[int(x) for x in t.split(":")]; return H(a[0],a[1],a[2],a[3],a[4],a[5])
    def tup(s): return (s.idx,s.byte,s.bit,s.count,s.size,s.type)
    def __repr__(s): return "H("+s.s()+")"

class Raw:
    """One connection; requests are synchronous, event messages are queued in .events as (type, idx, id, data)."""
    def __init__(self, srv, name=None, tcp=False, timeout=20):
        self.tcp=tcp; self.srv=srv; self.buf=b""; self.events=[]; self.timeout=timeout; self.strays=[]
        if tcp:
            self.s=socket.socket(); self.s.connect(("127.0.0.1",srv.port)); self.s.setsockopt(socket.IPPROTO_TCP,socket.TCP_NODELAY,1)
        else:
            self.s=socket.socket(socket.AF_UNIX)
            t0=time.time()
            while True:
                try: self.s.connect(srv.sock); break
                except (BlockingIOError,ConnectionRefusedError,FileNotFoundError):
                    if not srv.alive() or time.time()-t0>timeout: srv.check(); raise Died("cannot connect",{"key":"noconnect","text":""})
                    time.sleep(0.01)
        self.s.settimeout(timeout)
        if name is not None: self.reg=self.register(name)
    def register(self,name,flags=1):
        return self.req(MOD_REG, struct.pack(">II",1000,flags)+name.encode("latin1")+b"\0")
    def send(self,b):
        try: self.s.sendall(b)
        except OSError as e: self._dead("send: %s"%e)
    def frame(self,cmd,payload): return struct.pack(">II",len(payload)+8,cmd)+payload
    def _dead(self,why):
        time.sleep(0.05)
        if self.srv is not None:
            self.srv.wait_dead(0.5) if self.srv.p is not None else None
            self.srv.check()
        raise Died("server stopped answering (%s)"%why,{"key":"noanswer","text":why})
    def _fill(self,timeout=None):
        self.s.settimeout(self.timeout if timeout is None else timeout)
        try:
            d=self.s.recv(65536)
            if self.tcp: self.s.setsockopt(socket.IPPROTO_TCP,socket.TCP_QUICKACK,1)
        except socket.timeout: return None
        except OSError as e: self._dead(str(e))
        if d==b"": self._dead("connection closed")
        self.buf+=d; return len(d)
    def pop(self):
        """Next complete message in the buffer: (type,payload) or None."""
        if len(self.buf)<8: return None
        n,t=struct.unpack(">II",self.buf[:8])
        if n>DATAMAX: raise Died("server sent a frame of %d bytes"%n,{"key":"badframe","text":""})
        if len(self.buf)<8+n: return None
        p=self.buf[8:8+n]; self.buf=self.buf[8+n:]
        return t,p
    def _isev(self,m):
        t,p=m
        if t&EVENT and len(p)>=8:
            idx,i=struct.unpack(">ii",p[:8]); self.events.append((t&0xFFFFFF,idx,i,p[8:])); return True
        return False
    def recv(self,timeout=None):
        """Next non-event message or None on timeout."""
        end=time.time()+(self.timeout if timeout is None else timeout)
        while True:
            m=self.pop()
            if m is None:
                left=end-time.time()
                if left<=0: return None
                if self._fill(left) is None: return None
                continue
            if not self._isev(m): return m
    def req(self,cmd,payload=b""):
        """-> (0, payload) or (errcode, b'')"""
        self.send(self.frame(cmd,payload))
        m=self.recv()
        if m is None: self._dead("no reply to command %d within %ss"%(cmd,self.timeout))
        t,p=m
        if t==cmd|ERRF:
            if len(p)<4: raise Died("short error reply",{"key":"shorterr","text":""})
            return struct.unpack("<i",p[:4])[0],b""
        if t==cmd|RESP: return 0,p
        raise Died("reply 0x%x to command %d"%(t,cmd),{"key":"wrongreply","text":""})
    def drain(self,wait=0.0):
        """Collect whatever events are on the socket."""
        while True:
            r,_,_=select.select([self.s],[],[],wait)
            if not r: break
            if self._fill(1) is None: break
        while True:
            m=self.pop()
            if m is None: break
            if not self._isev(m): self.strays.append(m)
        e=self.events; self.events=[]; return e
    def close(self):
        try: self.s.close()
        except OSError: pass
    def rst(self):
        try: self.s.setsockopt(socket.SOL_SOCKET,socket.SO_LINGER,struct.pack("ii",1,0)); self.s.close()
        except OSError: pass
    # --- requests
    def tag_add(self,name,type,count,attr=0):
        if isinstance(name,str): name=name.encode("latin1")
        r,p=self.req(TAG_ADD,struct.pack("<III",type&0xFFFFFFFF,count&0xFFFFFFFF,attr)+name+b"\0")
        return r if r else struct.unpack("<i",p[:4])[0]
    def tag_del(self,idx): return self.req(TAG_DEL,struct.pack("<i",idx))[0]
    def _tag(self,r,p):
        if r: return r,None
        i,t,c,a=struct.unpack("<iIIH",p[:14]); return 0,(i,t,c,a,p[14:].split(b"\0")[0].decode("latin1"))
    def by_name(self,name): return self._tag(*self.req(TAG_GET,b"\x01"+name.encode("latin1")+b"\0"))
    def by_index(self,idx): return self._tag(*self.req(TAG_GET,b"\x02"+struct.pack("<i",idx)))
    def read(self,idx,off,size): return self.req(TAG_READ,struct.pack("<iII",idx,off&0xFFFFFFFF,size&0xFFFFFFFF))
    def write(self,idx,off,data): return self.req(TAG_WRITE,struct.pack("<iI",idx,off&0xFFFFFFFF)+data)[0]
    def mask(self,idx,off,data,mask): return self.req(TAG_MWRITE,struct.pack("<iI",idx,off&0xFFFFFFFF)+data+mask)[0]
    def ev_add(self,h,etype,data=b""):
        r,p=self.req(EVNT_ADD,struct.pack("<iIIIiIB",h.idx,h.byte,h.count,h.type,etype,h.size,h.bit)+data)
        return r if r else struct.unpack("<i",p[:4])[0]
    def ev_del(self,idx,id): return self.req(EVNT_DEL,struct.pack("<ii",idx,id))[0]
    def ev_opt(self,idx,id,o): return self.req(EVNT_OPT,struct.pack("<iiI",idx,id,o))[0]
    def cdt(self,s):
        r,p=self.req(CDT_CREATE,s.encode("latin1")+b"\0")
        return (r,0) if r else (0,struct.unpack("<I",p[:4])[0])
    def cdt_get(self,name=None,type=None):
        r,p=self.req(CDT_GET,b"\x01"+name.encode("latin1")+b"\0" if name is not None else b"\x02"+struct.pack("<I",type))
        return (r,0,"") if r else (0,struct.unpack("<I",p[:4])[0],p[4:].split(b"\0")[0].decode("latin1"))
    def map_add(self,a,b):
        r,p=self.req(MAP_ADD,a.p21()+b.p21()+b"\0"*6)
        return r if r else struct.unpack("<i",p[:4])[0]
    def map_del(self,idx,id): return self.req(MAP_DEL,struct.pack("<ii",idx,id))[0]
    def map_get(self,idx,id):
        r,p=self.req(MAP_GET,struct.pack("<ii",idx,id))
        if r: return r,None,None
        a=struct.unpack("<iIBIII",p[:21]); b=struct.unpack("<iIBIII",p[21:42]); return 0,H(*a),H(*b)
    def grp_add(self,hs):
        r,p=self.req(GRP_ADD,bytes([len(hs)&0xFF,0])+b"".join(h.p21() for h in hs))
        return r if r else struct.unpack("<i",p[:4])[0]
    def grp_del(self,i): return self.req(GRP_DEL,struct.pack("<I",i&0xFFFFFFFF))[0]
    def grp_read(self,i): return self.req(GRP_READ,struct.pack("<I",i&0xFFFFFFFF))
    def grp_write(self,i,d): return self.req(GRP_WRITE,struct.pack("<I",i&0xFFFFFFFF)+d)[0]
    def atomic(self,h,op,data=b""):
        return self.req(ATOMIC,struct.pack("<iIIIB",h.idx,h.byte,h.count,h.type,h.bit)+struct.pack("<I",op)+data)[0]
    def ovr_add(self,idx,off,data,mask): return self.req(ADD_OVRD,struct.pack("<iII",idx,off,0)+data+mask)[0]
    def ovr_del(self,idx,off,mask): return self.req(DEL_OVRD,struct.pack("<iI",idx,off)+mask)[0]
    def ovr_get(self,idx,off,size):
        r,p=self.req(GET_OVRD,struct.pack("<iII",idx,off,size)); return r,p[:size],p[size:]
    def ovr_set(self,idx,f): return self.req(SET_OVRD,struct.pack("<iI",idx,f)[:5])[0]
