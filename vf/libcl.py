"""A client that goes through the real client library, with the interface of proto.Raw.

Requests the library cannot express (events of a library client, masks that are not a range of bits, group
handles that never existed, sizes no caller could hold in memory) go over a shadow raw connection."""
import os
from . import core
from .core import Violation, hx, uhx
from .proto import *

class _S:
    def sendall(s, b): pass
    def shutdown(s, how): pass

class LibCl:
    def __init__(l, srv, base, exe, tcp=False, typename=None, cached=False, args=()):
        l.srv=srv; l.base=base; l.exe=exe; l.tcp=tcp; l.s=_S(); l.strays=[]; l.typename=typename or (lambda n: None)
        l.shadow=None; l.d=None; l.gids={}; l.cached=cached; l.args=args; l.types={v: k for k, v in NAMES.items()}
    nadd=0
    def register(l, name):
        l.d=core.Drv(l.exe, l.base, l.srv, name[:32], tcp=l.tcp, args=l.args)
        if l.d.init != ["0"]: return int(l.d.init[0]), b""
        r=l.d.connect()
        if r == 0: l.shadow=Raw(l.srv, None)
        return r, b""
    def drain(l, wait=0.0): return []
    def close(l):
        if l.d is not None:
            d, l.d=l.d, None
            try: d.cmd("disconnect")
            finally: d.close()
        if l.shadow: l.shadow.close(); l.shadow=None
    def rst(l):
        if l.d is not None: l.d.kill(); l.d=None
        if l.shadow: l.shadow.close(); l.shadow=None
    def bad(l, key, msg): raise Violation(key, msg)
    # --- requests
    def tag_add(l, name, type, count, attr=0):
        if count >= 2**31: count-=2**32
        l.nadd+=1
        if l.nadd % 7 == 0:         # a caller that does not want the handle
            r, h=l.d.cmd("tag_add", hx(name), type, count, attr, "null")
            return int(r) if int(r) else l.shadow.by_name(name)[1][0]
        r, h=l.d.cmd("tag_add", hx(name), type, count, attr)
        if int(r): return int(r)
        h=H.parse(h)
        n=(count-1)//8+1 if type == BOOL else count*tsize(type) if not type & (CUSTOM|QUEUE) else h.size
        if h.size != n: l.bad("lib:add:size", "dax_tag_add of %r type 0x%x count %d returned the handle %r" % (name, type, count, h))
        if (h.byte, h.bit, h.count, h.type) != (0, 0, count, type): l.bad("lib:add:handle", "dax_tag_add of %r type 0x%x count %d returned the handle %r" % (name, type, count, h))
        return h.idx
    def tag_del(l, idx): return l.d.i("tag_del", idx)
    def _tag(l, r):
        if int(r[0]): return int(r[0]), None
        return 0, (int(r[1]), int(r[2]), int(r[3]), int(r[4]), uhx(r[5]).decode("latin1"))
    def by_name(l, name):
        if not l.cached or "\0" in name: return l.shadow.by_name(name)
        return l._tag(l.d.cmd("byname", hx(name)))
    def by_index(l, idx):
        if not l.cached: return l.shadow.by_index(idx)
        return l._tag(l.d.cmd("byindex", idx))
    def read(l, idx, off, size):
        if size > 200000: return l.shadow.read(idx, off, size)
        r, d=l.d.cmd("read", idx, off, size); r=int(r); d=uhx(d)
        return (r, b"") if r else (0, d)
    def write(l, idx, off, data): return l.d.i("write", idx, off, hx(data))
    def mask(l, idx, off, data, mask): return l.d.i("mask", idx, off, hx(data), hx(mask))
    def cdt(l, s):
        name, *mem=s.split(":"); a=["cdt", hx(name), len(mem)]
        for m in mem:
            n, t, c=m.split(","); ty=l.types.get(t)
            if ty is None: ty=l.typename(t)
            a+=[hx(n), ty, c]
        l.nadd+=1; null=l.nadd % 5 == 0; r=l.d.cmd(*a, *["null"]*null)
        if any(int(x) for x in r[:-1]): return int([x for x in r[:-1] if int(x)][0]), 0
        return 0, int(r[-1]) if not null else l.shadow.cdt_get(name=name)[1]
    def cdt_get(l, name=None, type=None): return l.shadow.cdt_get(name, type)
    def map_add(l, a, b):
        r, id=l.d.cmd("map_add", a.s(), b.s())
        if int(r): return int(r)
        i, d=(int(x) for x in id.split(":"))
        if i != a.idx: l.bad("lib:map:id", "dax_map_add on tag %d returned an identifier of tag %d" % (a.idx, i))
        return d
    def map_del(l, idx, id): return l.d.i("map_del", "%d:%d" % (idx, id))
    def map_get(l, idx, id):
        r, a, b=l.d.cmd("map_get", "%d:%d" % (idx, id))
        return (int(r), None, None) if int(r) else (0, H.parse(a), H.parse(b))
    def grp_add(l, hs):
        if any(h.size < 0 for h in hs): return l.shadow.grp_add(hs)
        r, slot, size=(int(x) for x in l.d.cmd("grp_add", len(hs), *[h.s() for h in hs]))
        if r: return r
        if size != sum(h.size for h in hs): l.bad("lib:group:size", "a group of %d bytes reports a size of %d" % (sum(h.size for h in hs), size))
        l.gids[slot]=size; return slot
    def grp_del(l, i):
        if i not in l.gids: return l.shadow.grp_del(i)
        r=l.d.i("grp_del", i)
        if r == 0: del l.gids[i]
        return r
    def grp_read(l, i):
        if i not in l.gids: return l.shadow.grp_read(i)
        r, d=l.d.cmd("grp_read", i)
        return (int(r), b"") if int(r) else (0, uhx(d))
    def grp_write(l, i, d):
        if i not in l.gids or len(d) != l.gids[i]: return l.shadow.grp_write(i, d)
        return l.d.i("grp_write", i, hx(d))
    def atomic(l, h, op, data=b""):
        if h.size != len(data) or h.size > 4000: return l.shadow.atomic(h, op, data)
        if h.type & CUSTOM: 
            r=l.d.i("atomic", h.s(), op, hx(data)); s=l.shadow.atomic(h, op, data); return r if r >= 0 else s
        return l.d.i("atomic", h.s(), op, hx(data))
    def ovr_add(l, idx, off, data, mask):
        if data and mask == b"\xff"*len(data): return l.d.i("ovr_add", H(idx, off, 0, len(data), len(data), BYTE).s(), hx(data))
        return l.shadow.ovr_add(idx, off, data, mask)
    def ovr_del(l, idx, off, mask):
        if mask and mask == b"\xff"*len(mask): return l.d.i("ovr_del", H(idx, off, 0, len(mask), len(mask), BYTE).s())
        return l.shadow.ovr_del(idx, off, mask)
    def ovr_get(l, idx, off, size):
        if size > 200000 or size < 0: return l.shadow.ovr_get(idx, off, size)
        r, d, k=l.d.cmd("ovr_get", H(idx, off, 0, size, size, BYTE).s())
        return (int(r), b"", b"") if int(r) else (0, uhx(d), uhx(k))
    def ovr_set(l, idx, f): return l.d.i("ovr_set" if f else "ovr_clr", H(idx, 0, 0, 1, 1, BYTE).s())
    # --- whole-handle transfers
    def hread(l, h):
        r, d=l.d.cmd("tread", h.s())
        return (int(r), b"") if int(r) else (0, uhx(d))
    def hwrite(l, h, data): return l.d.i("twrite", h.s(), hx(data))
    def hmask(l, h, data, mask): return l.d.i("tmask", h.s(), hx(data), hx(mask))
    def hovr_add(l, h, data): return l.d.i("ovr_add", h.s(), hx(data))
    def hovr_del(l, h): return l.d.i("ovr_del", h.s())
    def hovr_get(l, h):
        r, d, k=l.d.cmd("ovr_get", h.s())
        return (int(r), b"", b"") if int(r) else (0, uhx(d), uhx(k))
