"""Independent reference for compound datatype layout and tag expressions."""
from .proto import *

class Err(Exception): pass

class Types:
    """name -> (type id, [(member, type, count)])"""
    def __init__(s): s.defs={}; s.byname={}
    def add(s, tid, name, mem): s.defs[tid]=(name, list(mem)); s.byname[name]=tid
    def tname(s, t): return NAMES[t] if t in NAMES else s.defs[t][0]
    def size(s, t):
        t&=~QUEUE
        if not t & CUSTOM: return max(1, tsize(t)) if t != BOOL else 1
        return (s.end(t)+7)//8
    def bits(s, t): return 1 if t == BOOL else s.size(t)*8
    def members(s, t):
        """[(name, type, count, bit position)] and the end position"""
        pos=0; out=[]
        for n, mt, c in s.defs[t][1]:
            if mt != BOOL: pos=(pos+7)//8*8
            out.append((n, mt, c, pos)); pos+=s.bits(mt)*c
        return out, pos
    def end(s, t): return s.members(t)[1]
    def text(s, name, mem): return name+"".join(":%s,%s,%d" % (a, s.tname(t), n) for a, t, n in mem)
    def depth(s, t): return 0 if not t & CUSTOM else 1+max([s.depth(m[1]) for m in s.defs[t][1]])

def mk(types, idx, t, pos, count):
    size=(pos % 8+count-1)//8+1 if t == BOOL else types.size(t)*count
    return (idx, pos//8, pos % 8, count, size, t)

def resolve(types, tags, expr, count):
    """tags: name -> (idx, type, count).  Returns the handle tuple, raises Err if it has none.
    Returns None where the manual leaves the meaning open."""
    if count < 0: raise Err("count")
    parts=expr.split(".")
    def sub(p):
        if "[" not in p: return p, None
        n, r=p.split("[", 1)
        if not r.endswith("]") or not r[:-1] or not all(c in "0123456789" for c in r[:-1]): raise Err("subscript")
        return n, int(r[:-1])
    name, ix=sub(parts[0])
    if name not in tags: raise Err("no tag")
    idx, t, items=tags[name]
    pos=0
    for k, p in enumerate(parts[1:]):
        if ix is not None and ix >= items: raise Err("range")
        open_=ix is None and items > 1
        if p[:1] and p[0] in "0123456789":
            if len(parts)-1 != k+1 or not all(c in "0123456789" for c in p): raise Err("bit")
            if open_: raise Err("bit of array")
            if t in (BOOL, TIME, REAL, LREAL) or t & CUSTOM: raise Err("bits of that type")
            pos+=(ix or 0)*types.bits(t); c=count or 1
            if int(p)+c > types.bits(t): raise Err("bit range")
            return mk(types, idx, BOOL, pos+int(p), c)
        if not t & CUSTOM: raise Err("no members")
        if open_ and k == 0: raise Err("ambiguous")
        pos+=(ix or 0)*types.bits(t)
        n, ix2=sub(p)
        for mn, mt, c, mp in types.members(t)[0]:
            if mn == n: break
        else: raise Err("no member")
        if open_: return None
        pos+=mp; t=mt; items=c; ix=ix2
    if ix is not None:
        c=count or 1
        if ix+c > items: raise Err("range")
        pos+=ix*types.bits(t)
    else:
        c=count or items
        if c > items: raise Err("range")
    return mk(types, idx, t, pos, c)

def randtype(r, types, name, maxsize=1500, boolfrac=0.35, custom=0.25):
    """a random definition"""
    mem=[]; n=r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    for i in range(n):
        k=r.random(); cand=[t for t in types.defs if types.depth(t) < 6 and types.size(t) < maxsize//4]
        if k < custom and cand: ty=r.choice(cand)
        elif k < custom+boolfrac: ty=BOOL
        else: ty=r.choice(BASE)
        c=r.choice([1, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 31])
        if ty & CUSTOM: c=r.choice([1, 1, 2, 3, 4])
        mn=r.choice(["m%d", "Mem_%d", "x%d", "_b%d", "Flag%d", "long_member_name_of_32_characters%d"[:31]+"%d"])
        mn=(mn % i)[:32] if mn.count("%d") == 1 else "m%d" % i
        if mn in [m[0] for m in mem]: mn="m%d" % i
        mem.append((mn, ty, c))
    t=Types(); t.defs=dict(types.defs); t.defs[-1 & 0xFFFFFFFF]=(name, mem)
    while len(mem) > 1 and (types_size(types, mem)+7)//8 > maxsize: mem.pop()
    return mem
def types_size(types, mem):
    pos=0
    for n, mt, c in mem:
        if mt != BOOL: pos=(pos+7)//8*8
        pos+=types.bits(mt)*c
    return pos
