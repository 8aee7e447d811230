import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(8, 100), c.n(4000, 8000), weights=dict(ev_add=4, ev_del=1.5, ev_opt=1, write=14, mask=6, atomic=3, read=1, tag_add=1.5, tag_del=0.5, grp_add=0.3, grp_write=1, map_add=0.3, lookup=0.3, qwrite=0.4, qread=0.4), queue=0.06, maxcount=20, bigfrac=0.02)
core.main("P04", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
