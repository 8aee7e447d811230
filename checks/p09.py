import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), weights=dict(qwrite=6, qread=5, write=2, read=2, mask=1, tag_add=2, tag_del=0.4, ev_add=0.6, ev_del=0.2, lookup=0.5, atomic=0.2, ovr_add=0.2, map_add=0.2, cdt=0.1), queue=0.7, names=14, invalid=0.1)
    world.campaign(c, b, c.n(3, 30), c.n(2000, 6000), weights=dict(qwrite=6, qread=5, write=1, read=1, tag_add=2, tag_del=0.4, ev_add=0.6, ev_del=0.2, lookup=0.5, cdt=0.3, reconnect=0.05), queue=0.7, names=14, invalid=0.1, nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P09", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
