import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), weights=dict(ovr_add=5, ovr_del=3, ovr_get=3, ovr_set=4, write=6, mask=3, read=4, tag_add=2, tag_del=0.7, atomic=1, map_add=0.2, grp_add=0.2, grp_read=1, grp_write=0.5, ev_add=0.5), maxcount=24)
    world.campaign(c, b, c.n(3, 40), c.n(2000, 6000), weights=dict(ovr_add=3, ovr_del=2, ovr_get=3, ovr_set=4, hovr=12, write=4, mask=2, read=3, hread=3, hwrite=3, tag_add=2, tag_del=0.7, atomic=1), maxcount=24, nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P08", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
