import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(8, 100), c.n(3000, 8000), weights=dict(map_add=5, map_del=1.5, map_get=1, write=14, mask=6, atomic=3, read=1, tag_add=1.5, tag_del=0.5, grp_add=0.4, grp_write=2, ev_add=0.3, lookup=0.3, ovr_add=0.2, ovr_set=0.2), attrs=(0,0,0,0,A_OWNED|A_READONLY), maxcount=24, bigfrac=0.02)
    world.campaign(c, b, c.n(3, 40), c.n(2000, 6000), weights=dict(map_add=5, map_del=1.5, map_get=1.5, write=10, mask=3, hwrite=4, hmask=2, atomic=3, read=1, tag_add=1.5, tag_del=0.5, grp_add=0.4, grp_write=2), maxcount=24, bigfrac=0.02, nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P06", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
