import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), weights=dict(atomic=14, write=4, mask=1, read=2, ev_add=0.5, ev_del=0.3, map_add=0.3, cdt=0.1), attrs=(0,0,0,A_OWNED|A_READONLY))
    world.campaign(c, b, c.n(3, 40), c.n(2000, 6000), weights=dict(atomic=14, write=4, mask=1, hwrite=3, hread=3, ev_add=0.5, map_add=0.3, cdt=0.1), attrs=(0,0,0,A_OWNED|A_READONLY), nclients=1, libs=2, exe=core.build_harness("asan", "daxdrv.c"))
core.main("P03", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
