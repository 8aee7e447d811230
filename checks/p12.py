import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(6, 80), c.n(3000, 8000), nclients=4, weights=dict(write=8, mask=6, atomic=5, map_add=2, map_del=0.5, grp_add=2, grp_write=5, grp_del=0.5, tag_add=3, tag_del=1, ev_add=0.3, reconnect=0.1, read=1), attrs=(0,A_OWNED,A_OWNED|A_READONLY,A_READONLY), modfrac=0.25)
core.main("P12", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
