import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, world
from vf.proto import *
def body(c):
    b=core.build("asan", ["tagserver", "dax", "daxlog"])
    world.campaign(c, b, c.n(6, 60), c.n(1500, 5000), nclients=5, weights=dict(reconnect=3, tag_add=4, tag_del=0.5, write=5, mask=1, read=2, ev_add=4, ev_del=0.5, grp_add=1.5, grp_read=1, grp_write=1, ovr_add=0.2, map_add=0.5, lookup=1), attrs=(0,A_OWNED,A_OWNED|A_READONLY), modfrac=0.1, names=50)
core.main("P11", "one evaluation per request that was compared with the model; distinct ones differ in operation, type, alignment, size or outcome", body)
