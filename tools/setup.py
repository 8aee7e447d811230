#!/usr/bin/env python3
"""Warm the build directories; every check rebuilds what it needs from /repo by itself."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
for f in ("asan", "plain"):
    core.build(f, ["tagserver", "dax", "daxlog"])
core.build("asan", ["master", "daxlua_library", "daxlua_module", "modbus_module", "histlog_module", "dhl_file", "dhl_sqlite", "mqtt_module", "daxc"])
print("ok")
