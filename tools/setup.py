#!/usr/bin/env python3
"""Builds every variant and driver of the checks, so that the first check does
not pay for it."""
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(TOP, "lib"))
sys.dont_write_bytecode = True
from build import JAVA, build, faults, preload  # noqa: E402

folder = os.path.join(TOP, "drivers")
drivers = sorted(n[:-2] for n in os.listdir(folder) if n.endswith(".c")) if os.path.isdir(folder) else []
others = {"pool": "mpool"}
drivers.remove("faults")
drivers.remove("redirect")
drivers.remove("embed")
print(faults())
print(preload("redirect"))
print(build("asan", ("server", "modules"), [d for d in drivers if d not in others]))
print(build("select", ("server",)))
print(build("prefork", ("server",)))
print(build("prefork_select", ("server",)))
print(build("tsan", (), ["threads"]))
for driver, variant in others.items():
    print(build(variant, (), [driver]))
if JAVA:
    print(build("embed", ("modules",), ["embed"]))
    print(build("embed_select", ("modules",), ["embed"]))
