#!/usr/bin/env python3
"""Write lcx/checks/c05_public.txt: the public functions and methods (per concrete class) of the documented package, run once on the original tree."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lcx.prog import Program  # noqa: E402

P = Program()
names = set()
for m in P.mods.values():
    names |= {f"{m.name}.{f.name}" for f in m.funcs.values() if not f.name.startswith("_")}
for c in P.classes.values():
    names |= {f"{c.qual}.{n}" for k in c.mro() for n in k.methods if not n.startswith("_") or (n.startswith("__") and n.endswith("__"))}
with open(os.path.join(ROOT, "lcx/checks/c05_public.txt"), "w") as fh:
    fh.write("\n".join(sorted(names)) + "\n")
