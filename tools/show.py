"Show the event log of a saved counterexample (plain code)."
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import instr, core, replay, world
c = json.load(open(sys.argv[1]))
if c["property"] == "C32":
    os.environ["VERIF_TRACE"] = "1"
replay.quiet()
instr.install(False)
if len(sys.argv) > 2:
    import logging
    logging.disable(0); logging.basicConfig(level=1)
Ws = []
oi = world.World.__init__
def init(self, *a, **k):
    oi(self, *a, **k); Ws.append(self)
world.World.__init__ = init
print(c["label"], c["info"], c["inputs"], c["args"])
print(json.dumps(replay.run_concrete(c["fn"], c["args"], c["inputs"]), indent=None))
for W in Ws:
    for e in W.events: print("   ", float(e[0]), e[1], *e[2:])
    print("bad", W.bad)
