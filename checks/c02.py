"""C02 the operation queue: every transition of OpQueue.tla is replayed into the real queue, plus long random walks."""
from vlib import Graph


def run(ctx):
    h = ctx.build("h-pure")
    ctx.tlc("OpQueue")
    edges = ctx.tlc("OpQueue", cfg="OpQueueGen.cfg").emits
    init = {"req": [], "run": [], "last": 0, "asked": 0, "served": 0}
    g = Graph(edges, [init])
    paths = g.cover(max_len=60) + g.walks(ctx.rng, 20000 if ctx.thorough else 2000, 40)
    cases, exp = [], []
    for p in paths:
        cases.append({"op": "opq", "acts": [s["act"] for s in p["steps"]]})
        exp.append({"obs": [{"got": s["act"]["got"] if s["act"]["n"] == "start" else None, "req": s["state"]["req"] != [],
                             "run": s["state"]["run"] != [], "last": s["state"]["last"]} for s in p["steps"]]})
    got = ctx.run_bin(h, cases, shards=4)
    ctx.compare(cases, exp, got, "queue history")
    ctx.sample({"acts": cases[0]["acts"], "obs": got[0]})
    ctx.extra["edges_covered"] = g.n_edges
