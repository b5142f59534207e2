"""C21: the prediction models against Dynamics.tla."""
import json

import feet
import num
import vp


def hists(ctx):
    r = vp.tlc(ctx, "MCDynamics.tla", "MCDynamics.cfg", workers="8", timeout=600)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    edges, inits = {}, []
    for e in r.printed("EDGE"):
        e = json.loads(e)
        edges[(feet._key(e["s"]), feet._key(e["a"]), feet._key(e["t"]))] = 1
    for e in r.printed("INIT"):
        e = json.loads(e)
        inits.append((feet._key(e["s"]), e["a"]))
    inits.sort(key=lambda x: x[0])
    hs, left = feet.transition_cover([(s, json.loads(a), t) for s, a, t in sorted(edges)], inits, 60)
    if left:
        raise vp.CheckError("transition cover incomplete: %d edges left" % left)
    ctx.extra["model_transitions_covered_on_the_implementation"] = len(edges)
    n = 4000 if ctx.thorough else 240

    def sim(i):
        return vp.tlc(ctx, "MCDynamics.tla", "SimDynamics.cfg",
                      args=["-simulate", "num=%d" % (n // 4), "-depth", "41", "-seed", str(ctx.seed * 1000 + i)])
    rnd = []
    for r in vp.parallel(sim, range(4)):
        ctx.states += r.distinct
        ctx.transitions += r.generated
        seen = set()
        for h in r.printed("HIST"):
            if h not in seen:
                seen.add(h)
                rnd.append(json.loads(h))
    return hs + rnd[:n]


def check(ctx):
    exe = vp.build(ctx, "dyn_driver.cpp")
    cases = []
    for i, h in enumerate(hists(ctx)):
        t = ["double", "float"][i % 2]
        rel = 1 if t == "double" else 300
        lines = []
        for a in h:
            toks = [str(x) for x in a]
            if a[0] == "reset":
                toks.insert(1, t)
            lines.append((" ".join(toks), {"a": a[1:], "rel": rel}))
        cases.append(lines)
    num.decide(ctx, exe, "TraceDyn.tla", cases)
    return vp.finish(ctx, "every transition of the bounded parameter graph explored by TLC (and random setter histories) executed "
                          "on the real models; every column of S and U compared by TLC with the roll-out of a unit vector")
