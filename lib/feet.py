"""C01..C07: the humanoid feet supervisor against FeetSupervisor.tla.

 1. TLC explores the bounded model exhaustively (design invariants) and prints every transition;
    a set of call histories covering every transition is computed.
 2. TLC simulates long random histories with all setters and arbitrary step choices.
 3. The histories are executed on the real class (double and float) by feet_driver, and the
    recorded observations are validated by TLC against TraceFeet.tla."""
import collections
import json

import vp


def _key(s):
    return json.dumps(s, separators=(",", ":"), sort_keys=True)


def transition_cover(edges, inits, maxlen):
    """Histories (lists of acts) that together take every edge; each starts with an init act."""
    adj = collections.defaultdict(list)
    for s, a, t in edges:
        adj[s].append((a, t))
    todo = {s: list(range(len(v))) for s, v in adj.items()}
    left = sum(len(v) for v in todo.values())
    out = []

    def nearest(src):
        """path of (act, state) from src to the nearest state that has an untaken edge"""
        if todo.get(src):
            return []
        prev, q = {src: None}, collections.deque([src])
        while q:
            u = q.popleft()
            for a, t in adj.get(u, ()):
                if t not in prev:
                    prev[t] = (u, a)
                    if todo.get(t):
                        path = []
                        while prev[t] is not None:
                            u2, a2 = prev[t]
                            path.append((a2, t))
                            t = u2
                        return path[::-1]
                    q.append(t)
        return None

    for s0, a0 in inits:
        while True:
            cur, h = s0, [a0]
            progress = False
            while len(h) < maxlen:
                p = nearest(cur)
                if p is None or len(h) + len(p) > 2 * maxlen:
                    break
                for a, t in p:
                    h.append(a)
                    cur = t
                k = todo[cur].pop()
                a, t = adj[cur][k]
                h.append(a)
                cur = t
                left -= 1
                progress = True
            if not progress:
                break
            out.append(h)
    return out, left


def histories(ctx):
    if vp.FRACTION < 1:
        return simulate(ctx, 240)
    r = vp.tlc(ctx, "MCFeet.tla", "MCFeetThorough.cfg" if ctx.thorough else "MCFeet.cfg", workers="8")
    ctx.states += r.distinct
    ctx.transitions += r.generated
    edges = set()
    for e in r.printed("EDGE"):
        e = json.loads(e)
        edges.add((_key(e["s"]), _key(e["a"]), _key(e["t"])))
    # step positions are not part of the view: exhaustive histories keep the previewed steps
    norm = set()
    for s, a, t in edges:
        a = json.loads(a)
        if a[0] == "feet":
            a = ["keep", a[1]]
        norm.add((s, _key(a), t))
    inits = []
    for e in r.printed("INIT"):
        e = json.loads(e)
        inits.append((_key(e["s"]), e["a"]))
    inits.sort(key=lambda x: x[0])
    hs, left = transition_cover([(s, json.loads(a), t) for s, a, t in sorted(norm)], inits, 120)
    if left:
        raise vp.CheckError("transition cover incomplete: %d edges left" % left)
    ctx.extra["model_transitions_covered_on_the_implementation"] = len(norm)

    rnd = simulate(ctx, 2400 if ctx.thorough else (160 if ctx.prop == "C05" else 240))
    ctx.extra["random_histories"] = len(rnd)
    return hs + rnd


def simulate(ctx, num, cfg="SimFeet.cfg", depth=160, module="MCFeet.tla"):
    """Random histories generated by TLC from the model."""
    parts = 8
    num = max(parts, int(num * vp.FRACTION))
    ctx.sampled = True

    def sim(i):
        return vp.tlc(ctx, module, cfg[i % len(cfg)] if isinstance(cfg, list) else cfg,
                      args=["-simulate", "num=%d" % (num // parts), "-depth", str(depth + 1), "-seed",
                            str(ctx.seed * 1000 + i)])
    rnd = []
    for r in vp.parallel(sim, range(parts)):
        seen = set()
        for h in r.printed("HIST"):
            h = json.loads(h)
            k = _key(h[:-1])
            if k not in seen:
                seen.add(k)
                rnd.append(h)
        ctx.states += r.distinct
        ctx.transitions += r.generated
    return rnd


def flat(x):
    if isinstance(x, list):
        return [y for z in x for y in flat(z)]
    return [x]


def tokens(act, head):
    op = act[0]
    if op == "reset":
        t = ["reset"] + head + [act[1], act[2]]
        for p in act[3:]:
            t += [len(p)] + flat(p)
    elif op == "poly":
        t = ["poly"]
        for p in act[1:]:
            t += [len(p)] + flat(p)
    elif op == "feet":
        t = ["feet", act[1], len(act[2])] + act[2] + act[3]
    else:
        t = [op] + flat(act[1:])
    return " ".join(str(x) for x in t)


DTS = ["0.02", "0.05", "0.1", "0.025", "0.125", "0.03"]


def execute(ctx, exe, hs, tag="h"):
    script, out = ctx.path(tag + ".script"), ctx.path(tag + ".out")
    heads = []
    with open(script, "w") as f:
        for i, h in enumerate(hs):
            head = ["double" if i % 2 == 0 else "float", (i // 2) % 2, DTS[(i // 4) % len(DTS)]]
            heads.append(head)
            for a in h:
                f.write(tokens(a, head) + "\n")
    vp.run_driver(ctx, exe, script, out)
    recs = vp.read_driver(out)
    if len(recs) != len(hs):
        raise vp.CheckError("driver recorded %d of %d histories" % (len(recs), len(hs)))
    return [vp.merge(h, r, {"tol": 10 if hd[0] == "double" else 60, "h": " ".join(map(str, hd))})
            for h, r, hd in zip(hs, recs, heads)], heads


def check(ctx):
    exe = vp.build(ctx, "feet_driver.cpp")
    hs = histories(ctx)
    evs, heads = execute(ctx, exe, hs)
    bad = vp.validate(ctx, "TraceFeet.tla", "TraceFeet.cfg", evs)
    mine = [b for b in bad if b[2] in (ctx.prop, "ALL")]
    ctx.extra["events"] = sum(len(e) for e in evs)
    ctx.extra["crashes"] = sum(1 for b in bad if b[2] == "ALL")
    ctx.samples.append({"history": [tokens(a, heads[-1]) for a in hs[-1]][:25],
                        "last_observation": evs[-1][-1]["o"]})
    if mine:
        # confirm on a second, independent execution before reporting
        evs2, _ = execute(ctx, exe, hs, "again")
        bad2 = {b[0] for b in vp.validate(ctx, "TraceFeet.tla", "TraceFeet.cfg", evs2) if b[2] in (ctx.prop, "ALL")}
        seen = set()
        for b in mine:
            if b[0] not in bad2:
                continue
            i, k, _, what = b
            if what in seen and len(ctx.violations) > 3:
                continue
            seen.add(what)
            text = "history %d (%s), event %d: %s\n" % (i, " ".join(map(str, heads[i])), k, what)
            text += "\n".join(tokens(a, heads[i]) for a in hs[i][:k + 1])
            text += "\nobserved: " + json.dumps(evs[i][k]["o"])
            ctx.violations.append(("%s (history %d, call %d)" % (what, i, k), text))
    ctx.assumptions += [
        "periods are multiples of the sampling period, the horizon covers a step, feedback periods divide the time left to the next sample",
        "public calls are made between solve cycles, as the walking controller does",
        "lengths are compared in fixed point (0.1 mm for polygons and steps, 0.1 mm/0.6 mm (float) for feet)"]
    return vp.finish(ctx, "exhaustive TLC exploration of the bounded walking-schedule model with every transition "
                          "replayed on HumanoidFeetSupervisor, plus TLC-simulated histories; every recorded event validated "
                          "by TLC against FeetSupervisor.tla")
