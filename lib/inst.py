"""C27: two controllers in one process, their calls interleaved.  The specification of two controllers is
the product of two independent copies, so each one's part of the recorded history is judged by the
trace specification of a single controller."""
import json

import num
import traj
import vp
import wg
import zeb


def merged(r, a, b):
    """a and b in a random interleaving; (line, event fields, index of the object)"""
    res, i, j = [], 0, 0
    while i < len(a) or j < len(b):
        # runs of calls of one object, and single calls in between
        n = r.choice([1, 1, 1, 2, 5])
        for _ in range(n):
            if j == len(b) or (i < len(a) and r.randint(0, 1)):
                res.append((a[i][0], a[i][1], 0))
                i += 1
            else:
                res.append(("& " + b[j][0], b[j][1], 1))
                j += 1
            if i == len(a) and j == len(b):
                break
        if res[0][2] == 1:      # the first call creates the first object
            res, i, j = [], 0, 0
    return res


def run(ctx, exe, hs, tag):
    """the recorded events of both objects of every history: 2 * len(hs) histories"""
    script, out = ctx.path(tag + ".script"), ctx.path(tag + ".out")
    with open(script, "w") as f:
        for h in hs:
            for line, _, _ in h:
                f.write(line + "\n")
    vp.run_driver(ctx, exe, script, out, timeout=800)
    # the driver's events: a history begins with its first object's reset
    recs, n = [], 0
    evs = [json.loads(x) for x in open(out)]
    k = 0
    for h in hs:
        parts = ([], [])
        for line, fields, which in h:
            o = evs[k]
            k += 1
            crash = o["op"] == "crash"
            op = line.split(" ")[which]
            if not crash and o["op"] != op:
                raise vp.CheckError("driver event %s for call %s" % (o["op"], line))
            e = dict(fields)
            e.update(op=op, crash=crash, o=o)
            parts[which].append(e)
            if crash:
                break
        recs += [parts[0], parts[1]]
    if k != len(evs):
        raise vp.CheckError("driver recorded %d of %d events" % (k, len(evs)))
    return recs


def judge(ctx, module, recs):
    """{index of a history: [(object, call, what)]}"""
    live = [i for i, r in enumerate(recs) if r]
    res = {}
    for i, k, p, what in vp.validate(ctx, module, module.replace(".tla", ".cfg"), [recs[i] for i in live]):
        if p in (ctx.prop, "ALL"):
            res.setdefault(live[i] // 2, []).append((live[i] % 2, k, what))
    return res


def pairs(ctx, driver, module, cases):
    exe = vp.build(ctx, driver)
    cases = [c for c in cases if len(c) > 3]
    by = {t: [c for c in cases if c[0][0].split()[1] == t] for t in ("double", "float")}
    hs = []
    for t in by:
        l = by[t]
        hs += [(l[i], l[i + 1]) for i in range(0, len(l) - 1, 2)]
        # the second object destroyed and created anew while the first one lives
        hs += [(l[i], l[i + 1][:len(l[i + 1]) // 2] + l[i + 2]) for i in range(0, min(8, len(l) - 2), 2)]
    hs += list(zip(by["double"][:6], by["float"][:6]))
    hs = [merged(ctx.rng, a, b) for a, b in hs]
    if vp.FRACTION < 1:
        hs = ctx.rng.sample(hs, max(2, int(len(hs) * vp.FRACTION)))
    recs = run(ctx, exe, hs, "p%d" % len(ctx.violations + ctx.samples))
    ctx.extra["events"] = ctx.extra.get("events", 0) + sum(len(r) for r in recs)
    ctx.extra["pairs"] = ctx.extra.get("pairs", 0) + len(hs)
    ctx.samples.append({"interleaving": [x[0][:60] for x in hs[0][:12]]})
    bad = judge(ctx, module, recs)
    if not bad:
        return
    again = sorted(bad)
    bad2 = judge(ctx, module, run(ctx, exe, [hs[i] for i in again], "again"))
    for n, i in enumerate(again):
        if n not in bad2 or len(ctx.violations) > 4:
            continue
        who, k, what = bad[i][0]
        text = "%s history %d, object %d, its call %d: %s\n" % (driver, i, who, k, what) + "\n".join(x[0] for x in hs[i])
        text += "\nobserved: " + json.dumps(recs[2 * i + who][k]["o"])[:20000]
        ctx.violations.append(("%s (%s history %d, object %d, call %d)" % (what, driver, i, who, k), text))


def check(ctx):
    pairs(ctx, "zeb_driver.cpp", "TraceZeb.tla", zeb.histories(ctx, 64))
    pairs(ctx, "traj_driver.cpp", "TraceTraj.tla", traj.histories(ctx, 48))
    pairs(ctx, "wg_driver.cpp", "TraceWg.tla", wg.cases(ctx, 32))
    return vp.finish(ctx, "TLC-generated histories of two controllers of the same kind, interleaved at random in one process; TLC judges "
                          "each controller's part against the specification of a single controller")
