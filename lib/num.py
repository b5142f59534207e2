"""Common shape of the checks that compare numeric results of the real code with values the
specification computes: execute generated histories with a driver, let TLC judge every event,
confirm rejections on a second execution, report."""
import json

import vp


def execute(ctx, exe, hs, tag):
    """hs: list of histories; a history is a list of (script line, event dict), the first one a reset."""
    script, out = ctx.path(tag + ".script"), ctx.path(tag + ".out")
    with open(script, "w") as f:
        for h in hs:
            for line, _ in h:
                f.write(line + "\n")
    vp.run_driver(ctx, exe, script, out, timeout=800)
    recs = vp.read_driver(out)
    if len(recs) != len(hs):
        raise vp.CheckError("driver recorded %d of %d histories" % (len(recs), len(hs)))
    res = []
    for h, r in zip(hs, recs):
        evs = []
        for k, (line, ev) in enumerate(h):
            if k >= len(r):
                raise vp.CheckError("driver recorded %d of %d events (%s)" % (len(r), len(h), line))
            o = r[k]
            crash = o["op"] == "crash"
            if not crash and o["op"] != line.split(" ", 1)[0]:
                raise vp.CheckError("driver event %s for call %s" % (o["op"], line))
            e = dict(ev)
            e["op"] = line.split(" ", 1)[0]
            e["crash"] = crash
            e["o"] = o
            evs.append(e)
            if crash:
                break
        res.append(evs)
    return res


def decide(ctx, exe, module, hs, known=None, limit=6):
    """Validate the histories; fills ctx.violations / ctx.known.  known(event, what) -> text of a
    listed finding that explains the rejection, or None."""
    cfg = module.replace(".tla", ".cfg")
    if vp.FRACTION < 1 and not getattr(ctx, "sampled", False):
        hs = ctx.rng.sample(hs, max(2, int(len(hs) * vp.FRACTION)))
    evs = execute(ctx, exe, hs, "h%d" % len(ctx.extra))
    bad = vp.validate(ctx, module, cfg, evs)
    mine = [b for b in bad if b[2] in (ctx.prop, "ALL")]
    ctx.extra["events"] = ctx.extra.get("events", 0) + sum(len(e) for e in evs)
    if evs and evs[-1]:
        ctx.samples.append({"call": hs[-1][min(1, len(hs[-1]) - 1)][0][:400],
                            "event": json.dumps(evs[-1][min(1, len(evs[-1]) - 1)])[:1500]})
    if not mine:
        return
    again = sorted({b[0] for b in mine})
    evs2 = execute(ctx, exe, [hs[i] for i in again], "again%d" % len(ctx.extra))
    bad2 = {again[i] for i, _, p, _ in vp.validate(ctx, module, cfg, evs2) if p in (ctx.prop, "ALL")}
    seen = {}
    for b in mine:
        if b[0] not in bad2:
            continue
        i, k, _, what = b
        t = known(evs[i][k], what) if known else None
        if t is not None:
            if t not in ctx.known:
                ctx.known.append(t)
            continue
        seen[what] = seen.get(what, 0) + 1
        if seen[what] > 2 or len(ctx.violations) >= 20:
            continue
        text = "history %d, call %d: %s\n" % (i, k, what)
        text += "\n".join(line for line, _ in hs[i][:k + 1])
        text += "\nobserved: " + json.dumps(evs[i][k]["o"])[:20000]
        ctx.violations.append(("%s (history %d, call %d)" % (what, i, k), text))
