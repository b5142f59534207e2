#!/usr/bin/env python3
"""Development tool: how much of what the drivers record is actually judged?

Takes the traces of a clean run, corrupts one recorded value at a time (well beyond every
tolerance), lets TLC judge the corrupted traces again and lists, per operation and field, the
share of corruptions that at least one of the properties (all judged on the traces of the first)
reports, and which.  A field nobody complains about is a hole in the specification.

usage: oracle.py PROP[,PROP...] [number of corruptions] [seed]"""
import collections
import copy
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "lib")]
os.environ.setdefault("VP_FRACTION", "0.3")
import vp      # noqa: E402
import check   # noqa: E402


def paths(x, p=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, p + (k,))
    elif isinstance(x, list):
        if len(x) > 3:      # (pairs and triples have a fixed length)
            yield p + ("#",)
        for i, v in enumerate(x):
            yield from paths(v, p + (i,))
    else:
        yield p


def corrupt(x, p, how):
    if p[-1] == "#":
        at(x, p[:-1]).pop()
        return True
    c = at(x, p[:-1])
    v = c[p[-1]]
    if isinstance(v, bool):
        c[p[-1]] = not v
    elif isinstance(v, int):
        if how == "neg":
            if abs(v) < 3000:
                return False
            c[p[-1]] = -v
        elif how == "one":
            c[p[-1]] = v + 1
        else:
            c[p[-1]] = v + (abs(v) // 8 + 4000) * (1 if v >= 0 else -1)
    elif isinstance(v, str):
        c[p[-1]] = v + "?"
    else:
        return False
    return True


def at(x, p):
    for k in p:
        x = x[k]
    return x


def generic(p):
    return ".".join("*" if isinstance(k, int) else str(k) for k in p)


def main():
    props = sys.argv[1].split(",")
    num = int(sys.argv[2]) if len(sys.argv) > 2 else 1200
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    real = vp.validate
    seen = []

    def spy(ctx, module, cfg, hs, *a, **k):
        r = real(ctx, module, cfg, hs, *a, **k)
        seen.append((module, cfg, hs))
        return r
    vp.validate = spy
    os.environ["VERIF_SEED"] = "1"
    check.TABLE[props[0]](vp.Ctx(props[0]))
    vp.validate = real
    for module, cfg, hs in seen:
        # candidate (history, event) by op and field
        cand = collections.defaultdict(list)
        for i, h in enumerate(hs):
            for k, ev in enumerate(h):
                if k > 40 or "o" not in ev:
                    continue
                for p in paths(ev["o"]):
                    if p and p[0] != "op":
                        cand[(ev["op"], generic(p))].append((i, k, p))
        per = max(2, num // max(1, len(cand)))
        out, tag = [], []
        for key, c in sorted(cand.items()):
            for i, k, p in rng.sample(c, min(per, len(c))):
                num_ = p[-1] != "#" and type(at(hs[i][k]["o"], p)) is int
                for how in ("big", "neg", "one") if num_ else ("big",):
                    h = hs[i][:k] + [copy.deepcopy(hs[i][k])]
                    if corrupt(h[k]["o"], p, how):
                        out.append(h)
                        tag.append((key, how))
        print("== %s: %d corruptions" % (module, len(out)), flush=True)
        who = collections.defaultdict(set)
        for prop in props:
            ctx = vp.Ctx(prop)
            err = set()

            def judge(ids):
                """indices of the corrupted traces the property complains about"""
                try:
                    return {ids[b[0]] for b in real(ctx, module, cfg, [out[i] for i in ids]) if b[2] in (prop, "ALL")}
                except vp.CheckError:
                    if len(ids) == 1:
                        err.add(ids[0])
                        return set()
                    n = max(1, len(ids) // 12)
                    return set().union(*(judge(ids[j:j + n]) for j in range(0, len(ids), n)))
            for b in judge(list(range(len(out)))):
                who[b].add(prop)
            for t in sorted({tag[i] for i in err}):
                print("!! specification error on", prop, t)
            vp.shutil.rmtree(ctx.dir, ignore_errors=True)
        tot, hit = collections.Counter(tag), collections.Counter(tag[b] for b in who)
        for key in sorted({t[0] for t in tot}):
            row = ["%s %d/%d" % (how, hit[(key, how)], tot[(key, how)]) for how in ("big", "neg", "one") if tot[(key, how)]]
            full = all(hit[(key, how)] == tot[(key, how)] for how in ("big", "neg"))
            by = sorted(set().union(*(who[b] for b in range(len(out)) if tag[b][0] == key and b in who)))
            print("%s %-10s %-24s %-36s %s" % ("  " if full else ("--" if not hit[(key, "big")] else " ?"), key[0], key[1],
                                               "  ".join(row), " ".join(by)))


main()
