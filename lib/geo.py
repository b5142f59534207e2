"""C22, C23: convex polygons against Geometry.tla; C24: interpolation against Spline.tla."""
import json
import math

import num
import vp

TYPES = ["double", "float"]


def flat(p):
    return " ".join("%d %d" % (x, y) for x, y in p)


def grouped(cases, per=40):
    """cases: list of (type, line, event); one history per `per` cases of a type."""
    hs = []
    for t in TYPES:
        mine = [(l, e) for ty, l, e in cases if ty == t]
        for i in range(0, len(mine), per):
            hs.append([("reset " + t, {})] + mine[i:i + per])
    return hs


def model_points(ctx):
    r = vp.tlc(ctx, "MCGeometry.tla", "MCGeometryThorough.cfg" if ctx.thorough else "MCGeometry.cfg", workers="8",
               timeout=800)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return sorted(json.loads(x) for x in r.printed("PTS"))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def degenerate(p):
    return all(cross(a, b, c) == 0 for a in p for b in p for c in p)


def random_points(ctx, n, span, kind):
    g = ctx.rng
    if kind == 0:
        return [[g.randint(-span, span), g.randint(-span, span)] for _ in range(n)]
    if kind == 1:      # many points on the sides of a box, and inside
        p = []
        for _ in range(n):
            x, y = g.randint(-span, span), g.randint(-span, span)
            s = g.randint(0, 4)
            p.append([span, y] if s == 0 else [-span, y] if s == 1 else [x, span] if s == 2 else [x, -span] if s == 3 else [x, y])
        return p
    if kind == 2:      # lattice lines: many collinear triples off the axes
        a, b = g.choice([(1, 2), (2, 1), (1, 1), (3, 1), (-1, 2)])
        return [[a * k + c, b * k] for k, c in ((g.randint(-span // 4, span // 4), g.choice([0, 0, span // 3])) for _ in range(n))]
    # two copies of a sole (double support)
    if kind == 4:      # about n points that are nearly all vertices: lattice points around a circle or an ellipse
        rx, ry = span, g.choice([span, max(2, span // 3)])
        p = []
        for k in range(n):
            t = 2 * math.pi * (k + g.random() * .5) / n
            p.append([round(rx * math.cos(t)), round(ry * math.sin(t))])
        return p
    m = [[g.randint(-span, span), g.randint(-span, span)] for _ in range(max(3, n // 2))]
    d = [g.randint(-2 * span, 2 * span), g.choice([0, g.randint(-span, span)])]
    return m + [[x + d[0], y + d[1]] for x, y in m]


def hull_cases(ctx):
    g = ctx.rng
    cases = []

    def add(t, den, pts, strict, tol=2, sep=0):
        pts = list(pts)
        g.shuffle(pts)
        cases.append((t, "hull %d %d %s" % (den, len(pts), flat(pts)),
                      {"pts": pts, "strict": strict, "tol": tol, "sep": sep}))

    base = model_points(ctx)
    for k, p in enumerate(base):
        o = [g.randint(-20, 20), g.randint(-20, 20)]
        add(TYPES[k % 2], [32, 8, 128][k % 3], [[x + o[0], y + o[1]] for x, y in p], True)
    for k in range(3000 if ctx.thorough else 600):
        pts = random_points(ctx, g.randint(3, 14), g.choice([3, 10, 60]), k % 4)
        add(TYPES[(k // 4) % 2], g.choice([16, 64, 256]), pts, True)
    for k in range(400 if ctx.thorough else 80):
        # many points
        pts = random_points(ctx, g.randint(17, 64), g.choice([10, 60, 600]), k % 5)
        add(TYPES[(k // 5) % 2], g.choice([64, 512, 1024]), pts, True)
    for k in range(1500 if ctx.thorough else 300):
        # coordinates that are not exactly representable: centimetres and millimetres
        pts = random_points(ctx, g.randint(3, 12), g.choice([3, 10, 40]), k % 4)
        f = g.choice([10, 20, 50])      # units of 0.1 mm
        pts = [[f * x, f * y] for x, y in pts]
        if max(abs(c) for p in pts for c in p) < 9000:
            add(TYPES[k % 2], 10000, pts, False, 2, 5)
    for k in range(1500 if ctx.thorough else 300):
        # near duplicates: clusters of points much closer than 0.1 mm
        pts = random_points(ctx, g.randint(2, 6), 12, k % 4)
        pts = [[1024 * x + g.randint(-4, 4), 1024 * y + g.randint(-4, 4)] for x, y in pts for _ in range(g.randint(1, 3))]
        lo = min(min(x, y) for x, y in pts)
        hi = max(max(x, y) for x, y in pts)
        if lo >= -16000 and hi <= 16000:
            # one unit is 2^-17 m: a cluster spans at most 16 units, i.e. more than EPSILON (13 units)
            add(TYPES[k % 2], 131072, pts, False, 20, 6)
    return grouped(cases)


def probes(ctx, pts, full):
    g = ctx.rng
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    if full:
        return [[x, y] for x in range(2 * min(xs) - 1, 2 * max(xs) + 2) for y in range(2 * min(ys) - 1, 2 * max(ys) + 2)]
    out = []
    for a in pts:
        out.append([2 * a[0], 2 * a[1]])
        for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            out.append([2 * a[0] + d[0], 2 * a[1] + d[1]])
        for b in pts:
            out.append([a[0] + b[0], a[1] + b[1]])
    for _ in range(30):
        out.append([g.randint(2 * min(xs) - 20, 2 * max(xs) + 20), g.randint(2 * min(ys) - 20, 2 * max(ys) + 20)])
    g.shuffle(out)
    return out[:120]


def member_cases(ctx):
    g = ctx.rng
    cases = []

    def add(t, den, pts, pr):
        cases.append((t, "member %d %d %s %d %s" % (den, len(pts), flat(pts), len(pr), flat(pr)),
                      {"pts": pts, "probes": pr}))

    for k, p in enumerate(model_points(ctx)):
        if degenerate(p):
            continue
        o = [g.randint(-9, 9), g.randint(-9, 9)]
        p = [[x + o[0], y + o[1]] for x, y in p]
        g.shuffle(p)
        add(TYPES[k % 2], [32, 8, 128, 256][k % 4], p, probes(ctx, p, True))
    for k in range(2000 if ctx.thorough else 400):
        p = random_points(ctx, g.randint(3, 9), g.choice([3, 10, 60, 200]), k % 4)
        if not degenerate(p):
            add(TYPES[(k // 4) % 2], g.choice([64, 256, 1024]), p, probes(ctx, p, False))
    for k in range(300 if ctx.thorough else 60):
        # polygons with many sides
        p = random_points(ctx, g.randint(8, 32), g.choice([10, 40, 200]), 4)
        if not degenerate(p):
            add(TYPES[k % 2], g.choice([64, 256, 1024]), p, probes(ctx, p, False))
    for k in range(200 if ctx.thorough else 40):
        # polygons far from the origin
        o = [g.choice([-1, 1]) * g.randint(500, 3000), g.choice([-1, 0, 1]) * g.randint(500, 3000)]
        p = random_points(ctx, g.randint(3, 12), g.choice([5, 20, 60]), k % 5)
        p = [[x + o[0], y + o[1]] for x, y in p]
        if not degenerate(p):
            add("double", g.choice([64, 256, 1024]), p, probes(ctx, p, False))
    return grouped(cases)


def spline_cases(ctx):
    g = ctx.rng
    cases = []

    def add(t, s, td, tm=1):
        mag = sum(abs(x) for x in s) + 1
        tol = 2 if t == "double" else max(4, int(20736 * mag * 2e-6))
        q = g.choice([12, 12, 15, 21, 24, 33, 48] if mag <= 100 else [12, 15])
        fq = g.choice([360, 999, 1536])
        fk = sorted(g.randint(0, fq) for _ in range(24))
        cases.append((t, "spline %s %d %d %d %d %d %s" % (" ".join(map(str, s)), tm, td, q, fq, len(fk), " ".join(map(str, fk))),
                      {"s": s, "tol": tol, "q": q, "fq": fq, "fk": fk}))

    for t in TYPES:
        for i in range(6):
            for v in (1, -1, 100):
                for td in (0, -1, -3, 1, -10, 6):
                    s = [0] * 6
                    s[i] = v
                    add(t, s, td)
        for _ in range(6000 if ctx.thorough else 800):
            m = g.choice([3, 30, 200])
            s = [g.randint(-m, m) if g.random() < .85 else 0 for _ in range(6)]
            add(t, s, g.randint(-9, 5), g.choice([1, 1, 3, 5, 7, 11]))
    return grouped(cases, 100)


NOTES = {
    "C22": "TLC enumerates every multiset of points on a small grid, checks the hull oracle against the definition of extreme "
           "points, and every list (shuffled, shifted) is executed on ConvexPolygon and judged by TLC, plus random lists, "
           "inexact coordinates and near-duplicate clusters",
    "C23": "every grid polygon enumerated by TLC and random ones: TLC decides for each probe point whether it is inside, on the "
           "boundary or outside, and compares with the bounds and rows the real polygon reports",
    "C24": "the closed-form spline is checked by TLC against its defining conditions; values and derivatives of the real "
           "interpolator on a division of the horizon, on both sides of the knots and (acceleration) at random instants are compared by TLC with exact integers",
}


def check(ctx):
    exe = vp.build(ctx, "geo_driver.cpp")
    if ctx.prop == "C22":
        hs = hull_cases(ctx)
    elif ctx.prop == "C23":
        hs = member_cases(ctx)
    else:
        r = vp.tlc(ctx, "MCSpline.tla", "MCSpline.cfg", workers="4")
        ctx.states += r.distinct
        ctx.transitions += r.generated
        hs = spline_cases(ctx)
    ctx.extra["cases"] = sum(len(h) - 1 for h in hs)
    num.decide(ctx, exe, "TraceGeo.tla", hs)
    return vp.finish(ctx, NOTES[ctx.prop])
