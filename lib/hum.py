"""C08, C09, C10: the humanoid controller's constraints and objectives against TraceHum.tla."""
import feet
import num
import vp

# offsets (half units of 1e-4 m) inside, on and around the sole and reach polygons of MCFeet
SOLE = [(0, 0), (1600, 600), (1602, 600), (1598, 598), (-1200, -600), (-1200, 0), (-1204, 0), (1600, -600), (-1000, -400),
        (1000, -800), (1800, 200), (600, 1000), (-1400, 400), (1400, -300), (1404, -300), (0, -606), (0, 604), (1200, 600),
        (-1100, 700), (1900, 300), (2400, 0), (-2400, 0), (0, 2400), (0, -2400), (400, -2200), (300, 4000), (200, -3800)]
REACH = [(-4000, 3200), (-4002, 4000), (4800, 7200), (4800, 7204), (4802, 3200), (0, 3200), (0, 3196), (-2400, 2800), (4000, 3600),
         (3600, 6400), (-1600, 8400), (3800, 5000), (3700, 6300), (-2000, 5600), (-2100, 5600), (2000, 7700), (0, 8000), (0, 2700)]
INR = (400, 4600)


def probes(r, N):
    """Probes: lists of N CoP points and 8 step displacements; most have one point off centre."""
    out = []
    for k in range(5):
        c = [(0, 0)] * N
        s = [INR] * 8
        # displacements alternate sides; the sign is only right for one parity of the first stance
        sg = r.choice([1, -1])
        s = [(x, y * sg * (-1) ** j) for j, (x, y) in enumerate(s)]
        if k < 4:
            p = r.choice(SOLE)
            q = r.choice(SOLE)
            d = r.choice([0, 0, 1, 2, 5])       # fraction of the way between two marks
            c[r.randrange(N)] = ((p[0] * (10 - d) + q[0] * d) // 10, (p[1] * (10 - d) + q[1] * d) // 10)
            j = r.choice([0, 0, 0, 1, 1, 2, 3])
            x, y = r.choice(REACH)
            x, y = r.choice([(x, y), (x + r.randint(-60, 60), y + r.randint(-60, 60))])
            y = y * sg * (-1) ** j
            # mirrored marks and left reach polygons
            s[j] = r.choice([(x, y), (x, y), (x, -y)])
        else:
            c = [r.choice(SOLE) for _ in range(N)]
            s = [(r.randint(-4500, 5000), r.choice([-1, 1]) * r.randint(2500, 8500)) for _ in range(8)]
        out.append([[list(p) for p in c], [list(p) for p in s]])
    return out


def models(r):
    return [r.choice([8, 12, 16, 20]), r.choice([0, 0, 4, -8, 12]), r.choice([0, 0, 4, -8]), r.choice([16, 32, 64])]


def annotate(ctx, h):
    """The history with extra evaluations: list of (act, event fields)."""
    r = ctx.rng
    out, N, k = [], 0, 0
    for a in h:
        out.append((a, {}))
        if a[0] == "reset":
            N = a[1]
            out.append((["model"] + models(r), {}))
        elif a[0] == "N":
            N = a[1]
        elif a[0] == "update":
            k += 1
            if ctx.prop in ("C08", "C09"):
                p = probes(r, N)
                out.append((["ctr", len(p)] + feet.flat(p), {"p": p}))
            elif k % 4 == 1:
                if r.randint(0, 3) == 0:
                    out.append((["model"] + models(r), {}))
                x = [r.randint(-20, 20), r.randint(-9, 9), r.randint(-4, 4)]
                y = [r.randint(-20, 20), r.randint(-9, 9), r.randint(-4, 4)]
                ref = [r.randint(-60, 60) for _ in range(2 * N)]
                u = [[r.randint(-2, 2) for _ in range(N)] for _ in range(2)]
                q = [[r.randint(-60, 60), r.randint(-60, 60)] for _ in range(8)]
                out.append((["obj"] + x + y + ref + feet.flat(u) + feet.flat(q), {"x": x, "y": y, "ref": ref, "u": u, "q": q}))
    return out


def check(ctx):
    exe = vp.build(ctx, "hum_driver.cpp")
    n = 24 if ctx.prop == "C10" else 48
    hs = feet.simulate(ctx, n * (10 if ctx.thorough else 1))
    cases = []
    for i, h in enumerate(hs):
        t = ["double", "float"][i % 2]
        head = [t, (i // 2) % 2, "0.03125"]
        lines = []
        for a, f in annotate(ctx, h):
            e = {"a": a[1:], "tol": 10 if t == "double" else 60, "rel": 100000 if t == "double" else 300, "h": " ".join(map(str, head))}
            e.update(f)
            lines.append((feet.tokens(a, head), e))
        cases.append(lines)
    num.decide(ctx, exe, "TraceHum.tla", cases)
    return vp.finish(ctx, "constraints probed at points in, on and outside the polygons, and objectives evaluated on a full basis of "
                          "integer directions, after every preview update of TLC-generated walks; TLC computes membership, "
                          "gradients and Hessians from the specified state")
