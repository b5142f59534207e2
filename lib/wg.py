"""C11, C12: the whole humanoid controller against HumWalkgen.tla (TraceWg)."""
import feet
import hum
import num
import vp


def physical(r):
    return [r.randint(-300000, 300000), r.randint(-60000, 60000), r.randint(-60000, 60000)]


def annotate(ctx, h):
    """A walk of the supervisor turned into a history of the controller: list of (line, fields)."""
    r = ctx.rng
    out = []

    def add(op, args, **f):
        f["a"] = args
        out.append((op + " " + " ".join(str(x) for x in feet.flat(args)), f))

    def poly(i, p):
        out.append(("poly1 %d %d %s" % (i, len(p), " ".join(map(str, feet.flat(p)))), {"a": [i, p]}))

    def weights():
        t = r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [2, 1, 1], [1, 3, 2], [3, 2, 0], [0, 50, 1], [1, 400, 0], [1, 200, 1]])
        # and a common power of two
        out.append(("wt %d %d %d %d" % (*t, r.choice([0, 0, -9, -26, 4])), {"a": t}))

    def one(N):
        """a setter that leaves the walk alone"""
        k = r.randint(0, 7)
        if k == 0:
            weights()
        elif k == 1:
            add("cfg", [r.choice([0, 1, 1]), r.choice([0, 1, 1])])
        elif k == 2:
            add("ref", [r.randint(-60, 60) for _ in range(2 * N)])
        elif k == 3:
            add("rho", [r.choice([40, 64, 80, 100])])
        elif k == 4:
            add("yaw", [r.randint(0, 200)])
        elif k == 5:
            i = r.randint(0, 3)
            poly(i, r.choice(SOLES if i < 2 else REACH_L if i == 2 else REACH_R))
    N = K = 0
    big = False
    pending = None
    for a in h:
        op = a[0]
        if op == "reset":
            N, K = a[1], a[2]
            o = list("0123TDCWHFU")
            r.shuffle(o)
            i = r.randint(0, len(o))
            o = "".join(o[:i] + ["N"] + o[i:])
            # repeated and useless setters
            o += "".join(r.choice("0123CWH") for _ in range(r.randint(0, 3)))
            line = "reset %%s %s %d %d " % (o, N, K)
            for p in a[3:]:
                line += "%d %s " % (len(p), " ".join(map(str, feet.flat(p))))
            out.append((line, {"a": a[1:]}))
            fns = [weights, lambda: add("cfg", [r.choice([0, 1, 1]), r.choice([0, 1, 1])]),
                   lambda: add("ref", [r.randint(-60, 60) for _ in range(2 * N)]),
                   lambda: add("rho", [r.choice([40, 64, 80, 100])]), lambda: add("comp", physical(r) + physical(r))]
            r.shuffle(fns)
            for f in fns:
                f()
            big = False
        elif op == "poly":
            idx = [0, 1, 2, 3]
            r.shuffle(idx)
            for i in idx:
                poly(i, a[1 + i])
        elif op == "N":
            N = a[1]
            add("N", [N])
            add("ref", [r.randint(-60, 60) for _ in range(2 * N)])
        elif op == "update":
            pending = a
        elif op == "feet":
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                one(N)
            exact = N * K <= 12 and r.randint(0, 3) == 0
            if exact:
                add("com", [r.randint(-20, 20), r.randint(-3, 3), r.randint(-1, 1), r.randint(-20, 20), r.randint(-3, 3), r.randint(-1, 1)])
            elif big or r.randint(0, 9) == 0:
                add("comp", physical(r) + physical(r))
            big = exact
            fb, sx, sy = a[1], a[2], a[3]
            code = 0 if r.randint(0, 29) == 0 else 1
            j = [r.randint(-600, 600), r.randint(-600, 600)]
            other = [r.randint(-200, 200) for _ in range(2 * N)]
            n = r.choice([1, 2]) if ctx.prop in ("C11", "C27") else 0
            ps = hum.probes(r, N)[:n] if r.randint(0, 2) else hum.probes(r, N)[4 - n:4] if n else []
            if n and r.randint(0, 3) == 0:
                ps[0] = [[[0, 0]] * N, ps[0][1]]
            u = [[r.randint(-1, 1) for _ in range(N)] for _ in range(2)]
            q = [[r.randint(-60, 60), r.randint(-60, 60)] for _ in range(8)]
            ex = exact and ctx.prop in ("C11", "C27")
            args = [fb, code] + j + other + [len(sx)] + sx + sy + [len(ps)] + feet.flat(ps) + [int(ex)]
            if ex:
                args += feet.flat(u) + feet.flat(q)
            out.append(("solve " + " ".join(map(str, args)),
                        {"a": [fb], "code": code, "j": j, "st": sx + sy, "p": ps, "exact": ex, "u": u, "q": q}))
            if code == 0:
                break
        else:
            add(op, a[1:])
    return out


SOLES, REACH_L, REACH_R = [], [], []


def catalogues(hs):
    for h in hs:
        for a in h:
            if a[0] in ("reset", "poly"):
                p = a[-4:]
                for c, l in ((p[0], SOLES), (p[1], SOLES), (p[2], REACH_L), (p[3], REACH_R)):
                    if c not in l:
                        l.append(c)
    for l in (SOLES, REACH_L, REACH_R):
        l.sort()


def cases(ctx, n):
    hs = feet.simulate(ctx, n * (8 if ctx.thorough else 1), cfg="SimWalk.cfg", depth=120)
    catalogues(hs)
    res = []
    for i, h in enumerate(hs):
        t = ["double", "float"][i % 2]
        lines = []
        for line, f in annotate(ctx, h):
            e = {"tol": 10 if t == "double" else 60, "rel": 100000 if t == "double" else 300, "float": t == "float"}
            e.update(f)
            lines.append((line.replace("%s", t), e))
        res.append(lines)
    return res


def check(ctx):
    exe = vp.build(ctx, "wg_driver.cpp")
    num.decide(ctx, exe, "TraceWg.tla", cases(ctx, 192 if ctx.prop == "C12" else 144))
    return vp.finish(ctx, "TLC-generated walks of the whole controller over a scripted solver, with the setters in random orders; the program "
                          "submitted at every solve (feasible set at probe points, cost along roll-out directions) and the motion that "
                          "follows are compared by TLC with the specified controller")
