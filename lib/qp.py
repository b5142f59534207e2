"""C25, C26: program data and the solver adapter against QPSolving.tla."""
import json
import os

import num
import vp


def program(r, nv, nc, k):
    m = lambda a, b: [[k(r) for _ in range(b)] for _ in range(a)]
    v = lambda a: [k(r) for _ in range(a)]
    return {"Q": m(nv, nv), "p": v(nv), "xl": v(nv), "xu": v(nv), "A": m(nc, nv), "bl": v(nc), "bu": v(nc)}


def flat(q):
    out = []
    for f in ("Q", "p", "xl", "xu", "A", "bl", "bu"):
        for x in q[f]:
            out += x if isinstance(x, list) else [x]
    return out


def toks(*xs):
    out = []
    for x in xs:
        out += [str(y) for y in x] if isinstance(x, list) else [str(x)]
    return " ".join(out)


def norm_cases(ctx):
    r = ctx.rng
    hs = []
    for i in range(4000 if ctx.thorough else 700):
        t = "double" if i % 2 else "float"
        h = [("reset " + t, {"float": t == "float"})]
        for _ in range(4):
            den = 2 ** r.randint(0, 12)
            e = r.choice([0, 1, 3])
            nv, nc = r.randint(1, 5), r.randint(0, 5)
            mode = r.randint(0, 4)

            def k(r):
                if mode == 0:
                    return r.randint(-2 * den, 2 * den)
                if mode == 1:
                    return r.choice([0, 1, -1, e, -e, e + 1, -e - 1, den, -den, den + 1])
                if mode == 2:
                    return r.randint(den, 2 * den) * r.choice([1, -1])
                if mode == 3:
                    return r.choice([0, 0, 0, r.randint(-4, 4)])
                return r.choice([0, e, -e])
            q = program(r, nv, nc, k)
            if r.randint(0, 1):      # bounds of their own size
                q["bl"] = [r.randint(-4000, 4000) for _ in range(nc)]
                q["bu"] = [r.randint(-4000, 4000) for _ in range(nc)]
                q["p"] = [r.randint(-4000, 4000) for _ in range(nv)]
            h.append((toks("norm", den, e, nv, nc, flat(q)), {"den": den, "e": e, "qp": q, "float": t == "float"}))
        for _ in range(3):
            nv, nc = r.randint(1, 4), r.randint(0, 4)
            d = [nv, nv, nv, nv, nv, nc, nv, nc, nc]
            if r.randint(0, 4):
                j = r.randrange(9)
                d[j] = max(0, d[j] + r.choice([-1, 1, 2]))
            if not r.randint(0, 3):
                nv, nc = nc, nv
            h.append((toks("dims", nv, nc, d), {"nv": nv, "nc": nc, "d": d}))
        hs.append(h)
    return hs


def adapter_cases(ctx):
    r = ctx.rng
    seqs = []
    m = vp.tlc(ctx, "MCAdapter.tla", "MCAdapterThorough.cfg" if ctx.thorough else "MCAdapter.cfg", workers="4")
    ctx.states += m.distinct
    ctx.transitions += m.generated
    seqs += sorted(set(m.printed("HIST")))
    ctx.extra["exhaustive_solve_sequences"] = len(seqs)
    s = vp.tlc(ctx, "MCAdapter.tla", "SimAdapter.cfg",
               args=["-simulate", "num=%d" % (2000 if ctx.thorough else 150), "-depth", "26", "-seed", str(ctx.seed)])
    seqs += sorted(set(s.printed("HIST")))
    hs = []
    small = lambda r: r.randint(-50, 50)
    for i, q in enumerate(seqs):
        t = "double" if i % 2 else "float"
        h = [("reset " + t, {})]
        nv, nc = r.randint(1, 4), r.randint(0, 4)
        h.append((toks("new", nv, nc), {"nv": nv, "nc": nc}))
        progs = {v: program(r, nv, nc, small) for v in (1, 2)}
        for warm, os_, code, v in json.loads(q):
            p = program(r, nv, nc, small)
            p["Q"], p["A"] = progs[v]["Q"], progs[v]["A"]
            it = r.randint(1, 100)
            pr = [small(r) for _ in range(nv)]
            h.append((toks("solve", warm, os_, code, it, nv, nc, flat(p), pr),
                      {"warm": bool(warm), "code": code, "it": it, "qp": p, "primal": pr}))
            if len(h) % 9 == 0:
                h.append((toks("new", nv, nc), {"nv": nv, "nc": nc}))
        hs.append(h)
    return hs


def check(ctx):
    src = [os.path.join(vp.REPO, "qpsolver/src/qpsolver_qpoases_double.cpp"),
           os.path.join(vp.REPO, "qpsolver/src/qpsolver_qpoases_float.cpp"),
           os.path.join(vp.REPO, "src/qpsolverfactory.cpp")]
    exe = vp.build(ctx, "qp_driver.cpp", extra_sources=src, includes=[os.path.join(vp.VERIF, "harness", "stub")],
                   with_lib=False)
    if ctx.prop == "C25":
        num.decide(ctx, exe, "TraceQp.tla", norm_cases(ctx))
        return vp.finish(ctx, "random and boundary programs normalised by the real code and compared entry by entry by TLC with the "
                              "specified scaling; dimension test on exact and perturbed dimensions")
    num.decide(ctx, exe, "TraceQp.tla", adapter_cases(ctx))
    return vp.finish(ctx, "every sequence of solves up to the bound (cold/hot, outcome, diagnostics stream, program version) explored by "
                          "TLC and executed on the real adapter over a scripted stand-in for qpOASES, plus random long sequences")
