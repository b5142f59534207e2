"""C13..C19: the wheeled-base controller against ZebWalkgen.tla (TraceZeb)."""
import feet
import num
import traj
import vp
import wg

CFG = {"C13": "SimZeb.cfg", "C14": "SimZebRows.cfg", "C15": "SimZebMotion.cfg", "C16": "SimZebCost.cfg",
       "C17": "SimZebTilt.cfg", "C18": "SimZeb.cfg", "C19": "SimZeb.cfg", 
       "C27": ["SimZeb.cfg", "SimZebMotion.cfg", "SimZebRows.cfg", "SimZebMotion.cfg", "SimZebCost.cfg", "SimZebTilt.cfg",
               "SimZeb.cfg", "SimZebMotion.cfg"]}
POLY = ("cop", "com", "copHull", "comHull")


def event(act):
    """(script line, event fields) of a generated call"""
    op, a = act[0], act[1:]
    if op == "solve":
        fb, code, plan, ls = a
        t = [fb, code] + plan + [len(ls)] + feet.flat(ls)
        return "solve " + " ".join(map(str, t)), {"fb": fb, "code": code, "plan": plan, "ls": ls}
    t = feet.flat(a)
    if op in POLY:
        t = [len(a[0])] + t
    return (op + " " + " ".join(map(str, t))).strip(), {"a": a}


def known(ctx):
    listed = vp.known_findings().get(ctx.prop, {})
    return lambda ev, what: listed.get(what.replace(" ", "-"))


def histories(ctx, n=None):
    n = n or {"C13": 48, "C14": 160, "C15": 160, "C16": 64, "C17": 100, "C18": 96, "C19": 64}[ctx.prop]
    hs = feet.simulate(ctx, n * (8 if ctx.thorough else 1), cfg=CFG[ctx.prop], depth=90, module="MCZeb.tla")
    return cases(hs)


def cases(hs):
    """generated histories as scripts with event fields, in double and single precision in turn"""
    res = []
    for i, h in enumerate(hs):
        t = ["double", "float"][i % 2]
        lines = []
        for a in h:
            line, f = event(a)
            if a[0] == "reset":
                line = "reset " + t
            e = {"float": t == "float", "rel": 100000 if t == "double" else 300, "rs": 1000000 if t == "double" else 50000,
                 "st": 0 if t == "double" else 60}
            e.update(f)
            lines.append((line, e))
            if a[0] == "solve" and a[2] == 0:
                break
        res.append(lines)
    return res


def check(ctx):
    exe = vp.build(ctx, "zeb_driver.cpp")
    num.decide(ctx, exe, "TraceZeb.tla", histories(ctx), known=known(ctx))
    return vp.finish(ctx, "TLC-generated histories of the wheeled-base controller over a scripted solver, setters in random orders; the program "
                          "submitted at every solve (feasible set along lines of plans, Hessian and gradient) and the states that follow are "
                          "compared by TLC with the specified controller")


def hot_starts(ctx):
    """C18: the three controllers"""
    def one(driver, module, cases):
        exe = vp.build(ctx, driver)
        num.decide(ctx, exe, module, cases)
    one("zeb_driver.cpp", "TraceZeb.tla", histories(ctx))
    one("traj_driver.cpp", "TraceTraj.tla", traj.histories(ctx, 80))
    one("wg_driver.cpp", "TraceWg.tla", wg.cases(ctx, 48))
    return vp.finish(ctx, "TLC-generated histories of the three controllers over a scripted solver that remembers the matrices of its last cold "
                          "start; TLC compares the matrices submitted with every hot start with them")
