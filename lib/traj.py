"""C20: the trajectory generator against TrajWalkgen.tla (TraceTraj)."""
import feet
import num
import vp


def histories(ctx, n):
    hs = feet.simulate(ctx, n * (8 if ctx.thorough else 1), cfg="SimTraj.cfg", depth=90, module="MCTraj.tla")
    import zeb
    return zeb.cases(hs)


def check(ctx):
    exe = vp.build(ctx, "traj_driver.cpp")
    num.decide(ctx, exe, "TraceTraj.tla", histories(ctx, 240))
    return vp.finish(ctx, "TLC-generated histories of the trajectory generator over a scripted solver, setters in random orders; the program "
                          "submitted at every solve (feasible set along lines of plans, Hessian and gradient), the status, the state and the "
                          "jerk that follow are compared by TLC with the specified controller")
