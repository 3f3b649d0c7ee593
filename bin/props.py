"""Registry: for each property its jobs (generator spec, driver, trace spec) per tier."""
from check_types import Job

IPOPT = ["-I/usr/include/coin", "-DHAVE_CSTDDEF"]

import os
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")

DRIVERS = {
    "qp": dict(srcs=["qp/qp_driver.cpp", "qp/qp_util.cpp", "qp/qp_dyn.cpp", "qp/qp_sparse.cpp", "qp/qp_static.cpp", "qp/qp_partial.cpp", "qp/qp_float.cpp"]),
    "life": dict(srcs=["qp/life_driver.cpp", "qp/qp_util.cpp"]),
    "sparse": dict(srcs=["sparse/sparse_driver.cpp"]),
    "ipopt": dict(srcs=["nlp/ipopt_driver.cpp"], flags=IPOPT, libs=["-lipopt"]),
    "nlpsolve": dict(srcs=["nlp/solve_driver.cpp", "qp/qp_util.cpp"], flags=IPOPT, libs=["-lipopt"]),
    "time": dict(srcs=["time/time_driver.cpp"], flags=["-I" + os.path.join(HARNESS, "time")]),
    "mesh": dict(srcs=["mesh/mesh_driver.cpp"], shim=True),
    "pid": dict(srcs=["lie/pid_driver.cpp"], shim=True),
    "asif": dict(srcs=["lie/asif_driver.cpp"], shim=True),
    "meshfun": dict(srcs=["mesh/meshfun_driver.cpp"], shim=True),
    "ocpnlp": dict(srcs=["ocp/ocpnlp_driver.cpp"], shim=True),
    "ocpsol": dict(srcs=["ocp/ocpsol_driver.cpp"], shim=True),
    "ocpqp": dict(srcs=["ocp/ocpqp_driver.cpp"], shim=True),
    "dertest": dict(srcs=["ocp/dertest_driver.cpp"], shim=True),
    "flat": dict(srcs=["ocp/flat_driver.cpp"], shim=True),
    "mpc": dict(srcs=["ocp/mpc_driver.cpp"], shim=True),
    "osqp": dict(srcs=["osqp/osqp_driver.cpp"], flags=["-ftrivial-auto-var-init=pattern", "-I" + os.path.join(HARNESS, "osqp")]),
    "ekf": dict(srcs=["lie/ekf_driver.cpp"], shim=True),
    "dynerr": dict(srcs=["mesh/dynerr_driver.cpp"], shim=True),
}


def qp_job(name, mode, prop, count, seed, maxn=3, limit=20):
    return Job(name, "QPGen", dict(Seed=seed, Count=count, Mode=mode, MaxN=maxn), "qp", "QPTrace", dict(Prop=prop), limit=limit)


def sound(prop, salt, with_small=True):
    def jobs(tier, seed):
        n = 3000 if tier == "quick" else 40000
        js = [qp_job("random", "sound", prop, n, seed * 17 + salt)]
        if with_small:
            js.append(qp_job("small", "small", prop, 0, seed))
        js.append(qp_job("large", "sound", prop, 1000 if tier == "quick" else 15000, seed * 17 + salt, maxn=8))
        return js
    return jobs


PROPS = {}
for _p, _salt, _txt in (
        ("Q01", 1, "KKT conditions and objective of every Optimal/PolishFailed answer"),
        ("Q02", 2, "PrimalInfeasible answers against exact feasibility (Fourier-Motzkin)"),
        ("Q03", 3, "DualInfeasible answers against exact recession rays (Fourier-Motzkin)"),
        ("Q04", 4, "answers without limits against the exact class of the problem")):
    PROPS[_p] = dict(jobs=sound(_p, _salt), covers="random QPs with n<=3, m<=4, small integer data, four parameter settings and one single precision run each; QPs with n=4..8, m=3..10 and witnesses of their class; "
                     "every QP with n=1, m<=2 over a small coefficient set; " + _txt)
PROPS["Q05"] = dict(jobs=lambda t, s: [qp_job("budget", "budget", "Q05", 700 if t == "quick" else 8000, s * 17 + 5),
                               qp_job("large", "budget", "Q05", 200 if t == "quick" else 3000, s * 17 + 6, maxn=8)],
                    covers="15 runs per problem with different limits, compared with the unlimited run")
LIFE = dict(Slots=3, NStruct=3, PerStruct=3, NPrm=3)
PROPS["Q06"] = dict(jobs=lambda t, s: [Job("histories", "QPLifeGen", dict(LIFE, Salts=1000 if t == "quick" else 12000, Depth=25, Seed=s % 50),
                                           "life", "QPLifeTrace", LIFE, gen_mode="sim")],
                    covers="simulated histories of 25 operations on 3 solver objects over 3 problem structures and 3 parameter sets; "
                    "each solve compared with a one-shot solve of the same problem, sol() of every object after every operation")
PROPS["Q07"] = dict(jobs=lambda t, s: [qp_job("reps", "reps", "Q07", 1500 if t == "quick" else 20000, s * 17 + 7),
                               qp_job("large", "reps", "Q07", 400 if t == "quick" else 6000, s * 17 + 7, maxn=8)],
                    covers="12 equivalent statements of each problem")
PROPS["Q08"] = dict(jobs=lambda t, s: [qp_job("warm", "warm", "Q08", 1500 if t == "quick" else 20000, s * 17 + 8),
                               qp_job("large", "warm", "Q08", 400 if t == "quick" else 6000, s * 17 + 8, maxn=8)],
                    covers="cold start against seven warm starts per problem")
PROPS["Q09"] = dict(jobs=lambda t, s: [qp_job("polish", "polish", "Q09", 1500 if t == "quick" else 20000, s * 17 + 9),
                               qp_job("large", "polish", "Q09", 400 if t == "quick" else 6000, s * 17 + 9, maxn=8)],
                    covers="polish on/off per problem, nondegeneracy decided exactly")


def sparse_job(name, mode, prop, count, seed):
    return Job(name, "SparseGen", dict(Seed=seed, Count=count, Mode=mode), "sparse", "SparseTrace", dict(Prop=prop))


for _p, _t in (("S01", "values after every operation"), ("S02", "stored pattern, compression, zeroing, explicit zeros after every operation")):
    PROPS[_p] = dict(jobs=lambda t, s, p=_p: [sparse_job("small", "small", p, 0, s),
                                              sparse_job("histories", "history", p, 1500 if t == "quick" else 25000, s)],
                     covers="every single block operation on a 2x3 matrix (all positions, shapes, six source kinds, scales, both storage orders, three "
                     "initial patterns) and random histories of up to 10 operations on matrices up to 4x4; " + _t)
PROPS["S03"] = dict(jobs=lambda t, s: [sparse_job("fog", "fog", "S03", 3000 if t == "quick" else 40000, s)],
                    covers="random integer Jacobians/Hessians, dimensions 1..3, offsets, prefilled outputs, dense/sparse/row-major arguments")

PROPS["T01"] = dict(jobs=lambda t, s: [Job("clock", "TimeGen", dict(Seed=s, Count=8000 if t == "quick" else 60000, NTypes=17), "time", "TimeTrace", {})],
                    covers="histories of up to five increments for 17 time types (the ROS type through a stand-in for rclcpp); increments sub-resolution to days, negative, large start values")

PROPS["N01"] = dict(jobs=lambda t, s: [Job("callbacks", "NlpGen", dict(Seed=s, Count=2500 if t == "quick" else 30000), "ipopt", "NlpTrace", {})],
                    covers="random polynomial NLPs (n<=3, m<=3, with/without Hessian, explicit zeros, uncompressed storage), histories of 5-14 callbacks "
                    "at random points in random order")
PROPS["N02"] = dict(jobs=lambda t, s: [Job("solve", "QPGen", dict(Seed=s * 17 + 3, Count=600 if t == "quick" else 8000, Mode="nlp", MaxN=3), "nlpsolve", "NlpSolveTrace", {})],
                    covers="eight solver calls (option sets, problem types, warm starts, iteration limits) per random small convex problem")

for _p, _t in (("M01", "number, degree and end points of every interval after every operation"),
               ("M02", "nodes, weights, differentiation and integration matrices of the final mesh"),
               ("M03", "lookup and interpolation on the final mesh")):
    PROPS[_p] = dict(jobs=lambda t, s, p=_p: [Job("histories", "MeshGen", dict(Seed=s, Count=1500 if t == "quick" else 20000, MaxOps=6), "mesh", "MeshTrace", dict(Prop=p))],
                     covers="histories of up to six operations on meshes of eight degree ranges; " + _t)

def mesh_design(tier):
    return [("Mesh<%d,%d> up to %d intervals" % (a, b, n), "MeshDesign",
             dict(consts=dict(Kmin=a, Kmax=b, MaxIvals=n, MaxD=b + a + 2), spec="Spec", cfgtext="CONSTRAINT Bound",
                  invs=("IsPartition", "DegreesInRange", "OnlyAdds", "Addressed")))
            for a, b, n in (((1, 2, 3), (2, 4, 3)) if tier == "quick" else ((1, 2, 4), (2, 4, 4), (3, 3, 5)))]


PROPS["M01"]["design"] = mesh_design

PROPS["D01"] = dict(jobs=lambda t, s: [Job("errors", "DynErrGen", dict(Seed=s, Count=3000 if t == "quick" else 40000), "dynerr", "DynErrTrace", {})],
                    covers="arbitrary tabulated trajectories on degree one and two meshes (exact rational errors), resolved polynomial trajectories "
                    "and single-interval defects on meshes up to degree 11, refinement from the errors")

PROPS["P01"] = dict(jobs=lambda t, s: [Job("histories", "PidGen", dict(Seed=s, Count=2000 if t == "quick" else 30000, MaxOps=12), "pid", "PidTrace", {})],
                    covers="histories of up to twelve operations on two controllers, five groups, five time types, clamped integrals, time going backwards")

for _p, _t in (("K01", "predictions"), ("K02", "updates")):
    PROPS[_p] = dict(jobs=lambda t, s, p=_p: [Job("histories", "EkfGen", dict(Seed=s, Count=2000 if t == "quick" else 30000, Prop=p), "ekf", "EkfTrace", dict(Prop=p))],
                     covers="histories of resets, predictions and updates on vectors and two nilpotent groups, Euler steps exactly in integers, "
                     "Runge-Kutta steps against the closed form, one- and two-dimensional measurements exactly; emphasis on " + _t)

PROPS["A01"] = dict(jobs=lambda t, s: [Job("programs", "AsifGen", dict(Seed=s, Count=1500 if t == "quick" else 20000, Prop="A01"), "asif", "AsifTrace", dict(Prop="A01"))],
                    covers="problems on vectors and a nilpotent group with nonlinear closed loops, time-varying barriers and backups, integration steps dividing "
                    "the spacing or not, four time units, fresh and reused storage")
PROPS["A02"] = dict(jobs=lambda t, s: [Job("histories", "AsifGen", dict(Seed=s + 5, Count=1200 if t == "quick" else 16000, Prop="A02"), "asif", "AsifTrace", dict(Prop="A02"))],
                    covers="histories of up to five filter calls with changing state, desired input, barrier and backup, copies and moves; exact one-dimensional "
                    "optimality, two-dimensional descent test")

for _p, _t in (("F01", "fresh result objects"), ("F02", "result objects shared over up to seven evaluations of changing functions, points, orders and meshes")):
    PROPS[_p] = dict(jobs=lambda t, s, p=_p: [Job("evaluations", "MeshFunGen", dict(Seed=s, Count=800 if t == "quick" else 12000, Prop=p), "meshfun", "MeshFunTrace", dict(Prop=p))],
                     covers="polynomial functions with dense, sparse and numerical derivatives on vectors and a nilpotent group, evaluation, integration and dynamics, "
                     "derivative orders zero to two, exact integers; " + _t)

PROPS["O02"] = dict(jobs=lambda t, s: [Job("nlp", "OcpNlpGen", dict(Seed=s, Count=600 if t == "quick" else 9000), "ocpnlp", "OcpNlpTrace", {})],
                    covers="optimal control problems with up to two states, inputs, integrals, running and end constraints, polynomial functions with dense, sparse and numerical derivatives, "
                    "meshes of up to four intervals of degree one and two; sizes, bounds, values, Jacobians and Hessians at changing points, final times and multipliers, exact integers")

PROPS["O03"] = dict(jobs=lambda t, s: [Job("solutions", "OcpSolGen", dict(Seed=s, Count=2000 if t == "quick" else 40000), "ocpsol", "OcpSolTrace", {})],
                    covers="node values of states, inputs, integrals and multipliers on meshes of up to four intervals of degree one and two, trajectories at and between nodes, "
                    "round trips to the same and to another mesh; exact rational interpolation")

PROPS["O01"] = dict(jobs=lambda t, s: [Job("qp", "OcpQpGen", dict(Seed=s, Count=600 if t == "quick" else 9000), "ocpqp", "OcpQpTrace", {})],
                    covers="optimal control problems on vector spaces and a nilpotent group, polynomial functions with dense, sparse and numerical derivatives, meshes of up to four intervals "
                    "of degree one and two, fresh and updated storage under changing references and horizons, solutions mapped back; exact integers")

PROPS["O04"] = dict(jobs=lambda t, s: [Job("flatten", "FlatGen", dict(Seed=s, Count=500 if t == "quick" else 6000), "flat", "FlatTrace", {})],
                    covers="polynomial problems on vector spaces and two- and three-step nilpotent groups (states and inputs), references with arbitrary values and velocities, values, Jacobians and "
                    "Hessians in changing order at changing points against exact Taylor arithmetic, unflattened solutions")

PROPS["O05"] = dict(jobs=lambda t, s: [Job("planted", "DerGen", dict(Seed=s, Count=2500 if t == "quick" else 30000), "dertest", "DerTrace", {})],
                    covers="problems with polynomial functions on vector spaces and nilpotent groups, dense, sparse, first-order-only and no analytic derivatives, up to two planted errors (wrong entry, "
                    "not-a-number, infinity, wrong shape) in one function and order, at every or only at one of the tested points; tolerances and three differentiation methods")

def mpc_job(mode, t, s):
    return [Job(mode, "MpcGen", dict(Seed=s, Count=1500 if t == "quick" else 20000, Mode=mode), "mpc", "MpcTrace", {})]


PROPS["C01"] = dict(jobs=lambda t, s: mpc_job("history", t, s),
                    covers="histories of up to three controllers with calls, copies, moves, self-assignments, changed references and weights, warm start resets; one and two collocation points, three time types; "
                    "the answer is minimal along every feasible direction for the settings of that controller alone")
PROPS["C02"] = dict(jobs=lambda t, s: mpc_job("settings", t, s),
                    covers="one controller with changing absolute and relative references, weights of changing sparsity, time-dependent dynamics and mixed state-input limits, vector spaces and a nilpotent group; "
                    "initial state, dynamics, limits and minimality of the returned trajectories")
PROPS["X01"] = dict(jobs=lambda t, s: [Job("protocol", "OsqpGen", dict(Seed=s, Count=4000 if t == "quick" else 40000), "osqp", "OsqpTrace", {})],
                    covers="dense, static and sparse problems, settings with and without limits, warm starts, and scripted outcomes of the OSQP library (setup refused before or after "
                    "allocation, solve errors, every status); the library is a recording stand-in, as OSQP is not installed")

def admm_design(tier):
    m, st = (4, 3) if tier == "quick" else (9, 5)
    return [("ADMM loop, limits up to %d, checks every 1..%d" % (m, st), "AdmmDesign",
             dict(consts=dict(MaxIter=m, MaxStop=st, Horizon=m + st + 2), spec="Spec",
                  invs=("WithinLimit", "HonestIter", "HonestTime", "Unlimited", "HonestPolish", "Scheduled", "TooSmall", "LargeEnough", "TimeOnlyStops", "FirstCheck"),
                  props=("Terminates", "Bounded") if tier == "quick" else ()))]


PROPS["Q05"]["design"] = admm_design
PROPS["X01"]["design"] = lambda tier: [("adapter against an arbitrary library", "OsqpDesign", dict(spec="Spec", invs=("Legal", "NoLeak"), props=("Returns",)))]
PROPS["C01"]["design"] = lambda tier: [("%d controllers" % n, "MpcDesign", dict(consts=dict(Slots=n, Heap=n + 1, NRef=1, NW=1), spec="Spec", invs=("SameLife", "Current", "NotShared"), props=("Answers",)))
                                       for n in ((2,) if tier == "quick" else (2, 3))]
PROPS["K01"]["design"] = lambda tier: [("time stepping", "ScheduleDesign", dict(consts=dict(MaxT=6 if tier == "quick" else 12, MaxK=4), spec="Spec",
                                                                               invs=("StepsPositive", "NoOvershoot", "Instants", "FewSteps"), props=("Complete",)))]
PROPS["A01"]["design"] = PROPS["K01"]["design"]

NOTE = ("Every trace the real code produced on the generated cases is a behaviour of the TLA+ specification (TLC, exact integer oracle). "
        "Assurance is bounded by the generated cases; trusted: TLC, the driver's fixed-point projection, g++.")
NOT_APPLICABLE = {}
