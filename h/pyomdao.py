# The cases of property C37: the package miso as Python users meet it.
import copy, os, sys
import numpy as np
import vh
import openmdao.api as om
import miso
from miso.pyMISO import PDESolver, MISOSolver
from miso.miso_state import MISOState, MISOMesh
from miso.miso_output import MISOFunctional
from miso.mesh_warper import MISOMeshWarper, MeshWarper
from miso.mphys import miso_builder as mb

MU0 = 4e-7 * np.pi

def pick(x): return x[vh.irand(0, len(x) - 1)]
def rvec(n, a=-1.0, b=1.0): return np.array([vh.uni(a, b) for _ in range(n)])
def big(x): return float(np.max(np.abs(x))) if np.size(x) else 0.0
def same(a, b, tol, name, floor=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not vh.check(a.shape == b.shape, name + "-size"): return
    vh.near(big(a - b), 0.0, tol * (floor + max(big(a), big(b))), name) if a.size else None

# ------------------------------------------------------------------ problems
def solvers(n):
    lin = {"type": pick(["gmres", "fgmres"]), "printlevel": -1, "maxiter": n, "abstol": 1e-15, "reltol": 1e-14, "kdim": n}
    return {"silent": True, "print-options": False, "paraview": {"log": False}, "lin-solver": lin, "adj-solver": dict(lin),
            "nonlin-solver": {"type": "newton", "printlevel": -1, "maxiter": 6, "reltol": 1e-12, "abstol": 1e-12, "abort": False},
            "lin-prec": {"type": pick(["hypreboomeramg", "none"]), "printlevel": 0}}

def some(x):
    r = [i for i in x if vh.coin()]
    return r or [pick(x)]

class Problem: pass

def problem(kind=None):
    """solver options on a random plane mesh, and the values of the inputs the solver takes"""
    P = Problem(); P.kind = kind or pick(["thermal", "magnetostatic"]); vh.note("kind", P.kind); vh.count(P.kind)
    P.file = os.path.abspath("mesh.mesh"); P.h, P.order, att, bdr = vh.mesh(P.file, 2); P.att, P.bdr = att, bdr
    p = vh.irand(1, 2); vh.note("degree", str(p))
    o = P.options = solvers(300); o["mesh"] = {"file": P.file, "refine": 0}; o["space-dis"] = {"basis-type": pick(["h1", "H1"]), "degree": p}
    P.inputs = {}; comps = o["components"] = {}
    ess = some(bdr); bc = o["bcs"] = {"essential": ess}; rest = [b for b in bdr if b not in ess]
    for i in att:
        mat = {"name": "m%d" % i, "rho": vh.uni(0.5, 8)}
        if P.kind == "thermal": mat["kappa"] = vh.uni(0.3, 4)
        else:
            mat["mu_r"] = 1 / (MU0 * vh.uni(0.3, 3))
            if vh.coin(0.3):
                mat.update(alpha_B_r=vh.uni(-20, 20), T_ref=vh.uni(-2, 2), B_r_T_ref=vh.uni(0.3, 1)); o.setdefault("magnets", {}).setdefault(mat["name"], {}).setdefault(pick(["x", "y", "north"]), []).append(i)
            if vh.coin(0.6):
                g = pick(["phaseA", "phaseB"]); o.setdefault("current", {}).setdefault(g, {}).setdefault(pick(["z", "-z"]), []).append(i); P.inputs["current_density:" + g] = vh.uni(-3, 3)
        comps["c%d" % i] = {"attrs": [i], "material": mat}
    if P.kind == "thermal" and rest:
        if vh.coin(0.6): bc["convection"] = {"attrs": [rest[0]], "h": vh.uni(0.5, 5), "fluid_temp": vh.uni(-2, 2)}; P.inputs["h"] = vh.uni(0.5, 5); P.inputs["fluid_temp"] = vh.uni(-2, 2)
        if len(rest) > 1: bc["outflux"] = {"attrs": [rest[1]], "flux": vh.uni(-2, 2)}; P.inputs["outflux"] = vh.uni(-2, 2)
    if P.kind != "thermal" and vh.coin(): o["external-fields"] = {"temperature": {"basis-type": "h1", "degree": 1, "num-states": 1}}
    return P

def build(P):
    kw = {"comm": vh.comm()} if vh.coin() else {}
    t = P.kind if vh.coin() else {"type": P.kind}
    given, kept = P.options, copy.deepcopy(P.options)
    P.solver = PDESolver(type=t, solver_options=given, **kw) if vh.coin() else PDESolver(t, given, **kw)
    vh.check(given == kept, "options-left-alone")
    s = P.solver; P.n = s.getStateSize(); P.x0 = np.zeros(s.getFieldSize("mesh_coords")); s.getMeshCoordinates(P.x0)
    P.inputs["mesh_coords"] = P.x0 + (rvec(P.x0.size, -0.02, 0.02) * P.h / P.order if vh.coin() else 0)
    P.inputs["dirichlet_bc"] = rvec(P.n)
    if P.kind == "thermal":
        if vh.coin(): P.inputs["thermal_load"] = rvec(s.getFieldSize("thermal_load") or P.n)
    elif "magnets" in P.options or "external-fields" in P.options: P.inputs["temperature"] = rvec(s.getFieldSize("temperature"), -2, 2)
    return P.n <= 220

# ------------------------------------------------------------- running things
def vectors(comp, values):
    """inputs and outputs of a component as OpenMDAO lays them out"""
    return om.Vector({k: values.get(k, np.zeros(np.size(v["val"]) if v["val"] is not None else np.size(values[k]))) for k, v in comp.ins.items()}), om.Vector({k: values.get(k, v["val"]) for k, v in comp.outs.items()})
def zeros(v, keys=None): return om.Vector({k: np.zeros(v[k].size) for k in v if keys is None or k in keys})
def randoms(v, keys=None): return om.Vector({k: rvec(v[k].size) for k in v if keys is None or k in keys})

class Watch:
    """nothing outside of what a call may write changes"""
    def __init__(self, name, *vs): self.name, self.vs, self.kept = name, vs, [v.data.copy() for v in vs]
    def __enter__(self): return self
    def __exit__(self, t, *a):
        if t is None: vh.check(all(np.array_equal(v.data, k) for v, k in zip(self.vs, self.kept)), self.name)

def scale_of(name, P): return P.h / P.order if "mesh_coords" in name or name.startswith("x_") else 1.0

def motions(f):
    """a motion of the mesh may turn an element inside out, which is refused"""
    def g():
        try: f()
        except RuntimeError as e:
            if "inverted elements" not in str(e): raise
            vh.trivial(); vh.count("inverted-meshes")
    return g

@motions
def state():
    P = problem()
    if not build(P): vh.trivial(); return
    dep = [k for k in P.inputs if k == "dirichlet_bc" or vh.coin(0.8)]; vh.note("depends", "+".join(dep))
    C = MISOState(solver=P.solver, depends=list(dep)); C.setup()
    vh.check(set(C.ins) == set(dep) and set(C.outs) == {"state"}, "variables-declared")
    for k in dep: vh.check(np.size(C.ins[k]["val"]) == np.size(P.inputs[k]), "input-shapes", k)
    vh.check(np.size(C.outs["state"]["val"]) == P.n, "state-shape")
    vh.check(all(C.ins[k]["tags"] == (["mphys_coordinates"] if k == "mesh_coords" else ["mphys_coupling"] if k in P.options.get("external-fields", {}) else ["mphys_input"]) for k in dep), "input-tags")
    given = {k: P.inputs[k] for k in dep}; i, o = vectors(C, given); r = zeros(o)
    # what is not an input keeps the value it last had: this fixes those first
    ess = essential(P)
    u0 = rvec(P.n); o["state"] = u0
    with Watch("inputs-unchanged", i): C.solve_nonlinear(i, o)
    u = o["state"].copy()
    with Watch("inputs-unchanged", i, o): C.apply_nonlinear(i, o, r)
    vh.near(big(r["state"]), 0, 1e-8 * (1 + big(u)) * 30, "solution-satisfies-residual"); vh.count("solves")
    if "dirichlet_bc" in dep and ess.any(): same(u[ess], P.inputs["dirichlet_bc"][ess], 1e-9, "essential-values", 1)
    o["state"] = rvec(P.n)
    with Watch("inputs-unchanged", i): C.solve_nonlinear(i, o)
    same(o["state"], u, 1e-7, "independent-of-the-guess", 1)
    # the same through the solver itself
    d, y = dict(given), rvec(P.n); P.solver.solveForState(d, y); same(y, u, 1e-7, "as-the-solver-itself", 1)
    # residual away from the solution
    w = rvec(P.n); o["state"] = w; r["state"] = 1e9
    with Watch("inputs-unchanged", i, o): C.apply_nonlinear(i, o, r)
    d = dict(given); d["state"] = w; q = np.zeros(P.n); P.solver.calcResidual(d, q); same(r["state"], q, 1e-12, "residual-as-the-solver-itself"); vh.near(P.solver.calcResidualNorm(d), float(np.linalg.norm(q)), 1e-10 * (1 + big(q) * P.n), "residual-norm")
    if vh.coin(): o["state"] = u
    here = o["state"].copy()
    def residual(ins, st):
        a, b = om.Vector({k: ins[k] for k in i}), om.Vector({"state": st}); q = zeros(o); C.apply_nonlinear(a, b, q); return q["state"].copy()
    if vh.coin(): C.apply_nonlinear(i, o, r)
    C.linearize(i, o, r)
    keys = [k for k in dep if vh.coin(0.7)]; with_state = vh.coin(0.7)
    # forward and reverse products: accumulated, and derivatives of the residual
    psi, jv, vj = rvec(P.n), {}, {}
    fwd_ok = True
    for k in keys + (["state"] if with_state else []):
        di, do, dr = om.Vector({}), om.Vector({}), randoms(r); base = dr["state"].copy()
        v = om.Vector({k: rvec(np.size(here if k == "state" else given[k])) * scale_of(k, P)})
        if k == "state": do = v
        else: di = v
        try:
            with Watch("forward-seeds-unchanged", i, o, v): C.apply_linear(i, o, di, do, dr, "fwd")
            jv[k] = (v[k].copy(), dr["state"] - base); vh.count("forward-products")
        except NotImplementedError:
            same(dr["state"], base, 0, "refused-product-leaves-residual"); vh.count("forward-refusals"); fwd_ok = False; jv[k] = (v[k].copy(), None)
        vh.check(v.intact() and dr.intact(), "stays-in-its-slices")
    di, do, dr = om.Vector({k: rvec(np.size(given[k])) for k in keys}), om.Vector({"state": rvec(P.n)} if with_state else {}), om.Vector({"state": psi}); b = {k: di[k].copy() for k in di}; b.update({k: do[k].copy() for k in do})
    with Watch("reverse-seeds-unchanged", i, o, dr): C.apply_linear(i, o, di, do, dr, "rev")
    vh.check(di.intact() and do.intact() and dr.intact(), "stays-in-its-slices"); vh.count("reverse-products")
    for k in keys: vj[k] = di[k] - b[k]
    if with_state: vj["state"] = do["state"] - b["state"]
    rng = {}
    for k, (v, t) in jv.items():
        def along(e, k=k, v=v):
            if k == "state": return float(psi @ residual(given, here + e * v))
            g2 = dict(given); g2[k] = g2[k] + e * (v if np.size(g2[k]) > 1 else v[0]); return float(psi @ residual(g2, here))
        vh.derivative(float(vj[k] @ v), along, "reverse-product-wrt-" + k.split(":")[0], 0.1, 1e-2, 1e-3); vh.count("wrt-" + k.split(":")[0])
        if t is not None:
            vh.near(float(psi @ t), float(vj[k] @ v), 1e-9 * (1 + big(psi) * np.sum(np.abs(t)) + big(v) * np.sum(np.abs(vj[k]))), "products-agree-wrt-" + k.split(":")[0])
    # the adjoint; a vanishing right-hand side has a vanishing solution
    C.apply_nonlinear(i, o, r) if vh.coin() else None; C.linearize(i, o, r); bar, dr = om.Vector({"state": rvec(P.n)}), om.Vector({"state": rvec(P.n)})
    if not with_state:
        with Watch("adjoint-keeps-its-right-hand-side", bar, i, o): C.solve_linear(bar, dr, "rev")
        di, do = om.Vector({}), om.Vector({"state": np.zeros(P.n)}); C.apply_linear(i, o, di, do, dr, "rev")
        same(do["state"], bar["state"], 1e-7, "adjoint-satisfies-the-transposed-system", 1e-2 * (1 + big(dr["state"]))); vh.count("adjoints")
    if vh.coin(0.3):
        bar["state"] = 0.0; dr["state"] = rvec(P.n); C.solve_linear(bar, dr, "rev"); vh.near(big(dr["state"]), 0, 1e-12, "adjoint-of-nothing"); vh.count("vanishing-right-hand-sides")
    if vh.coin(0.3):
        try: C.solve_linear(bar, dr, "fwd"); vh.check(False, "forward-solve-refused")
        except NotImplementedError: vh.count("forward-solve-refusals")

def essential(P):
    """the entries of the state that the essential conditions fix: those of the transposed Jacobian's identity rows"""
    r = np.zeros(P.n); s = P.solver; d = {"state": rvec(P.n), "dirichlet_bc": rvec(P.n), "mesh_coords": P.inputs["mesh_coords"]}; s.calcResidual(d, r); d2 = dict(d); d2["dirichlet_bc"] = d["dirichlet_bc"] + 1.0; q = np.zeros(P.n); s.calcResidual(d2, q); d["dirichlet_bc"] = P.inputs["dirichlet_bc"]; d["state"] = np.zeros(P.n); s.calcResidual({**P.inputs, "state": np.zeros(P.n)}, q.copy())
    return np.abs(np.abs(q - r) - 1.0) < 1e-12

def outputs_of(P):
    if P.kind == "thermal": return pick([("average_state", None), ("average_state_here", {"state": "state"}), ("max_state", {"rho": vh.uni(2, 10)}), ("thermal_flux", {"attributes": some(P.bdr)})])
    return pick([("energy", None), ("energy", {"attributes": some(P.att)}), ("average_flux_magnitude", None), ("flux_magnitude", None), ("max_flux_magnitude", {"rho": vh.uni(1, 4)}), ("max_state", {"rho": vh.uni(1, 4)}), ("volume", None), ("mass", None)])

@motions
def functional():
    P = problem()
    if not build(P): vh.trivial(); return
    s = P.solver; name, opt = outputs_of(P); vh.note("output", name); vh.count("output-" + name)
    geo = name in ("volume", "mass"); u = rvec(P.n); dep = ["mesh_coords"] if geo else ["state"] if name == "thermal_flux" else pick([["state"], ["mesh_coords", "state"], ["state", ("mesh_coords", "x_vol")]]); names = [d if isinstance(d, str) else d[0] for d in dep]
    C = MISOFunctional(solver=s, func=name, func_options=opt, depends=dep); C.setup(); m = s.getOutputSize(name)
    vh.check(set(C.ins) == set(names) and set(C.outs) == {name} and np.size(C.outs[name]["val"]) == m, "variables-declared"); vh.check(C.outs[name]["tags"] == (["mphys_result"] if m == 1 else ["mphys_coupling"]), "output-tags")
    vals = {"state": u, "mesh_coords": P.inputs["mesh_coords"]}; given = {k: vals[k] for k in names}; i, o = vectors(C, given); o[name] = 1e9
    with Watch("inputs-unchanged", i): C.compute(i, o)
    v0 = o[name].copy(); vh.check(o.intact() and i.intact(), "stays-in-its-slices")
    q = np.zeros(m); s.calcOutput(name, given, q); same(v0, q, 1e-12, "output-as-the-solver-itself", 1e-12)
    if m == 1: vh.near(s.calcOutput(name, given), v0[0], 1e-12 * (1 + abs(v0[0])), "output-as-a-number"); vh.count("scalar-outputs")
    else: vh.count("vector-outputs")
    # others in between do not matter
    C2 = MISOFunctional(solver=s, func="max_state_other", func_options={"rho": 3.0}, depends=["state"]); C2.setup(); i2, o2 = vectors(C2, {"state": rvec(P.n)}); C2.compute(i2, o2)
    o[name] = -5; C.compute(i, o); same(o[name], v0, 1e-12, "value-is-repeatable", 1e-12)
    def value(k, x):
        a = om.Vector({n: x if n == k else given[n] for n in names}); b = zeros(o); C.compute(a, b); return b[name].copy()
    bar = rvec(m); di, do = om.Vector({k: rvec(given[k].size) for k in names if vh.coin(0.8)}), om.Vector({name: bar}); b = {k: di[k].copy() for k in di}
    with Watch("reverse-seeds-unchanged", i, do): C.compute_jacvec_product(i, di, do, "rev")
    vh.check(di.intact() and do.intact(), "stays-in-its-slices")
    for k in di:
        t = di[k] - b[k]; w = rvec(t.size) * scale_of(k, P); vh.derivative(float(t @ w), lambda e: float(bar @ value(k, given[k] + e * w)), "reverse-product-wrt-" + k, 1e-2 * (1 + abs(float(bar @ v0))), 4e-3, 1e-3); vh.count("reverse-wrt-" + k)
        f = om.Vector({k: w}); df = om.Vector({name: rvec(m)}); base = df[name].copy()
        try:
            with Watch("forward-seeds-unchanged", i, f): C.compute_jacvec_product(i, f, df, "fwd")
        except NotImplementedError:
            same(df[name], base, 0, "refused-product-leaves-output"); vh.count("forward-refusals"); continue
        vh.near(float(bar @ (df[name] - base)), float(t @ w), 1e-9 * (1e-2 + np.sum(np.abs(t)) * big(w) + np.sum(np.abs(df[name]))), "products-agree-wrt-" + k); vh.check(f.intact() and df.intact(), "stays-in-its-slices"); vh.count("forward-wrt-" + k)

def warper_options(P_file, order):
    lin = {"type": "pcg", "printlevel": -1, "maxiter": 400, "abstol": 1e-15, "reltol": 1e-15}
    return {"silent": True, "print-options": False, "mesh": {"file": P_file}, "space-dis": {"basis-type": "H1", "degree": order}, "lin-solver": lin, "adj-solver": dict(lin), "nonlin-solver": {"type": "newton", "printlevel": -1, "maxiter": vh.irand(1, 3), "reltol": 1e-13, "abstol": 1e-13}, "lin-prec": {"printlevel": -1}, "bcs": {"essential": "all"}}

def make_warper(dim=2):
    f = os.path.abspath("warp.mesh"); h, order, att, bdr = vh.mesh(f, dim); o = warper_options(f, order)
    return MeshWarper(warper_options=o, comm=vh.comm()) if vh.coin() else MeshWarper(o), h, order

def warper():
    W, h, order = make_warper(2 if vh.coin(0.8) else 3); n, ns = W.getVolumeCoordsSize(), W.getSurfaceCoordsSize()
    if n > 400: vh.trivial(); return
    C = MISOMeshWarper(warper=W); C.setup(); vh.check(set(C.ins) == {"surf_mesh_coords"} and set(C.outs) == {"vol_mesh_coords"}, "variables-declared")
    x0, s0 = np.zeros(n), np.zeros(ns); W.getInitialVolumeCoords(x0); W.getInitialSurfaceCoords(s0); idx = np.zeros(ns, dtype=np.int32); W.getSurfCoordIndices(idx)
    same(C.ins["surf_mesh_coords"]["val"], s0, 0, "surface-starts-where-it-is"); same(C.outs["vol_mesh_coords"]["val"], x0, 0, "volume-starts-where-it-is"); same(x0[idx], s0, 0, "surface-indices"); vh.check(len(set(idx.tolist())) == ns, "surface-indices-differ")
    for k in range(vh.irand(1, 3)):
        s = s0 + rvec(ns, -0.1, 0.1) * h; i, o = vectors(C, {"surf_mesh_coords": s}); r = zeros(o)
        if vh.coin(0.3): o["vol_mesh_coords"] = x0 + rvec(n)
        with Watch("inputs-unchanged", i): C.solve_nonlinear(i, o)
        x = o["vol_mesh_coords"].copy(); same(x[idx], s, 1e-12, "surface-follows", 1); same(C.ins["surf_mesh_coords"]["val"], s0, 0, "initial-surface-kept")
        with Watch("inputs-unchanged", i, o): C.apply_nonlinear(i, o, r)
        vh.near(big(r["vol_mesh_coords"]), 0, 1e-7 * (1 + big(x)), "solution-satisfies-residual"); vh.count("solves")
        if vh.coin(): o["vol_mesh_coords"] = rvec(n)
        here = o["vol_mesh_coords"].copy(); C.apply_nonlinear(i, o, r); C.linearize(i, o, r)
        def residual(a, b): q = zeros(o); C.apply_nonlinear(om.Vector({"surf_mesh_coords": a}), om.Vector({"vol_mesh_coords": b}), q); return q["vol_mesh_coords"].copy()
        # linear in both
        dx, ds, psi = rvec(n), rvec(ns), rvec(n); Jx, Js = residual(s, here + dx) - residual(s, here), residual(s + ds, here) - residual(s, here); C.apply_nonlinear(i, o, r) if vh.coin() else None; C.linearize(i, o, r)
        for di, do, want in ((om.Vector({}), om.Vector({"vol_mesh_coords": dx}), Jx), (om.Vector({"surf_mesh_coords": ds}), om.Vector({}), Js), (om.Vector({"surf_mesh_coords": ds}), om.Vector({"vol_mesh_coords": dx}), Js + Jx)):
            dr = randoms(r); base = dr["vol_mesh_coords"].copy()
            with Watch("forward-seeds-unchanged", i, o, di, do): C.apply_linear(i, o, di, do, dr, "fwd")
            same(dr["vol_mesh_coords"] - base, want, 1e-9, "forward-product", 1 + big(here)); vh.check(dr.intact(), "stays-in-its-slices")
        for both in (True, False):
            di, do, dr = om.Vector({"surf_mesh_coords": rvec(ns)}), om.Vector({"vol_mesh_coords": rvec(n)} if both else {}), om.Vector({"vol_mesh_coords": psi}); b, bo = di["surf_mesh_coords"].copy(), do["vol_mesh_coords"].copy() if both else None
            with Watch("reverse-seeds-unchanged", i, o, dr): C.apply_linear(i, o, di, do, dr, "rev")
            t = di["surf_mesh_coords"] - b; vh.near(float(t @ ds), float(psi @ Js), 1e-9 * (1 + n * (1 + big(here))), "reverse-product-wrt-surface"); vh.check(di.intact() and do.intact() and dr.intact(), "stays-in-its-slices")
            if both: vh.near(float((do["vol_mesh_coords"] - bo) @ dx), float(psi @ Jx), 1e-9 * (1 + n * (1 + big(here))), "reverse-product-wrt-volume")
        vh.count("products")
        # the adjoint gives the total derivative of anything linear in the volume
        bar, dr = om.Vector({"vol_mesh_coords": rvec(n)}), om.Vector({"vol_mesh_coords": rvec(n)}); C.linearize(i, o, r)
        with Watch("adjoint-keeps-its-right-hand-side", bar, i, o): C.solve_linear(bar, dr, "rev")
        di = om.Vector({"surf_mesh_coords": np.zeros(ns)}); C.apply_linear(i, o, di, om.Vector({}), dr, "rev")
        def J(a): oo = om.Vector({"vol_mesh_coords": x0}); C.solve_nonlinear(om.Vector({"surf_mesh_coords": a}), oo); return float(bar["vol_mesh_coords"] @ oo["vol_mesh_coords"])
        d = rvec(ns) * h; vh.near(-float(di["surf_mesh_coords"] @ d), (J(s + 0.5 * d) - J(s - 0.5 * d)), 1e-7 * (1 + n * (1 + big(x))), "total-derivative"); vh.count("totals")
        try: C.solve_linear(bar, dr, "fwd"); vh.check(False, "forward-solve-refused")
        except NotImplementedError: pass

# --------------------------------------------------------------- whole models
def leaves(group, names=None):
    """(component, {inner name: outer name}) in order"""
    group.setup(); res = []
    for nm, sub, pi, po in getattr(group, "subs", []):
        sub.setup(); inner = {}
        for lst, known in ((pi, sub.ins), (po, sub.outs)):
            for p in lst:
                a, b = p if isinstance(p, tuple) else (p, p)
                vh.check(a in known, "promoted-variables-exist", str(p)); inner[a] = b
        for k in list(sub.ins) + list(sub.outs): inner.setdefault(k, nm + "." + k)
        res.append((sub, inner))
    return res

class Model:
    def __init__(self, parts): self.parts = parts
    def run(self, given):
        v = dict(given)
        for c, nm in self.parts:
            if isinstance(c, om.IndepVarComp):
                for k in c.outs: v.setdefault(nm[k], c.outs[k]["val"].copy())
                continue
            i = om.Vector({k: v[nm[k]] for k in c.ins}); o = om.Vector({k: v.get(nm[k], c.outs[k]["val"]) for k in c.outs})
            (c.compute if isinstance(c, om.ExplicitComponent) else c.solve_nonlinear)(i, o)
            for k in c.outs: v[nm[k]] = o[k].copy()
        return v
    def gradient(self, v, seed):
        bar = {k: np.zeros(np.size(x)) for k, x in v.items()}; bar.update(seed)
        for c, nm in self.parts:
            if isinstance(c, om.ImplicitComponent):
                i = om.Vector({k: v[nm[k]] for k in c.ins}); o = om.Vector({k: v[nm[k]] for k in c.outs}); c.linearize(i, o, zeros(o))
        for c, nm in reversed(self.parts):
            if isinstance(c, om.IndepVarComp): continue
            i = om.Vector({k: v[nm[k]] for k in c.ins}); o = om.Vector({k: v[nm[k]] for k in c.outs}); do = om.Vector({k: bar[nm[k]] for k in c.outs}); di = zeros(i)
            if isinstance(c, om.ExplicitComponent): c.compute_jacvec_product(i, di, do, "rev")
            else:
                dr = zeros(o); c.solve_linear(do, dr, "rev"); c.apply_linear(i, o, di, om.Vector({}), dr, "rev")
                for k in c.ins: di[k] *= -1
            for k in c.ins: bar[nm[k]] = bar[nm[k]] + di[k]
        return bar

@motions
def builder():
    P = problem(); use = vh.coin(0.7); vh.note("warper", str(use)); scal = [k for k in P.inputs if vh.coin(0.8)]; tag = "conduct" if P.kind == "thermal" else "em"
    name, opt = outputs_of(P)
    while name in ("flux_magnitude", "thermal_flux"): name, opt = outputs_of(P)
    vh.note("output", name); dep = ["mesh_coords"] if name in ("volume", "mass") else ["mesh_coords", "state"]; key, shown = (("user_" + name, name), "user_" + name) if vh.coin(0.4) else (name, name); out = {key: {"depends": list(dep)}}
    if opt: out[key]["options"] = opt
    second = "max_state_second"; out[second] = {"options": {"rho": 2.0}, "depends": ["state", "mesh_coords"]}
    given_o = copy.deepcopy(P.options); kept = copy.deepcopy(out)
    wo, ins = warper_options(P.file, P.order), list(scal) + ["dirichlet_bc"]; B = mb.MISOBuilder(P.kind, P.options, ins, "miso" if use else None, wo, out, check_partials=False)
    # what was given may be used for something else afterwards
    P.options["bcs"].clear(); P.options["space-dis"]["degree"] = 7; wo["mesh"].clear(); ins.clear()
    B.initialize(vh.comm()); P.options.clear(); P.options.update(given_o); vh.check(out == kept, "outputs-left-alone")
    s = B.solver; n = s.getStateSize()
    if n > 200: vh.trivial(); return
    vh.check(B.get_ndof() == s.getNumStates() and B.get_number_of_nodes() * B.get_ndof() == n and B.get_ndof() == 1, "sizes")
    x0 = np.zeros(s.getFieldSize("mesh_coords")); s.getMeshCoordinates(x0)
    given = {k: P.inputs[k] for k in scal}; given["dirichlet_bc"] = rvec(n); parts = []
    if use:
        mesh = leaves(B.get_mesh_coordinate_subsystem("s")) ; m0 = None
        for c, nm in mesh:
            for q in getattr(c, "subs", []): pass
            vh.check("x_%s0" % tag in c.outs and nm["x_%s0" % tag] == "x_%s0" % tag, "mesh-variable"); m0 = c.outs["x_%s0" % tag]["val"]
        ns = B.warper.getSurfaceCoordsSize(); s0 = np.zeros(ns); B.warper.getInitialSurfaceCoords(s0); same(m0, s0, 0, "mesh-starts-where-it-is"); given["x_" + tag] = s0 + (rvec(ns, -0.02, 0.02) * P.h / P.order if vh.coin(0.8) else 0)
        parts += leaves(B.get_pre_coupling_subsystem("s")); vh.count("with-warper")
    else:
        vh.check(leaves(B.get_pre_coupling_subsystem("s")) == [], "no-warper-no-motion"); given["x_%s_vol" % tag] = x0 + rvec(x0.size, -0.02, 0.02) * P.h / P.order; vh.count("without-warper")
        try: leaves(B.get_mesh_coordinate_subsystem("s")); vh.check(False, "mesh-without-warper-refused")
        except NotImplementedError: pass
    parts += leaves(B.get_coupling_group_subsystem("s")) + leaves(B.get_post_coupling_subsystem("s")); M = Model(parts); v = M.run(given)
    vh.check(shown in v and second in v and tag + "_state" in v, "promoted-names")
    # the same by hand
    solver = PDESolver(P.kind, P.options, vh.comm()); xv = v["x_%s_vol" % tag]; u = rvec(n); d = {k: given[k] for k in scal}; d["dirichlet_bc"] = given["dirichlet_bc"]; d["mesh_coords"] = xv.copy(); solver.solveForState(d, u); same(v[tag + "_state"], u, 1e-7, "state-as-by-hand", 1)
    (solver.createOutput(name, opt) if opt else solver.createOutput(name)); w = solver.calcOutput(name, {"state": u, "mesh_coords": xv.copy()}); vh.near(v[shown][0], w, 1e-6 * (1 + abs(w)), "output-as-by-hand"); vh.count("models")
    # totals through the whole model
    a, b = vh.uni(0.5, 1), vh.uni(-1, 1); bar = M.gradient(v, {shown: np.array([a]), second: np.array([b])})
    for k in [k for k in given if vh.coin(0.7)]:
        d = rvec(np.size(given[k])) * scale_of(k, P)
        def J(e): q = M.run({**given, k: given[k] + e * (d if np.size(given[k]) > 1 else d[0])}); return float(a * q[shown][0] + b * q[second][0])
        vh.derivative(float(bar[k] @ d), J, "total-wrt-" + k.split(":")[0], 1e-2 * (1 + abs(J(0.0))), 1e-2, 1e-3); vh.count("total-wrt-" + k.split(":")[0])

# ------------------------------------------------------------------- bindings
def junk(depth=0, key=False):
    k = vh.irand(0, 8 if depth < 3 else 5)
    if k == 0: return None if depth and not key else 0
    if k == 1: return vh.coin()
    if k == 2: return pick([0, 1, -1, 7, 2**31, -2**31 - 1, 2**53 + 1, 2**62 + 1, -2**63, 2**63 - 1])
    if k == 3: return pick([0.0, 1.0, -2.0, 0.1, 1e-300, 1e20, -3e25, 1e300, 2.0**63, vh.uni(-1, 1), vh.logu(1e-10, 1e30)])
    if k in (4, 5): return pick(["", "a", "name", "with space", "\u00e9\u4e2d", "quote\"back\\slash"])
    if k == 6: return [junk(depth + 1) for _ in range(vh.irand(0, 3))]
    if k == 7: return tuple(junk(depth + 1) for _ in range(vh.irand(0, 2)))
    return {pick(["a", "b", "c", "k-%d" % vh.irand(0, 99)]): junk(depth + 1, True) for _ in range(vh.irand(0, 3))}
def plain(x): return [plain(i) for i in x] if isinstance(x, (list, tuple)) else {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else x
def alike(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None: return a is b
    return a == b
def refused(f, *kinds):
    try: f()
    except kinds: vh.count("refusals"); return True
    return False

@motions
def bindings():
    P = problem(); extra = junk(); P.options["extra-of-the-user"] = extra
    if not build(P): vh.trivial(); return
    s = P.solver; got = s.getOptions(); back = got.get("extra-of-the-user", "missing"); vh.note("extra", repr(extra)); vh.check(alike(plain(extra), back), "options-come-back", repr(extra)[:150] + " as " + repr(back)[:150])
    for k in ("space-dis", "bcs", "components"): vh.check(all(q in got[k] and alike(plain(P.options[k][q]), got[k][q]) for q in P.options[k]), "options-come-back-" + k)
    vh.check(got["solver-type"] == {"type": P.kind}, "solver-type-recorded"); got["bcs"] = 5; vh.check(s.getOptions()["bcs"] != 5, "options-are-a-copy"); vh.count("option-trees")
    vh.check(isinstance(s, MISOSolver) and s.getNumStates() == 1 and s.getFieldSize("state") == P.n and s.getFieldSize("no-such-field") == 0, "sizes")
    # the coordinates of the mesh
    C = MISOMesh(solver=s); C.setup(); nm = "x_conduct0" if P.kind == "thermal" else "x_em0"; vh.check(list(C.outs) == [nm] and C.outs[nm]["tags"] == ["mphys_coordinates"], "mesh-variable"); same(C.outs[nm]["val"], P.x0, 0, "mesh-starts-where-it-is")
    # functions of a point
    a, b = vh.uni(-2, 2), vh.uni(-2, 2); f = lambda x: a * x[0] + b * x[1] + 0.5; u = np.zeros(P.n); s.setState(f, u) if vh.coin() else s.setState(fun=f, state=u, name="state")
    vh.near(s.calcStateError(f, u), 0, 1e-9 * (1 + big(u)) if P.order == 1 or P.options["space-dis"]["degree"] > 1 else 1e9, "error-of-an-exact-state"); w = u + 1.0; e1 = s.calcStateError(f, w); vh.count("states-set")
    if P.order == 1:
        g = lambda x: f(x) + 1.0; vh.near(s.calcStateError(g, w), 0, 1e-9 * (2 + big(u)), "error-of-a-shifted-state"); vh.near(s.calcStateError(ex_sol=g, state=u), e1, 1e-9 * (1 + e1), "error-of-a-shift-is-symmetric")
        if P.kind == "thermal": s.createOutput("average_state"); av = s.calcOutput("average_state", {"state": w}) - s.calcOutput("average_state", {"state": u}); vh.near(av, 1.0, 1e-9 * (1 + big(u)), "average-of-a-shift")
    # arrays as they come
    st = rvec(P.n); base = np.zeros(P.n); ins = dict(P.inputs); ins["state"] = st; s.calcResidual(ins, base)
    wide = np.zeros(2 * P.n); wide[::2] = st; q = np.full(P.n, 7.0)
    vh.check(refused(lambda: s.calcResidual({**ins, "state": wide[::2]}, q), RuntimeError), "strided-input-refused"); same(q, np.full(P.n, 7.0), 0, "refused-call-writes-nothing")
    vh.check(refused(lambda: s.calcResidual({**ins, "state": st.reshape(1, -1)}, q), RuntimeError), "matrix-input-refused"); same(q, np.full(P.n, 7.0), 0, "refused-call-writes-nothing")
    hold = np.zeros(2 * P.n); vh.check(refused(lambda: s.calcResidual(ins, hold[::2]), RuntimeError), "strided-output-refused"); vh.check(not hold.any(), "refused-call-writes-nothing")
    part = np.full(P.n + 6, 3.5); s.calcResidual(ins, part[3:-3]); same(part[3:-3], base, 1e-13, "slices-of-arrays"); vh.check(bool(np.all(part[:3] == 3.5) and np.all(part[-3:] == 3.5)), "stays-in-its-slices")
    # another type of number: refused, or as good as doubles
    kind = pick([np.int64, np.float32, np.int32]); other = np.array([vh.irand(-3, 3) for _ in range(P.n)], dtype=kind); q1, q2 = np.zeros(P.n), np.zeros(P.n); s.calcResidual({**ins, "state": other.astype(float)}, q2)
    try: s.calcResidual({**ins, "state": other}, q1); junkmem = [np.full(P.n, 1e33) for _ in range(20)]; same(q1, q2, 1e-12, "arrays-of-other-numbers", 1); vh.count("converted-arrays"); del junkmem
    except (RuntimeError, TypeError): vh.count("refused-arrays")
    # one number is one number however it is written
    for k in [k for k in P.inputs if np.size(P.inputs[k]) == 1]:
        s.calcResidual({**ins, k: float(ins[k])}, q1); s.calcResidual({**ins, k: np.array([ins[k]])}, q2); same(q1, q2, 0, "numbers-and-arrays-of-one"); i = vh.irand(-2, 2) or 1; s.calcResidual({**ins, k: i}, q1); s.calcResidual({**ins, k: float(i)}, q2); same(q1, q2, 0, "whole-numbers"); vh.count("numbers")
    # what is not there is refused with the exception meant for it
    vh.check(refused(lambda: PDESolver("no-such-physics", P.options), RuntimeError), "unknown-physics-refused"); vh.check(refused(lambda: s.createOutput("temperature_of_the_moon"), RuntimeError), "unknown-output-refused"); vh.check(refused(lambda: s.calcOutput("never_made", ins), RuntimeError), "missing-output-refused")
    vh.check(refused(lambda: s.calcResidual(5, q), TypeError, RuntimeError), "wrong-arguments-refused"); vh.check(refused(lambda: PDESolver(P.kind, {"mesh": object()}), TypeError), "unknown-options-refused")
