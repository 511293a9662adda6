"""P16: a scene file is refused unless every value it must give is there, can be read and makes sense; what is read goes where it belongs."""
import re
from ..model import models
from ..report import Report
from .. import par
from ..scene import Flow, FULL

RULE = ("disjunctive forward dataflow over every loader: a state records which reads failed, which elements and attributes are absent, which variables are set and between which "
        "bounds a value was found; a state with a failure or a missing required item may only reach a return of failure, an absent item is never followed, an unset variable never used, "
        "an unknown name never accepted, accepted values lie in their stated range, and each value reaches the constructor argument or setting it is for")

OPTIONAL = {("rigidbody2d", "rigid_body", "fixed"), ("rigidbody3d", "rigid_body_with_density", "R")}
# sections of a scene that may be left out
SECTIONS = {"camera", "camera_orthographic", "camera_perspective", "end_time", "gravity", "near_earth_gravity", "impact_operator", "lees_edwards_portal", "planar_portal", "penalty", "scripting",
            "sobogus_friction_solver", "staggered_projections_friction_solver", "grr_friction_solver", "static_drum", "static_plane", "static_cylinder", "ball", "rigid_body",
            "rigid_body_with_density", "geometry", "simulation_boundary", "static_cylinder_renderer", "static_plane_renderer", "planar_portal_renderer"}
NEEDED = {("ball2d", "integrator"), ("rigidbody3d", "integrator")}

INF = float("inf")
POS, NONNEG, UNIT = (0.0, True, INF, True), (0.0, False, INF, True), (0.0, False, 1.0, False)
RANGE = [(r"(^|\.)CoR(\(\))?$", UNIT, "a coefficient of restitution lies between 0 and 1"), (r"(^|\.)mu(\(\))?$", NONNEG, "a friction coefficient is not negative"),
         (r"end_time\.t$", POS, "an end time is positive"), (r"\.v_tol$", NONNEG, "a velocity tolerance is not negative"), (r"^penalty\.stiffness$", NONNEG, "a stiffness is not negative"),
         (r"_friction_solver\.tol$", NONNEG, "a tolerance is not negative"), (r"^friction_operator\.tol$", NONNEG, "a tolerance is not negative"),
         (r"_friction_solver\.max_iters$", POS, "an iteration limit is positive"), (r"\.eval_every$", POS, "a check interval is positive"),
         (r"\.penetration_threshold$", NONNEG, "a penetration threshold is not negative"), (r"^camera\w*\.scale$", POS, "a camera scale is positive"),
         (r"^camera_perspective\.rho$", POS, "a camera distance is positive"), (r"(^bounds\(\)|portal\.bounds)$", NONNEG, "the bounds of a sheared boundary are not negative"),
         (r"\.rho$", POS, "a density is positive"), (r"^geometry\.[wlD]$", POS, "the dimensions of a shape are positive"), (r"^static_cylinder\.R$", POS, "a radius is positive"),
         (r"^static_cylinder_renderer\.L$", NONNEG, "a rendered length is not negative"), (r"^rigid_body\.geo_idx$", NONNEG, "a shape index is not negative")]
INDEX = [(r"portal\.plane[AB]$", {"<"}, "a boundary names a plane that exists"), (r"^rigid_body\.geo_idx$", {"<"}, "a body names a shape that exists"),
         (r"^rigid_body_with_density\.geo_idx$", {"<", ">="}, "a body names a shape that exists"), (r"^abs:rigid_body_with_density\.geo_idx$", {"<="}, "a body names a shape that exists"),
         (r"_renderer\.(plane|cylinder_idx)$", {"<"}, "a renderer names a plane or cylinder that exists")]

# constructor argument or setting -> the values of the file it is made of (component where it is one of several)
B = {("Ball2DGravityForce", 0): ["gravity.fx@0", "gravity.fy@1"],
     ("PenaltyForce", 0): ["penalty.stiffness"], ("PenaltyForce", 1): ["penalty.potential_power"],
     ("Ball2D", 0): ["ball.x@0", "ball.y@1"], ("Ball2D", 1): ["ball.vx@0", "ball.vy@1"], ("Ball2D", 2): ["ball.m"], ("Ball2D", 3): ["ball.r"],
     ("Ball2D", 4): ["ball.fixed"], ("StaticDrum", 0): ["static_drum.x@0", "static_drum.y@1"], ("StaticDrum", 1): ["static_drum.r"],
     ("StaticPlane", 0): ["static_plane.x"], ("StaticPlane", 1): ["static_plane.n"]}
SOLV = {("BoundConstrainedMDPOperatorQL", 0): ["mdp_friction_solver.tol"], ("GROperator", 0): ["*.v_tol"], ("GaussSeidelOperator", 0): ["*.v_tol"], ("JacobiOperator", 0): ["*.v_tol"],
        ("GeometricImpactFrictionMap", 0): ["*_friction_solver.tol"], ("GeometricImpactFrictionMap", 1): ["*_friction_solver.max_iters"],
        ("StabilizedImpactFrictionMap", 0): ["*_friction_solver.tol"], ("StabilizedImpactFrictionMap", 1): ["*_friction_solver.max_iters"],
        ("SymplecticEulerImpactFrictionMap", 0): ["*_friction_solver.tol"], ("SymplecticEulerImpactFrictionMap", 1): ["*_friction_solver.max_iters"],
        ("SymplecticEulerImpactFrictionMap", 3): ["*_friction_solver.stabilization"], ("SymplecticEulerImpactFrictionMap", 4): ["*_friction_solver.penetration_threshold"],
        ("ImpactMap", 0): ["*.cache_impulses"], ("LCPOperatorAPGD", 0): ["*solver.tol"], ("LCPOperatorAPGD", 1): ["*solver.max_iters"], ("LCPOperatorIpopt", 1): ["*solver.tol"],
        ("LCPOperatorQL", 0): ["*solver.tol"], ("LCPOperatorQLVP", 0): ["*solver.tol"], ("Sobogus", 1): ["*.eval_every"],
        ("StaggeredProjections", 0): ["*.internal_warm_start_alpha"], ("StaggeredProjections", 1): ["*.internal_warm_start_beta"], ("SmoothMDPOperatorIpopt", 1): ["*.tol"]}
PORTAL = {("list of std::pair<unsigned int, unsigned int>", 0): ["*portal.planeA"], ("list of std::pair<unsigned int, unsigned int>", 1): ["*portal.planeB"]}
R2 = {("BoxGeometry", 0): ["geometry.r"], ("CircleGeometry", 0): ["geometry.r"], ("NearEarthGravityForce", 0): ["near_earth_gravity.f"],
      ("RigidBody2DState", 0): ["rigid_body.x", "rigid_body.theta"], ("RigidBody2DState", 1): ["rigid_body.v", "rigid_body.omega"], ("RigidBody2DState", 2): ["rigid_body.rho"],
      ("RigidBody2DState", 3): ["rigid_body.fixed"], ("RigidBody2DState", 4): ["rigid_body.geo_idx"], ("RigidBody2DState", 7): ["static_plane.x", "static_plane.n"],
      ("RigidBody2DStaticPlane", 0): ["static_plane.x"], ("RigidBody2DStaticPlane", 1): ["static_plane.n"]}
W = "rigid_body_with_density."
R3 = {("NearEarthGravityForce", 0): ["near_earth_gravity.f"], ("PlanarPortal", 2): ["planar_portal.multiplier"],
      ("RenderingState.addCylinderRenderer", 0): ["*.cylinder_idx"], ("RenderingState.addCylinderRenderer", 1): ["*.L"], ("RenderingState.addPlaneRenderer", 0): ["*.plane"],
      ("RenderingState.addPlaneRenderer", 1): ["*.r"], ("RenderingState.setFPS", 0): ["*.fps"], ("RenderingState.setLocked", 0): ["*.locked"],
      ("RenderingState.setRenderAtFPS", 0): ["*.render_at_fps"], ("RenderingState.setOrthographicCameraSettings", 0): ["*.projection_plane"],
      ("RenderingState.setOrthographicCameraSettings", 1): ["*.x"], ("RenderingState.setOrthographicCameraSettings", 2): ["*.scale"],
      ("RenderingState.setPerspectvieCameraSettings", 0): ["*.theta"], ("RenderingState.setPerspectvieCameraSettings", 1): ["*.phi"], ("RenderingState.setPerspectvieCameraSettings", 2): ["*.rho"],
      ("RenderingState.setPerspectvieCameraSettings", 3): ["*.lookat"], ("RenderingState.setPerspectvieCameraSettings", 4): ["*.up"],
      ("RigidBody3DState.setBoundaryMax", 0): ["simulation_boundary.max"], ("RigidBody3DState.setBoundaryMin", 0): ["simulation_boundary.min"],
      ("RigidBody3DState.setState", 1): [W + "v"], ("RigidBody3DState.setState", 4): [W + "omega"], ("RigidBody3DState.setState", 6): [W + "fixed"],
      ("RigidBody3DState.setState", 7): [W + "geo_idx"], ("RigidBody3DState.setState", 0): [W + "x", W + "rho"], ("RigidBody3DState.setState", 2): [W + "rho"],
      ("RigidBody3DState.setState", 3): [W + "R", W + "rho"], ("RigidBody3DState.setState", 5): [W + "rho"],
      ("RigidBodyBox", 0): ["geometry.r"], ("RigidBodySphere", 0): ["geometry.r"], ("RigidBodyStaple", 0): ["geometry.w"], ("RigidBodyStaple", 1): ["geometry.l"],
      ("RigidBodyStaple", 2): ["geometry.D"], ("RigidBodyTriangleMesh", 0): ["geometry.filename"],
      ("StaticCylinder", 0): ["static_cylinder.x"], ("StaticCylinder", 1): ["static_cylinder.axis"], ("StaticCylinder", 2): ["static_cylinder.R"],
      ("StaticPlane", 0): ["static_plane.x"], ("StaticPlane", 1): ["static_plane.n"]}
PLACES = {"ball2d": {**B, **SOLV, **PORTAL}, "rigidbody2d": {**R2, **SOLV, **PORTAL}, "rigidbody3d": {**R3, **SOLV, **PORTAL}}
# settings that are handed back separately
APART = ["CoR", "mu", "end_time.t", "integrator.dt", "scripting.callback"]


def attr(d):
    """value of the file a dependence names, without the path it took; None for anything else"""
    d = d[4:] if d.startswith("abs:") else d
    m = re.match(r"([A-Za-z_]\w*\.[A-Za-z_]\w*)(?=$|[@\[])", d)
    return m.group(1) if m and not d.startswith("in:") else None


def comp(d):
    m = re.match(r"[\w.]+@(\d)$", d)
    return m.group(1) if m else None


def match(pat, a):
    pat = pat.split("@")[0]
    return a.endswith(pat[1:]) if pat.startswith("*") else a == pat


def inside(a, b):
    lo = a[0] > b[0] or a[0] == b[0] and (a[1] or not b[1])
    hi = a[2] < b[2] or a[2] == b[2] and (a[3] or not b[3])
    return lo and hi


def analyse(R, dom):
    m = next(x for x in models() if x.domain == dom)
    F = Flow(m)
    roots = F.roots()
    outs = []
    for f in roots:
        outs.append((f, F.summary(f, (None,) * len(f.params))))
    at = "%s:%s" % (roots[0].file, roots[0].line) if roots else "?"
    R.analysed |= {"%s %s" % (f.file, f.q) for f in F.fns.values()}
    R.count("loaders analysed", len(F.fns))
    R.count("reads and uses of the file", len(F.sites))
    # 1. every read, every use
    for k, w in sorted(F.sites.items(), key=str):
        what = "%s: %s" % (m.domain, {"failure": "a failed read is never followed by success: %s", "absent": "an absent item is not used: %s", "name": "an unknown name is refused: %s"}[k[0]] % k[-1])
        if k[0] == "name":
            hit = [(b, d) for b, d in F.bad.items() if b[0] == "name" and b[3] == k[2] and b[1] == k[1]]
        else:
            hit = [(k, F.bad[k])] if k in F.bad else []
        if hit:
            R.bad(what, where="%s:%s" % (hit[0][0][1], hit[0][0][2]), detail=hit[0][1])
        else:
            R.ok(what, where=w)
    for k, d in sorted(F.bad.items(), key=str):
        if k[0] == "unset":
            R.bad("%s: a variable is used only after it was set: %s" % (m.domain, k[3]), where="%s:%s" % (k[1], k[2]), detail=d)
    R.ok("%s: no variable of a loader is used before it is set" % m.domain, where=at)
    for k, d in sorted(F.und.items(), key=str):
        R.und("%s: %s" % (m.domain, k[0]), where=k[1], detail=str(d))
    # 2. what may be left out
    for (el, kind, name), outcome in sorted(F.absent.items()):
        need = (m.domain, el, name) not in OPTIONAL if kind == "attr" else (m.domain, name) in NEEDED or (name not in SECTIONS or not el.endswith("_scene")) and (m.domain, name) != ("rigidbody2d", "integrator")
        if name == "*" or not need:
            continue
        what = "%s: a scene without %s %s of %s is refused" % (m.domain, "attribute" if kind == "attr" else "element", name, el)
        R.decide(what, "accepted" not in outcome, at, "a load that found it absent reports success")
    # 3. ranges and indices
    for d, ivs in sorted(F.ranges.items()):
        for pat, iv, text in RANGE:
            if re.search(pat, d):
                wrong = [x for x in sorted(ivs) if not inside(x, iv)]
                what = "%s: %s (%s)" % (m.domain, text, d)
                if wrong:
                    R.bad(what, where=at, detail="accepted with %s" % " or ".join("%s%g, %g%s" % ("(" if a[1] else "[", a[0], a[2], ")" if a[3] else "]") for a in wrong))
                else:
                    R.ok(what, where=at)
    for d, rel in sorted(F.index.items()):
        for pat, okay, text in INDEX:
            if re.search(pat, d.split("@")[0]):
                wrong = sorted(rel - okay)
                what = "%s: %s (%s)" % (m.domain, text, d.split("@")[0])
                if wrong:
                    R.bad(what, where=at, detail="accepted with an index %s the number of entries" % ", ".join(wrong))
                else:
                    R.ok(what, where=at)
    # 4. where the values go
    for sink, pats in sorted(PLACES[m.domain].items()):
        if sink not in F.sinks:
            continue
        ds = F.sinks[sink]
        got = {attr(d) for d in ds} - {None}
        what = "%s: argument %d of %s comes from %s" % (m.domain, sink[1] + 1, sink[0], ", ".join(p.split("@")[0] for p in pats))
        extra = sorted(a for a in got if not any(match(p, a) for p in pats))
        cross = sorted(d for d in ds for p in pats if "@" in p and comp(d) and attr(d) and match(p, attr(d)) and comp(d) != p.split("@")[1])
        miss = [p for p in pats if not any(match(p, a) for a in got)]
        if extra:
            R.bad(what, where=at, detail="also from %s" % ", ".join(extra))
        elif cross:
            R.bad(what, where=at, detail="component exchanged: %s" % ", ".join(cross))
        elif miss and got:
            R.und(what, where=at, detail="no trace of %s" % ", ".join(miss))
        elif not miss:
            R.ok(what, where=at)
    for f, res in outs:
        for i, (must, ds) in sorted(res.items()):
            p = f.params[i]["n"]
            hit = sorted({g for g in APART for d in ds if attr(d) and (attr(d) == g or "." not in g and attr(d).endswith("." + g))})
            what = "%s: %s hands back one setting per result (%s)" % (m.domain, f.q, p)
            if len(hit) > 1 and len(ds) < 8:
                R.bad(what, where="%s:%s" % (f.file, f.line), detail="mixes %s" % ", ".join(hit))
            elif hit:
                R.ok(what, where="%s:%s" % (f.file, f.line))


def run(tier):
    rep = Report("P16", RULE, [])
    par.each(rep, [m.domain for m in models()], analyse, budget=300)
    return rep
