"""C09: all ways of specifying intrinsics agree, contradictory or insufficient ones raise ValueError; FOV conversions are inverse."""
import itertools, math
import numpy as np
import cameratransform as ct
from mc.util import same
from mc.ref import RefCam

P = dict(rect=ct.RectilinearProjection, cyl=ct.CylindricalProjection, equi=ct.EquirectangularProjection)
ARGS = ["focallength_px", "focallength_x_px", "focallength_y_px", "focallength_mm", "center", "center_x_px", "center_y_px", "image", "image_width_px", "image_height_px",
        "sensor", "sensor_width_mm", "sensor_height_mm", "view_x_deg", "view_y_deg"]


def fov_of(kind, axis, size, f):
    if kind == "rect" or (kind == "cyl" and axis == "y"):
        return math.degrees(2 * math.atan(size / 2 / f))
    return math.degrees(size / f)


def f_of(kind, axis, size, view):
    if kind == "rect" or (kind == "cyl" and axis == "y"):
        return size / 2 / math.tan(math.radians(view) / 2)
    return size / math.radians(view)


def size_of(kind, axis, f, view):
    if kind == "rect" or (kind == "cyl" and axis == "y"):
        return f * 2 * math.tan(math.radians(view) / 2)
    return f * math.radians(view)


# value sets: (fx, fy, mm, sensor, image size, centre)
VALUES = [dict(f=(800., 800.), mm=45., sensor=(36., 27.), image=(640, 480), center=(300., 250.)), dict(f=(800, 900), mm=45, sensor=(36, 24), image=(640, 480), center=(0, 0)),
          dict(f=(250.5, 333.25), mm=14, sensor=(17.3, 13), image=(301, 777), center=(-5.5, 800.25))]


def values(v, kind, variant):
    fx, fy = v["f"]
    w, h = v["image"]
    img = (w, h)
    if variant == 1:
        img = np.zeros((h, w), np.uint8)
    elif variant == 2:
        img = np.zeros((h, w, 3), np.uint8)
    elif variant == 3:
        img = [w, h]
    return dict(focallength_px=[fx, (fx, fy), [fx, fy], np.array([fx, fy], float)][variant] if not (variant == 3) else np.float64(fx), focallength_x_px=fx, focallength_y_px=fy, focallength_mm=v["mm"],
                center=[tuple(v["center"]), list(v["center"]), np.array(v["center"]), tuple(v["center"])][variant], center_x_px=v["center"][0], center_y_px=v["center"][1],
                image=img, image_width_px=w, image_height_px=h, sensor=[tuple(v["sensor"]), list(v["sensor"]), np.array(v["sensor"]), tuple(v["sensor"])][variant],
                sensor_width_mm=v["sensor"][0], sensor_height_mm=v["sensor"][1], view_x_deg=fov_of(kind, "x", w, fx), view_y_deg=fov_of(kind, "y", h, fy))


def expected(kw, kind, v):
    """documented meaning of the arguments: a dict of intrinsics, or None for ValueError"""
    has = lambda *n: any(x in kw for x in n)
    w, h = v["image"]
    if has("image") and has("image_width_px", "image_height_px"):
        return None
    if not has("image") and not ("image_width_px" in kw and "image_height_px" in kw):
        return None
    if has("center") and has("center_x_px", "center_y_px"):
        return None
    if has("focallength_px") and has("focallength_x_px", "focallength_y_px"):
        return None
    if has("focallength_mm") and has("focallength_px", "focallength_x_px", "focallength_y_px"):
        return None
    if has("sensor") and has("sensor_width_mm", "sensor_height_mm"):
        return None
    sw = sh = None
    if has("sensor"):
        sw, sh = v["sensor"]
    if has("sensor_width_mm"):
        sw = v["sensor"][0]
    if has("sensor_height_mm"):
        sh = v["sensor"][1]
    if sw is not None and sh is None:
        sh = sw / w * h
    if sh is not None and sw is None:
        sw = sh / h * w
    fx = fy = None
    if has("focallength_px"):
        fx, fy = v["f"] if np.ndim(kw["focallength_px"]) else (v["f"][0],) * 2
    if has("focallength_x_px"):
        fx = v["f"][0]
    if has("focallength_y_px"):
        fy = v["f"][1]
    if has("focallength_mm"):
        if sw is None:
            return None
        fx, fy = v["mm"] / sw * w, v["mm"] / sh * h
    if has("view_x_deg") and fx is not None or has("view_y_deg") and fy is not None:
        return None
    gx, gy = v["f"]
    if has("view_x_deg"):
        nfx = gx
    if has("view_y_deg"):
        nfy = gy
    if has("view_x_deg") and has("view_y_deg"):
        fx, fy = gx, gy
    elif has("view_x_deg"):
        fx, fy = gx, fy if fy is not None else gx
    elif has("view_y_deg"):
        fx, fy = fx if fx is not None else gy, gy
    if fx is None or fy is None:
        return None
    cx = v["center"][0] if has("center", "center_x_px") else w / 2
    cy = v["center"][1] if has("center", "center_y_px") else h / 2
    return dict(focallength_x_px=fx, focallength_y_px=fy, center_x_px=cx, center_y_px=cy, image_width_px=w, image_height_px=h,
                sensor_width_mm=17.3 if sw is None else sw, sensor_height_mm=13.0 if sh is None else sh)


PTS = np.array([[1., 2, -10], [-3, 0.5, -7]])
VIEWS = {"quick": [0.5, 10, 30, 60, 90, 120, 179], "thorough": [0.01, 0.5, 1] + list(range(5, 180, 5)) + [179, 179.9]}
SIZES = [(640, 480), (101, 33), (1, 1), (4608, 3456), (300, 800)]
FS = [(1000., 1100.), (50.5, 20.25), (3863.64, 3000), (7, 3)]
ASSUMPTIONS = ["values of 0 for sizes and focal lengths are not specifications and are excluded", "tolerance 1e-9 relative"]
BOUNDS = {"quick": "3 projections x all 2^15 subsets of the specification arguments x 3 value sets x 4 container variants; field of view lattice",
          "thorough": "3 projections x all 2^15 subsets x 3 value sets x 4 container variants; dense field of view lattice"}


def cases(tier):
    for kind in P:
        yield dict(kind="fov", proj=kind, tier=tier)
        for vi in range(3):
            for variant in range(4):
                for hi in range(64):
                    yield dict(kind="spec", proj=kind, v=vi, variant=variant, hi=hi)


# the first 6 bits: image arguments and centre arguments; the other 9 enumerate inside a case
ORDER = ["image", "image_width_px", "image_height_px", "center", "center_x_px", "center_y_px"]
REST = [a for a in ARGS if a not in ORDER]


def run_case(c, rec):
    kind = c["proj"]
    if c["kind"] == "fov":
        return fov(c, rec)
    v = VALUES[c["v"]]
    vals = values(v, kind, c["variant"])
    base = [ORDER[i] for i in range(6) if c["hi"] >> i & 1]
    for m in range(1 << len(REST)):
        names = base + [REST[i] for i in range(len(REST)) if m >> i & 1]
        kw = {n: vals[n] for n in names}
        want = expected(kw, kind, v)
        rec.step()
        rec.trace()
        rec.states += 1
        try:
            got = P[kind](**kw)
        except ValueError:
            rec.check(want is None, lambda: "%s(%s) raised ValueError, expected %s" % (P[kind].__name__, names, want))
            rec.outcome("ValueError")
            continue
        rec.check(want is not None, lambda: "%s(%s) is contradictory or insufficient but was accepted" % (P[kind].__name__, names))
        for n, x in want.items():
            rec.check(abs(float(getattr(got, n)) - x) <= 1e-9 * abs(x), lambda: "%s(%s): %s is %s, expected %s" % (P[kind].__name__, kw if "image" not in kw else names, n, getattr(got, n), x))
        ref = RefCam(kind, want["focallength_x_px"], want["focallength_y_px"], want["center_x_px"], want["center_y_px"], *v["image"])
        rec.check(same(got.imageFromCamera(PTS), [ref.project(p) for p in PTS], 1e-8, 1e-6), lambda: "%s(%s) images points elsewhere" % (P[kind].__name__, names))
        rec.outcome(tuple(want.values()))


def fov(c, rec):
    kind = c["proj"]
    for (w, h), (fx, fy) in itertools.product(SIZES, FS):
        p = P[kind](focallength_x_px=fx, focallength_y_px=fy, image=(w, h))
        what = "%s f=%s image=%s" % (kind, (fx, fy), (w, h))
        vx, vy = p.getFieldOfView()
        rec.check(same([vx, vy], [fov_of(kind, "x", w, fx), fov_of(kind, "y", h, fy)], 1e-9, 1e-12), lambda: "%s: field of view %s" % (what, (vx, vy)))
        rec.check(same([p.focallengthFromFOV(view_x=vx), p.focallengthFromFOV(view_y=vy)], [fx, fy], 1e-9), "%s: focal length from the field of view" % what)
        rec.check(same([p.focallengthFromFOV(vx), p.focallengthFromFOV(None, vy)], [fx, fy], 1e-9), "%s: focal length from the field of view (positional)" % what)
        rec.check(same([p.imageFromFOV(view_x=vx), p.imageFromFOV(view_y=vy)], [w, h], 1e-9), "%s: image size from the field of view" % what)
        rec.step(4)
        lim = {"x": 179.95 if kind == "rect" else 360, "y": 360 if kind == "equi" else 179.95}
        for ax, size, f in (("x", w, fx), ("y", h, fy)):
            for view in VIEWS[c["tier"]] + [180, 270, 359, 360]:
                if view > lim[ax]:
                    continue
                kw = {"view_" + ax: view}
                rec.check(same(p.focallengthFromFOV(**kw), f_of(kind, ax, size, view), 1e-8), lambda: "%s focallengthFromFOV(%s) = %s" % (what, kw, p.focallengthFromFOV(**kw)))
                rec.check(same(p.imageFromFOV(**kw), size_of(kind, ax, f, view), 1e-8), lambda: "%s imageFromFOV(%s) = %s" % (what, kw, p.imageFromFOV(**kw)))
                q = P[kind](image=(w, h), **{"view_%s_deg" % ax: view})
                rec.check(same(q.getFieldOfView()[0 if ax == "x" else 1], view, 1e-8), lambda: "%s(image=%s, view_%s_deg=%s) has the field of view %s" % (kind, (w, h), ax, view, q.getFieldOfView()))
                rec.check(same(q.focallength_x_px, q.focallength_y_px, 1e-12), "one field of view has to give one focal length")
                for other in (None, 20., 75.):
                    if other is not None:
                        a, b = (view, other) if ax == "x" else (other, view)
                        q = P[kind](image=(w, h), view_x_deg=a, view_y_deg=b)
                        rec.check(same(q.getFieldOfView(), (a, b), 1e-8), lambda: "%s(image=%s, view_x_deg=%s, view_y_deg=%s) has the field of view %s" % (kind, (w, h), a, b, q.getFieldOfView()))
                rec.step(5)
                rec.trace()
                rec.states += 1
