import itertools, math
import numpy as np
import cameratransform as ct
from mc.ref import RefCam

PROJ = {"rect": "RectilinearProjection", "cyl": "CylindricalProjection", "equi": "EquirectangularProjection"}


def projection(kind, fx=1000., fy=1100., cx=310., cy=250., w=640, h=480):
    return getattr(ct, PROJ[kind])(focallength_x_px=fx, focallength_y_px=fy, center_x_px=cx, center_y_px=cy,
                                   image_width_px=w, image_height_px=h)


def lens(kind, coef=(0, 0, 0)):
    if kind == "none":
        return ct.NoDistortion()
    if kind == "brown":
        return ct.BrownLensDistortion(*coef)
    return ct.ABCDistortion(*coef)


def camera(spec):
    """spec: dict of the RefCam arguments -> real camera"""
    s = dict(proj="rect", fx=1000., fy=1100., cx=310., cy=250., w=640, h=480, lens="none", coef=(0, 0, 0), tilt=85.,
             roll=0., heading=0., pos=(0., 0., 30.))
    s.update(spec)
    return ct.Camera(projection(s["proj"], s["fx"], s["fy"], s["cx"], s["cy"], s["w"], s["h"]),
                     ct.SpatialOrientation(elevation_m=s["pos"][2], tilt_deg=s["tilt"], roll_deg=s["roll"],
                                           heading_deg=s["heading"], pos_x_m=s["pos"][0], pos_y_m=s["pos"][1]),
                     lens(s["lens"], s["coef"]))


def refcam(spec):
    s = dict(proj="rect", fx=1000., fy=1100., cx=310., cy=250., w=640, h=480)
    s.update(spec)
    return RefCam(**s)


def arr(x):
    return np.asarray(x, dtype=float)


def same(a, b, rtol=1e-8, atol=1e-8):
    """equal shape and equal values within tolerance, nan where nan"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))


def need_same(rec, got, want, what, rtol=1e-8, atol=1e-8, sig=None):
    if not same(got, want, rtol, atol):
        rec.fail("%s: got %s (shape %s), expected %s (shape %s)" % (
            what, np.asarray(got).tolist() if np.size(got) < 40 else "...", np.shape(got),
            np.asarray(want).tolist() if np.size(want) < 40 else "...", np.shape(want)), sig)


def prod(**kw):
    keys = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(keys, vals))
