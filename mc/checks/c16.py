"""C16: all sequences of view requests and edits on one camera; every pixel of every view against the reference map."""
import itertools
import numpy as np
import cameratransform as ct
from mc.util import camera, refcam, same

W, H = 24, 18
BASE = [dict(proj="rect", fx=20., fy=22., cx=11.3, cy=8.2, w=W, h=H, lens="brown", coef=(0.12, 0.03, 0.), tilt=70., roll=3., heading=8., pos=(0.5, 0.2, 6.)),
        dict(proj="cyl", fx=14., fy=15., cx=12.2, cy=9.1, w=W, h=H, lens="abc", coef=(0., 0.05, 0.02), tilt=60., roll=-4., heading=-20., pos=(0.1, -0.6, 5.)),
        dict(proj="equi", fx=13., fy=14., cx=11.7, cy=9.4, w=W, h=H, lens="brown", coef=(0.05, 0., 0.), tilt=75., roll=0., heading=0., pos=(0., 0., 4.)),
        dict(proj="rect", fx=20., fy=20., cx=12., cy=9., w=W, h=H, lens="none", coef=(0, 0, 0), tilt=45., roll=0., heading=0., pos=(0., 0., 8.)),
        dict(proj="cyl", fx=21., fy=22., cx=12.4, cy=8.7, w=W, h=H, lens="brown", coef=(0.06, 0.02, 0.), tilt=38., roll=5., heading=35., pos=(0.7, -1.6, 7.))]
# requests: top view (extent, scaling, Z, image, hide) / undistort (extent, scaling, image)
TOP = [("T", (-6.3, 7.2, 1.1, 14.3), 0.5, 0., 0, True), ("T", (-6.3, 7.2, 1.1, 14.3), 0.7, 0., 0, True), ("T", (-6.3, 7.2, 1.1, 14.3), 0.5, 2., 0, True),
       ("T", (-6.3, 7.2, 1.1, 14.3), 0.5, 0., 1, True), ("T", (-3.1, 9.4, -8.2, 6.1), 0.5, 0., 0, True), ("T", (-3.1, 9.4, -8.2, 6.1), 0.5, 0., 2, False), ("T", (-9.3, 8.2, -21.1, 2.3), 1.1, 14., 0, False), ("T", (-9.3, 8.2, -21.1, 2.3), 1.1, 14., 0, True), ("T", (-6.3, 7.2, 1.1, 14.3), None, 0., 1, True), ("T", (-6, 7, 1, 14), 0.5, 0.75, 0, True), ("T", (-6, 7, -2, 14), 1, 1.5, 0, True), ("T", None, None, 0., 0, True), ("T", None, None, 1.5, 1, True), ("T", None, 0.8, 0., 0, True)]
UND = [("U", None, None, 0), ("U", (2.3, 20.1, -3.2, 15.4), 1., 0), ("U", (2.3, 20.1, -3.2, 15.4), 0.6, 1), ("U", None, None, 2), ("U", (-5., 30., -6., 24.), 1.5, 0)]
EDIT = [("tilt_deg", "tilt", 55.), ("heading_deg", "heading", 25.), ("roll_deg", "roll", -11.), ("elevation_m", "z", 9.), ("pos_x_m", "x", 1.9), ("focallength_x_px", "fx", 27.), ("focallength_y_px", "fy", 25.), ("center_x_px", "cx", 9.1),
        ("center_y_px", "cy", 10.2), ("lens0", "l0", 0.2), ("lens1", "l1", 0.07), ("pos_y_m", "y", -1.3), ("image_width_px", "w", 20), ("image_height_px", "h", 15), ("tilt_deg", "tilt", "+0.05"), ("focallength_x_px", "fx", "+0.02")]
ASSUMPTIONS = ["pixels whose source position lies within 0.003 of the middle between two pixels may show either neighbour", "nearest-neighbour lookup; outside the image the border value is 0 (grey) or [0, 1, 0, 0] (colour), colour images get an opaque alpha channel",
               "a top view without extent shows the rectangle around the seen ground; when the horizon is seen the guess is free, and it is only compared with that of a fresh camera"]
BOUNDS = {"quick": "%d cameras x all histories request-edit-request over %d requests and %d edits, plus all request pairs and request triples over a reduced alphabet; all pairs of cameras asked in turn, sharing nothing, the orientation or projection and lens; images of 7 number types x 5 channel layouts x 4 memory layouts" % (len(BASE), len(TOP) + len(UND), len(EDIT)),
          "thorough": "as quick, plus all histories of 4 steps (request, edit or request, edit or request, request)"}
CHUNK = 8
NREQ = len(TOP) + len(UND)


def cases(tier):
    ops = ["r%d" % i for i in range(NREQ)]
    eds = ["e%d" % i for i in range(len(EDIT))]
    out = [[r] for r in ops]
    out += [[a, b] for a in ops for b in ops]
    red = ["r0", "r1", "r2", "r4", "r%d" % len(TOP), "r%d" % (len(TOP) + 1)]
    out += [list(t) for t in itertools.product(red, repeat=3)]
    out += [[a, e, a] for a in ops for e in eds]
    out += [[a, e, b] for a in red for e in eds for b in red if a != b]
    out += [[a, e, "back", a] for a in red for e in eds]
    if tier == "thorough":
        out += [[a, x, y, b] for a in red for x in red + eds for y in red + eds for b in red]
    for b in range(len(BASE)):
        yield dict(kind="images", base=b)
        for b2 in range(len(BASE)):
            yield dict(kind="two", base=b, other=b2)
    size = 40
    for b in range(len(BASE)):
        for i in range(0, len(out), size):
            yield dict(base=b, seqs=out[i:i + size])


def images(w, h):
    y, x = np.mgrid[0:h, 0:w]
    return [(1 + y * w + x).astype(np.uint16), np.dstack((x * 5 + 1, y * 7 + 2, (x * y) % 251)).astype(np.uint8), np.dstack((x * 3 + 1, y * 2 + 2, x + y, (x * 7 + y) % 256)).astype(np.uint8)]


_MAPS = {}


def ref_map(model, req):
    key = (tuple(sorted(model.items())), req)
    if key in _MAPS:
        return _MAPS[key]
    m = dict(model)
    spec = dict(proj=m["proj"], fx=m["fx"], fy=m["fy"], cx=m["cx"], cy=m["cy"], w=m["w"], h=m["h"], lens=m["lens"], coef=(m["l0"], m["l1"], m["l2"]), tilt=m["tilt"], roll=m["roll"], heading=m["heading"], pos=(m["x"], m["y"], m["z"]))
    ref = refcam(spec)
    if req[0] == "T":
        _, ext, sc, Z, _, hide = req
        if sc is None:
            sc = np.sqrt((ext[1] - ext[0]) * (ext[3] - ext[2])) / np.sqrt(m["w"] * m["h"])
        xs, ys = np.arange(ext[0], ext[1], sc), np.arange(ext[2], ext[3], sc)
        out = np.array([[ref.image((x, y, Z), hide) for x in xs] for y in ys[::-1]])
    else:
        _, ext, sc, _ = req
        ext = ext or (0, m["w"], 0, m["h"])
        sc = sc or 1
        xs, ys = np.arange(ext[0], ext[1], sc), np.arange(ext[2], ext[3], sc)
        out = np.array([[ref.distort((x, y)) for x in xs] for y in ys])
    if len(_MAPS) > 4000:
        _MAPS.clear()
    _MAPS[key] = out
    return out


_EXT = {}


def ground_extent(m, Z):
    """extent of the seen part of the ground; None when a horizon is seen"""
    key = (tuple(sorted(m.items())), Z)
    if key not in _EXT:
        ref = refcam(spec_of(m))
        w, h = m["w"], m["h"]
        pts = [(0, y) for y in range(h)] + [(x, h) for x in range(w)] + [(w, y) for y in range(h, 0, -1)] + [(x, 0) for x in range(w, 0, -1)]
        g = []
        for p in pts:
            d = ref.space_ray(p)
            if not np.isfinite(d).all() or d[2] >= -0.12 * np.linalg.norm(d) or m["z"] <= Z:
                g = None
                break
            g.append((ref.t + d * (Z - ref.t[2]) / d[2])[:2])
        _EXT[key] = None if g is None else tuple(v for k in (0, 1) for v in (min(q[k] for q in g), max(q[k] for q in g)))
    return _EXT[key]


def spec_of(m):
    return dict(proj=m["proj"], fx=m["fx"], fy=m["fy"], cx=m["cx"], cy=m["cy"], w=m["w"], h=m["h"], lens=m["lens"], coef=(m["l0"], m["l1"], m["l2"]), tilt=m["tilt"], roll=m["roll"], heading=m["heading"], pos=(m["x"], m["y"], m["z"]))


def real_camera(m):
    return camera(dict(proj=m["proj"], fx=m["fx"], fy=m["fy"], cx=m["cx"], cy=m["cy"], w=m["w"], h=m["h"], lens=m["lens"], coef=(m["l0"], m["l1"], m["l2"]), tilt=m["tilt"], roll=m["roll"], heading=m["heading"], pos=(m["x"], m["y"], m["z"])))


def verify(rec, cam, model, req, ext_list, hist, img=None):
    if req[0] == "T" and req[1] is None and req[2] is not None and ground_extent(model, req[3]) is None:
        return          # the view may be huge
    if img is None:
        img = images(model["w"], model["h"])[req[4] if req[0] == "T" else req[3]]
    keep = img.copy()
    ext = req[1]
    if ext is not None:
        ext_list[:] = list(ext)         # the caller reuses one list
        ext = ext_list
    if req[0] == "T":
        kw = {} if req[2] is None else dict(scaling=req[2])
        if req[3] != 0:
            kw["Z"] = req[3]
        if not req[5]:
            kw["hide_backpoints"] = False
        got = cam.getTopViewOfImage(img, extent=ext, **kw)
    else:
        kw = {} if req[2] is None else dict(scaling=req[2])
        got = cam.undistortImage(img, extent=ext, **kw)
    rec.check(np.array_equal(img, keep), "the image passed in was modified")
    rec.step()
    guess = req[0] == "T" and req[1] is None
    if guess:
        keep, got = got, got.copy()
        keep[...] = 77
        want = real_camera(model).getTopViewOfImage(img, **kw)
        rec.check(np.array_equal(got, want), lambda: "after %s the top view differs from that of a fresh camera" % hist)
        extent = ground_extent(model, req[3])
        if extent is None:      # a horizon is visible: the guess is free
            return
        rec.outcome("guessed")
        req = (req[0], extent) + req[2:]
    rm = ref_map(model, req)
    if guess:
        # the last column and the first row may be there or not: the guessed extent is not exact
        rec.check(max(abs(a - b) for a, b in zip(got.shape, rm.shape[:2])) <= 1, lambda: "after %s: the view has shape %s, expected %s (extent %s)" % (hist, got.shape, rm.shape[:2], req[1]))
        h, w = min(got.shape[0], rm.shape[0]), min(got.shape[1], rm.shape[1])
        got, rm = got[got.shape[0] - h:, :w], rm[rm.shape[0] - h:, :w]
    rec.check(got.shape[:2] == rm.shape[:2], lambda: "after %s: the view has shape %s, expected %s" % (hist, got.shape, rm.shape[:2]))
    x, y = rm[..., 0], rm[..., 1]
    bad = ~(np.isfinite(x) & np.isfinite(y))
    xx, yy = np.where(bad, -100, np.clip(x, -1e4, 1e4)), np.where(bad, -100, np.clip(y, -1e4, 1e4))
    amb = (np.abs(xx - np.floor(xx) - 0.5) < 0.003) | (np.abs(yy - np.floor(yy) - 0.5) < 0.003)
    xi, yi = np.rint(xx).astype(int), np.rint(yy).astype(int)
    inside = (xi >= 0) & (yi >= 0) & (xi < model["w"]) & (yi < model["h"])
    if img.ndim == 3 and img.shape[2] == 3:
        img = np.dstack((img, np.full(img.shape[:2], 255, np.uint8)))
    if img.ndim == 3 and img.shape[2] == 1:     # the axis of a single channel may be dropped
        img, got = img[..., 0], got.reshape(got.shape[:2])
    border = np.zeros((), img.dtype) if img.ndim == 2 else np.array([0, 1, 0, 0], img.dtype)[:img.shape[2]]
    want = np.where(inside if img.ndim == 2 else inside[..., None], img[np.where(inside, yi, 0), np.where(inside, xi, 0)], border)
    rec.check(got.shape == want.shape, lambda: "after %s: shape %s, expected %s" % (hist, got.shape, want.shape))
    diff = (got != want) if img.ndim == 2 else (got != want).any(-1)
    k = np.argwhere(diff & ~amb)
    rec.check(len(k) == 0, lambda: "after %s: %d pixels of %s (camera %s) are wrong, e.g. row %d column %d shows %s instead of %s (image at %s)" % (hist, len(k), req, model, k[0][0], k[0][1], got[tuple(k[0])], want[tuple(k[0])], rm[tuple(k[0])]))
    rec.outcome((req[0], inside.sum() // 20))
    got[...] = 77       # the caller may do with the result whatever he likes


LNAMES = dict(brown=("k1", "k2"), abc=("b", "c"), none=None)


def model_of(b):
    return dict(proj=b["proj"], fx=b["fx"], fy=b["fy"], cx=b["cx"], cy=b["cy"], w=W, h=H, lens=b["lens"], l0=b["coef"][0], l1=b["coef"][1], l2=b["coef"][2], tilt=b["tilt"], roll=b["roll"], heading=b["heading"], x=b["pos"][0], y=b["pos"][1], z=b["pos"][2])


def run_two(c, rec):
    """two cameras asked in turn; sharing nothing, the orientation, or projection and lens"""
    reqs = TOP + UND
    for share in ("nothing", "orientation", "projection"):
        if share == "projection" and BASE[c["base"]] is not BASE[c["other"]]:
            continue
        ma, mb = model_of(BASE[c["base"]]), model_of(BASE[c["other"]])
        if c["base"] == c["other"]:
            mb.update(tilt=52., x=1.1) if share != "orientation" else mb.update(fx=24., cy=7.3)
        if share == "orientation":
            mb.update({k: ma[k] for k in ("tilt", "roll", "heading", "x", "y", "z")})
        for r1 in range(len(reqs)):
            for r2 in {r1, 0, len(TOP), len(TOP) + 1}:
                A, B = real_camera(ma), real_camera(mb)
                if share == "orientation":
                    B = ct.Camera(B.projection, A.orientation, B.lens)
                elif share == "projection":
                    B = ct.Camera(A.projection, B.orientation, A.lens)
                ext = [0, 0, 0, 0]
                for cam, m, r in ((A, ma, r1), (B, mb, r1), (A, ma, r1), (B, mb, r2), (A, ma, r2), (B, mb, r1), (A, ma, r1)):
                    verify(rec, cam, m, reqs[r], ext, ["two cameras sharing %s" % share, r1, r2])
                if share == "orientation":      # an edit through one camera is seen by both
                    A.heading_deg = 31.
                    verify(rec, B, dict(mb, heading=31.), reqs[r1], ext, ["heading set in the other camera", r1])
                    verify(rec, A, dict(ma, heading=31.), reqs[r1], ext, ["heading set in the camera", r1])
                elif share == "projection":
                    B.center_x_px = 9.6
                    verify(rec, A, dict(ma, cx=9.6), reqs[r1], ext, ["centre set in the other camera", r1])
                    verify(rec, B, dict(mb, cx=9.6), reqs[r1], ext, ["centre set in the camera", r1])
                rec.trace()
                rec.state((c["base"], c["other"], share, r1, r2))


def run_images(c, rec):
    """images of every type and number of channels"""
    import matplotlib.pyplot as plt
    m = model_of(BASE[c["base"]])
    y, x = np.mgrid[0:H, 0:W]
    reqs = TOP + UND
    for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.float32, np.float64):
        for ch in (None, 1, 2, 3, 4):
            img = np.stack([(3 * x + 4 * y + 20 * k) % 120 + 1 for k in range(ch or 1)], -1).astype(t)
            if t in (np.float32, np.float64):
                img = img / t(7.)
            if t in (np.uint16, np.int16):
                img = img * t(201)
            if ch is None:
                img = img[..., 0]
            for layout in ("C", "F", "view", "read-only"):
                a = img.copy(order="F") if layout == "F" else np.concatenate([img, img], 1)[:, :W] if layout == "view" else img.copy()
                if layout == "read-only":
                    a.flags.writeable = False
                cam = real_camera(m)
                for r in (0, len(TOP), 1, len(TOP) + 1) if layout == "C" else (0, len(TOP)):
                    verify(rec, cam, m, reqs[r], [0, 0, 0, 0], ["image of type %s with %s channels, %s" % (np.dtype(t).name, ch, layout)], img=a)
                if layout == "C" and t in (np.uint8, np.float32) and ch in (None, 3, 4):        # (what can be drawn)
                    a = img if t is np.uint8 else img / img.max()
                    for alpha in (None, 0.5):
                        for f, kw in ((cam.getTopViewOfImage, dict(extent=[-6, 6, 4, 20], scaling=0.5)), (cam.undistortImage, {})):
                            plain, drawn = f(a, **kw), f(a, do_plot=True, alpha=alpha, **kw)
                            rec.check(np.array_equal(plain, drawn) and np.array_equal(plain, f(a, **kw)), lambda: "%s of an image of type %s with %s channels: drawing it (alpha %s) changes it" % (f.__name__, np.dtype(t).name, ch, alpha))
                            plt.close("all")
                            rec.step(3)
                rec.trace()
                rec.state((c["base"], np.dtype(t).name, ch, layout))


def run_case(c, rec):
    if c.get("kind") == "images":
        return run_images(c, rec)
    if c.get("kind") == "two":
        return run_two(c, rec)
    b = BASE[c["base"]]
    reqs = TOP + UND
    for seq in c["seqs"]:
        m = model_of(b)
        cam = real_camera(m)
        ext_list = [0, 0, 0, 0]
        last = None
        for i, op in enumerate(seq):
            if op[0] == "r":
                verify(rec, cam, m, reqs[int(op[1:])], ext_list, seq[:i + 1])
            else:
                if op == "back":
                    if last is None:
                        continue
                    name, key, v = last
                else:
                    name, key, v = EDIT[int(op[1:])]
                if name.startswith("lens"):
                    if b["lens"] == "none":
                        continue
                    q = int(name[4]) + (1 if b["lens"] == "abc" else 0)
                    key = "l%d" % q
                    name = (("k1", "k2") if b["lens"] == "brown" else ("a", "b", "c"))[q]
                if isinstance(v, str):      # a change by a small amount
                    v = m[key] + float(v)
                last = (name, key, m[key])
                setattr(cam, name, v)
                m[key] = v
                rec.step()
            rec.state((c["base"], tuple(sorted(m.items())), op))
        rec.trace()
