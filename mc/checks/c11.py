"""C11: distance, bearing, displacement and GPS <-> space conversions are consistent with spherical geometry."""
import itertools, math
import numpy as np
import cameratransform as ct
from cameratransform import gps
from mc.ref import unit, arc, R_EARTH as R
from mc.util import same

LAT_Q = [-90, -89.9, -66.66, -45, -8, 0, 1e-4, 30, 52.5, 89, 90]
LON_Q = [-180, -179.9, -120, -8, 0, 1e-4, 11, 90, 179.9, 180]
LAT_T = sorted(set(LAT_Q + [-80, -70, -60, -33, -20, -1, -1e-6, 10, 20, 45, 60, 75, 89.99]))
LON_T = sorted(set(LON_Q + [-179.999, -150, -90, -60, -30, -1, 1, 30, 60, 120, 150, 179.999]))
DIST_Q = [0, 0.01, 1, 500, 2e4, 1e6, 9e6, 1.9e7]
DIST_T = DIST_Q + [10, 100, 5e3, 1e5, 5e6, 1.2e7, 1.5e7]
BEAR_Q = [-180, -179, -135, -90, -45, -1, 0, 1, 30, 45, 60, 90, 120, 179, 180, 270, 359, 405]
BEAR_T = sorted(set(BEAR_Q + list(range(-180, 181, 12))))
HEIGHTS = [0., 13.769, -20., 8000.]
OFFS = [0., 0.5, -3., 40., -250., 3e3, -2e4, 1e5]
ASSUMPTIONS = ["spherical earth with radius 6371 km, as documented; a start point with height moves on the sphere with that height added to the radius, so distances on the ground shrink by R/(R+h)",
               "bearings are compared only where they are defined (not at the poles, at equal or at antipodal points)", "distances within 30 m of the antipode are compared to 1 m (conditioning of the haversine formula)"]
BOUNDS = {"quick": "all pairs of %dx%d places with 4 height combinations; all starts x %d distances x %d bearings x heights; moves along the meridians from every half degree exactly to the poles, the equator and beyond; bearings and distances of places 1 mm, 1 cm and 30 cm apart in 25 directions; space offsets on a %d^2 lattice about all references" % (len(LAT_Q), len(LON_Q), len(DIST_Q), len(BEAR_Q), len(OFFS)),
          "thorough": "all pairs of %dx%d places; all starts x %d distances x %d bearings" % (len(LAT_T), len(LON_T), len(DIST_T), len(BEAR_T))}
CHUNK = 1


def lists(tier):
    return (LAT_Q, LON_Q, DIST_Q, BEAR_Q) if tier == "quick" else (LAT_T, LON_T, DIST_T, BEAR_T)


def cases(tier):
    lat, lon, _, _ = lists(tier)
    step = 0.5 if tier == "quick" else 0.05
    for k in range(0, 36):
        yield dict(kind="meridian", lats=[-90 + 5 * k, -85 + 5 * k, step])
    for a, b in itertools.product(lat, lon):
        yield dict(kind="pairs", p=[a, b], tier=tier)
        yield dict(kind="move", p=[a, b], tier=tier)
        yield dict(kind="space", p=[a, b], tier=tier)
        if abs(a) < 89.5:
            yield dict(kind="near", p=[a, b])


def bearing(p, q):
    """initial bearing by vector geometry"""
    u, v = unit(*p), unit(*q)
    la, lo = math.radians(p[0]), math.radians(p[1])
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    return math.degrees(math.atan2(float(v @ east), float(v @ north)))


def angdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def tol_d(d):
    return 1.0 if d > math.pi * R - 30 else 1e-5 + 1e-9 * d + (1e-2 if d > math.pi * R - 1e5 else 0)


def run_pairs(c, rec):
    lat, lon, _, _ = lists(c["tier"])
    p = c["p"]
    P = np.array(p, float)
    others = np.array(list(itertools.product(lat, lon)), float)
    dist, back = gps.getDistance(P, others), gps.getDistance(others, P)
    bear = gps.getBearing(P, others)
    rec.check(np.shape(dist) == (len(others),) and np.shape(bear) == (len(others),), "shape of distances")
    rec.step(3)
    for k, q in enumerate(others):
        d = arc(p, q) * R
        rec.check(abs(dist[k] - d) <= tol_d(d), lambda: "getDistance(%s, %s) = %s, great circle %s" % (p, q, dist[k], d))
        rec.check(abs(dist[k] - back[k]) <= 1e-6 * (1 + d) * (1 if d < math.pi * R - 1e5 else 100), lambda: "getDistance(%s, %s) is not symmetric: %s %s" % (p, q, dist[k], back[k]))
        if d > 1e-3:
            rec.check(dist[k] > 0, lambda: "distance of different places %s %s is %s" % (p, q, dist[k]))
        s = gps.getDistance(list(p), q.tolist())
        rec.check(abs(s - d) <= tol_d(d), lambda: "getDistance(%s, %s) = %s for single points" % (p, q, s))
        if abs(p[0]) < 89.999 and 0.5 < d < math.pi * R - 1e3:
            w = bearing(p, q)
            rec.check(angdiff(bear[k], w) < 1e-5 * (1 + 1e2 / d), lambda: "getBearing(%s, %s) = %s, expected %s" % (p, q, bear[k], w))
            rec.check(-180.0000001 <= bear[k] <= 180.0000001, "bearing outside -180..180")
        for h1, h2 in ((0., 100.), (13.769, 13.769), (8000., -20.), (0, 2.5e4)):
            s = gps.getDistance([p[0], p[1], h1], [q[0], q[1], h2])
            w = math.hypot(d, h1 - h2)
            rec.check(abs(s - w) <= tol_d(d), lambda: "getDistance with heights %s %s between %s and %s = %s, expected %s" % (h1, h2, p, q, s, w))
        s = gps.getDistance([p[0], p[1], 500.], q)
        rec.check(abs(s - d) <= tol_d(d), lambda: "getDistance of a point with and one without height = %s, expected %s" % (s, d))
        rec.step(6)
    rec.states += len(others)
    rec.trace(len(others))
    rec.outcome(np.round(dist, -3).tolist()[:9])


def run_move(c, rec):
    _, _, dists, bears = lists(c["tier"])
    p = c["p"]
    grid = np.array(list(itertools.product(dists, bears)), float)
    for h in [None] + HEIGHTS:
        start = np.array(p + ([] if h is None else [h]), float)
        rad = R + (h or 0)
        end = np.asarray(gps.moveDistance(start, grid[:, 0], grid[:, 1]))
        rec.check(end.shape == (len(grid), len(start)), lambda: "moveDistance shape %s" % (end.shape,))
        many = np.asarray(gps.moveDistance(np.tile(start, (len(grid), 1)), grid[:, 0], grid[:, 1]))
        rec.check(same(end, many, 1e-9, 1e-9), "moveDistance of one or many starts differs")
        for k, (d, b) in enumerate(grid):
            e = end[k]
            single = gps.moveDistance(start.tolist(), d, b)
            rec.check(same(single, e, 1e-9, 1e-9), lambda: "moveDistance(%s, %s, %s) single %s, batch %s" % (start, d, b, single, e))
            if h is not None:
                rec.check(e[2] == h, lambda: "moveDistance changes the height: %s" % e)
            got = arc(p, e[:2]) * rad
            # arcsin near the poles loses half of the digits
            cond = 1e-6 + 1e-8 * d + 2e-2 * (abs(e[0]) > 89.5) + 1e-2 * (d > math.pi * rad - 1e5)
            if abs(e[0]) > 89.9999:
                cond += 0.3
            rec.check(abs(got - d) <= cond, lambda: "moveDistance(%s, %s, %s) ends at %s, at distance %s" % (start, d, b, e, got))
            if d >= 0.5 and abs(p[0]) < 89.999 and d < math.pi * rad - 1e3:
                w = bearing(p, e[:2])
                rec.check(angdiff(w, b) * math.pi / 180 * abs(math.sin(d / rad)) * rad <= cond + 1e-6, lambda: "moveDistance(%s, %s, %s) ends at %s, in bearing %s" % (start, d, b, e, w))
            rec.step()
        rec.states += len(grid)
        rec.trace(len(grid))
        rec.outcome(np.round(end, 1).tolist()[:20])


def run_near(c, rec):
    """distance and bearing of places from a millimetre to a metre apart, alone and in a list"""
    la, lo = map(float, c["p"])
    for d in (1e-3, 1e-2, 0.3):
        ends = []
        for b in range(-180, 181, 15):
            x, y = d * math.sin(math.radians(b)), d * math.cos(math.radians(b))
            ends.append([la + math.degrees(y / R), lo + math.degrees(x / R / math.cos(math.radians(la)))])
        ends = np.array(ends)
        bear, dist = gps.getBearing([la, lo], ends), gps.getDistance([la, lo], ends)
        for k, e in enumerate(ends):
            # from the differences of the coordinates as they are stored
            dy, dx = math.radians(e[0] - la), math.radians(e[1] - lo) * math.cos(math.radians(la))
            w, wd = math.degrees(math.atan2(dx, dy)), R * math.hypot(dx, dy)
            for got, gd, how in ((bear[k], dist[k], "in a list"), (gps.getBearing([la, lo], e), gps.getDistance([la, lo], e), "alone")):
                rec.check(angdiff(got, w) < 1e-4 / d + 1e-3, lambda: "getBearing(%s, %s) %s = %s, expected %s (%s m apart)" % (c["p"], e.tolist(), how, got, w, wd))
                rec.check(abs(gd - wd) < 1e-7 + 1e-5 * wd, lambda: "getDistance(%s, %s) %s = %s, expected %s" % (c["p"], e.tolist(), how, gd, wd))
            rec.step(4)
        rec.states += len(ends)
    rec.trace()


def run_meridian(c, rec):
    """moves along a meridian that end exactly at (or go over) a pole, at the equator or at the antipode"""
    a, b, step = c["lats"]
    lats = np.arange(a, b + (step / 2 if b == 90 else -step / 2), step)
    for h in [None] + HEIGHTS:
        rad = R + (h or 0)
        for b0, s in ((0, 1), (360, 1), (180, -1), (-180, -1)):
            for goal in (90., -90., 0., 270., -270., 180.):  # the latitude along the great circle
                way = [(l, abs(goal - l)) for l in lats if (goal - l) * s > 0]
                if not way:
                    continue
                for ln in (0., 11., -180., 77.7):
                    start = np.array([[l, ln] + ([] if h is None else [h]) for l, _ in way])
                    d = np.array([np.deg2rad(w) * rad for _, w in way])
                    end = np.asarray(gps.moveDistance(start, d, b0))
                    rec.step()
                    # 90 -> the pole, 180/0 -> the equator, beyond the pole the latitude falls again
                    want = np.rad2deg(np.arcsin(np.sin(np.deg2rad(goal))))
                    bad = ~(np.abs(end[:, 0] - want) < (1e-5 if abs(want) > 80 else 1e-9))
                    rec.check(not bad.any(), lambda: "moveDistance(%s, %s, %s) ends at %s, expected latitude %s" % (start[bad][0].tolist(), d[bad][0], b0, end[bad][0].tolist(), want))
                    one = np.asarray(gps.moveDistance(start[0], d[0], b0))
                    rec.check(same(one, end[0], 1e-9, 1e-5), lambda: "moveDistance(%s, %s, %s) of a single start: %s" % (start[0], d[0], b0, one))
                    back = np.asarray(gps.getDistance(start[:, :2], end[:, :2]))
                    w = np.array([min(x, 360 - x) if x <= 360 else x - 360 for _, x in way]) * np.pi / 180 * R
                    rec.check(np.all(np.abs(back - w) <= 1.5), lambda: "moving along the meridian from %s ends at distances %s instead of %s" % (start[0], back, w))
                    rec.states += len(way)
                    rec.trace(len(way))


def run_space(c, rec):
    p = c["p"]
    if abs(p[0]) > 89.95:
        return
    xy = np.array(list(itertools.product(OFFS, OFFS)), float)
    far = np.hypot(xy[:, 0], xy[:, 1])
    space = np.column_stack([xy, [HEIGHTS[k % 4] for k in range(len(xy))]])
    close = abs(p[0]) > 85  # keep the lattice away from the pole
    sel = far < (2e3 if close else 1e9)
    space, far = space[sel], far[sel]
    for ref in (p, p + [0.], p + [300.]):
        h0 = ref[2] if len(ref) == 3 else 0.
        scale = R / (R + h0)
        g = np.asarray(gps.gpsFromSpace(space, np.array(ref)))
        rec.check(g.shape == space.shape, "gpsFromSpace shape %s" % (g.shape,))
        rec.check(same(g[:, 2], space[:, 2], 1e-12), "gpsFromSpace: heights are the z coordinates")
        back = np.asarray(gps.spaceFromGPS(g, np.array(ref)))
        rec.check(back.shape == space.shape, "spaceFromGPS shape %s" % (back.shape,))
        want = space * [scale, scale, 1]
        tol = 1e-5 + 1e-7 * far[:, None]
        rec.check(np.all(np.abs(back - want) <= tol + 1e-9 * np.abs(space)), lambda: "space -> gps -> space about %s: %s" % (ref, [(s.tolist(), b.tolist()) for s, b, t in zip(want, back, tol) if not np.all(np.abs(s - b) <= t)][:2]))
        # independent meaning: distance and bearing
        for k in range(len(space)):
            d = arc(p, g[k, :2]) * (R + h0)
            rec.check(abs(d - far[k]) <= 1e-5 + 1e-7 * far[k], lambda: "gpsFromSpace(%s) about %s is at distance %s" % (space[k], ref, d))
            if far[k] > 0.4:
                w = math.degrees(math.atan2(space[k, 0], space[k, 1]))
                rec.check(angdiff(bearing(p, g[k, :2]), w) < 1e-4, lambda: "gpsFromSpace(%s) about %s is in bearing %s" % (space[k], ref, bearing(p, g[k, :2])))
        rec.check(same(gps.gpsFromSpace(space[:, :2], np.array(ref[:2])), np.asarray(gps.gpsFromSpace(space, np.array(ref[:2])))[:, :2], 1e-12), "gpsFromSpace without z differs")
        g2 = np.asarray(gps.gpsFromSpace(space[:, :2], np.array(ref[:2])))
        b2 = np.asarray(gps.spaceFromGPS(g2, np.array(ref[:2])))
        rec.check(b2.shape == (len(g2), 3) and same(b2[:, 2], np.zeros(len(g2))), "spaceFromGPS of points without height")
        rec.check(same(gps.spaceFromGPS(g2, np.array(ref)), b2, 1e-9, 1e-6) and same(gps.spaceFromGPS(g2[1], np.array(ref)), b2[1], 1e-9, 1e-6), lambda: "spaceFromGPS of points without height depends on the height of the reference %s" % ref)
        rec.check(np.all(np.abs(b2[:, :2] - space[:, :2]) <= tol), "space -> gps -> space without heights about %s" % ref)
        rec.step(6)
        rec.states += len(space)
        rec.trace(len(space))
    # a camera uses its own GPS position
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=500., image=(640, 480)), ct.SpatialOrientation(elevation_m=50., tilt_deg=40., heading_deg=70.))
    for route in range(7):
        if route == 0:
            cam.setGPSpos(p[0], p[1])
        elif route == 1:
            cam.setGPSpos(p[0], p[1], 80.)
        elif route == 2:
            cam.setGPSpos(np.array([p[0], p[1], 33.]))
        elif route == 3:
            cam.gps_lat, cam.gps_lon = p
        elif route == 4:        # at sea level
            cam.setGPSpos(p[0], p[1], 0)
        elif route == 5:
            cam.setGPSpos([p[0], p[1], 12])
        else:
            cam.setGPSpos([p[0], p[1], 0.])
        elev = [50., 80., 33., 33., 0, 12, 0][route]
        rec.check(cam.elevation_m == elev and cam.gps_lat == p[0] and cam.gps_lon == p[1], lambda: "setGPSpos route %d: %s %s %s" % (route, cam.gps_lat, cam.gps_lon, cam.elevation_m))
        g = cam.gpsFromSpace(space)
        sc = R / (R + elev)
        tol = 1e-5 + 1e-7 * far[:, None]
        rec.check(np.all(np.abs(np.asarray(cam.spaceFromGPS(g)) - space * [sc, sc, 1]) <= tol), "camera space -> gps -> space")
        rec.check(same(g, gps.gpsFromSpace(space, np.array([p[0], p[1], elev])), 1e-10, 1e-10), "camera.gpsFromSpace is not about its own position")
        rec.check(same(cam.spaceFromGPS(g), gps.spaceFromGPS(g, np.array(p)), 1e-10, 1e-6), "camera.spaceFromGPS is not about its own position")
        if elev == 0:
            continue        # (the ground is seen edge-on)
        img = np.array([[320., 240], [100, 400], [600, 300]])
        gi = cam.gpsFromImage(img)
        rec.check(same(gi, gps.gpsFromSpace(cam.spaceFromImage(img), np.array([p[0], p[1], elev])), 1e-10, 1e-10), "gpsFromImage")
        rec.check(same(cam.gpsFromImage(img, Z=5), gps.gpsFromSpace(cam.spaceFromImage(img, Z=5), np.array([p[0], p[1], elev])), 1e-10, 1e-10), "gpsFromImage(Z=5)")
        rec.check(same(cam.gpsFromImage(img, X=50), gps.gpsFromSpace(cam.spaceFromImage(img, X=50), np.array([p[0], p[1], elev])), 1e-10, 1e-10), "gpsFromImage(X=50)")
        rec.check(same(cam.gpsFromImage(img, D=50), gps.gpsFromSpace(cam.spaceFromImage(img, D=50), np.array([p[0], p[1], elev])), 1e-10, 1e-10), "gpsFromImage(D=50)")
        rec.check(np.max(np.abs(np.asarray(cam.imageFromGPS(gi)) - img)) < 0.05, lambda: "imageFromGPS(gpsFromImage) = %s" % (cam.imageFromGPS(gi),))
        rec.check(same(cam.imageFromGPS(gi), cam.imageFromSpace(gps.spaceFromGPS(gi, np.array(p))), 1e-9, 1e-6), "imageFromGPS")
        rec.step(9)
        rec.trace()


def run_case(c, rec):
    dict(pairs=run_pairs, meridian=run_meridian, move=run_move, space=run_space, near=run_near)[c["kind"]](c, rec)
