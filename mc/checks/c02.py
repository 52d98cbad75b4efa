"""C02: orientation = documented rigid motion; exact inverse; periodic; YawPitchRoll equivalence."""
import itertools
import numpy as np
import cameratransform as ct
from mc.ref import rot
from mc.util import need_same, arr

ANG_Q = {"tilt": [0, 30, 85, 90, 91, 180, -45, -90, 270, 400, 1e-4, 90.03],
         "roll": [0, 20, -75, 90, -90, 180, -180, 270, 365, -1e-4],
         "heading": [0, 45, -120, 90, 180, -180, 270, 359.5, 360, -360, 361, 405, 720, 810, -361, -450, -1000, 2e-4, -0.04]}
ANG_T = {"tilt": sorted(set(ANG_Q["tilt"] + list(range(-180, 181, 15)) + [1e-3, 89.999, 721, -400])),
         "roll": sorted(set(ANG_Q["roll"] + list(range(-180, 181, 20)) + [-400, 721])),
         "heading": sorted(set(ANG_Q["heading"] + list(range(-720, 721, 30)) + [1e-3, 5000.25, -5000.25]))}
POS = [(0., 0., 0.), (3., -2., 30.), (-1500.5, 2000.25, -12.), (4.4e5, -5.5e6, -2e4), (4e-4, -7e-4, 6e-4)]
FAR = [(500123.456789, 5400321.123456, 321.123456), (-123456.789, 987654.321, 8848.86), (1e7 + 0.123456, -1e7 - 0.654321, 0.1)]  # map coordinates
PTS = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 2, -3], [100.5, -20.25, 7], [-3000, 1000, 50]], float)
ASSUMPTIONS = ["float64 arithmetic of numpy; tolerance 1e-8 relative to the magnitude of the coordinates (1e-6 for headings beyond 1000 degrees)"]
BOUNDS = {"quick": "tilt %d x roll %d x heading %d x 5 positions (and 3 in map coordinates, to 0.1 um) x 7 points (at one position also as a single point, lists, grids and an empty batch), constructor, attribute and fit routes, plus yaw/pitch/roll" % tuple(len(v) for v in ANG_Q.values()),
          "thorough": "tilt %d x roll %d x heading %d x 5 positions x 7 points, plus yaw/pitch/roll" % tuple(len(v) for v in ANG_T.values())}


def cases(tier):
    a = ANG_Q if tier == "quick" else ANG_T
    for t in a["tilt"]:
        for r in a["roll"]:
            yield dict(kind="thr", tilt=t, roll=r, headings=a["heading"])
    for t in a["tilt"]:
        for r in a["roll"]:
            yield dict(kind="ypr", pitch=t, roll=r, yaws=a["heading"])


def run_case(c, rec):
    for h in (c["headings"] if c["kind"] == "thr" else c["yaws"]):
        for pi, pos in enumerate(POS):
            if c["kind"] == "thr":
                kw = dict(tilt_deg=c["tilt"], roll_deg=c["roll"], heading_deg=h)
                R = rot(c["tilt"], c["roll"], h)
                cls = ct.SpatialOrientation
            else:
                kw = dict(pitch_deg=c["pitch"], roll_deg=c["roll"], yaw_deg=h)
                R = rot(c["pitch"] + 90, -c["roll"], h)
                cls = ct.SpatialOrientationYawPitchRoll
            kw.update(pos_x_m=pos[0], pos_y_m=pos[1], elevation_m=pos[2])
            if pi == 1:  # attribute route
                o = cls()
                for k, v in kw.items():
                    setattr(o, k, v)
            elif pi == 2:  # fit route
                o = cls(**{k: 5. for k in kw})
                o.parameters.set_fit_parameters(list(kw), list(kw.values()))
            else:
                o = cls(**kw)
            t = np.array(pos)
            tol = dict(rtol=1e-8, atol=1e-8 * (1 + np.abs(t).max() + 3000 * (1e2 if abs(h) > 1000 else 1)))
            what = "%s %s" % (cls.__name__, kw)
            cam = (PTS - t) @ R.T
            got = o.cameraFromSpace(PTS)
            need_same(rec, got, cam, "cameraFromSpace " + what, **tol)
            need_same(rec, o.spaceFromCamera(got), PTS, "spaceFromCamera(cameraFromSpace) " + what, **tol)
            need_same(rec, o.spaceFromCamera(PTS), PTS @ R + t, "spaceFromCamera " + what, **tol)
            need_same(rec, o.spaceFromCamera(PTS, direction=True), PTS @ R, "spaceFromCamera(direction) " + what, **tol)
            need_same(rec, o.cameraFromSpace(o.spaceFromCamera(PTS)), PTS, "cameraFromSpace(spaceFromCamera) " + what, **tol)
            if pi == 1:  # other arrangements of the same points: alone, as grids, as lists
                for shape, P in (("point", PTS[4]), ("3 points", PTS[4:7]), ("grid 2x3", PTS[1:7].reshape(2, 3, 3)), ("grid 3x2", PTS[1:7].reshape(3, 2, 3)),
                                 ("grid 1x1", PTS[4].reshape(1, 1, 3)), ("list", PTS[3:5].tolist()), ("stack 2x3x1", PTS[1:7].reshape(2, 3, 1, 3)), ("none", PTS[:0])):
                    A = np.asarray(P)
                    need_same(rec, o.cameraFromSpace(P), (A - t) @ R.T, "cameraFromSpace of a %s %s" % (shape, what), **tol)
                    need_same(rec, o.spaceFromCamera(P), A @ R + t, "spaceFromCamera of a %s %s" % (shape, what), **tol)
                    need_same(rec, o.spaceFromCamera(P, direction=True), A @ R, "spaceFromCamera(direction) of a %s %s" % (shape, what), **tol)
                    rec.step(3)
                # positions in map coordinates keep all their digits
                for far in FAR:
                    f = np.array(far)
                    of = cls(**dict(kw, pos_x_m=far[0], pos_y_m=far[1], elevation_m=far[2]))
                    near = dict(rtol=0, atol=1e-7 * (1e3 if abs(h) > 1000 else 1))
                    N = PTS[:5]
                    need_same(rec, of.spaceFromCamera(N), N @ R + f, "spaceFromCamera at %s %s" % (far, what), **near)
                    need_same(rec, of.cameraFromSpace(N + f), (N + f - f) @ R.T, "cameraFromSpace at %s %s" % (far, what), **near)
                    need_same(rec, of.cameraFromSpace(f), np.zeros(3), "cameraFromSpace of the position %s %s" % (far, what), **near)
                    rec.step(3)
            # through a camera: the ray of the principal point is the optical axis, starting at the camera position
            camera = ct.Camera(ct.RectilinearProjection(focallength_px=500., image=(640, 480)), o)
            off, d = camera.getRay([320., 240.], normed=True)
            need_same(rec, off, t, "ray origin " + what, **tol)
            need_same(rec, camera.getPos(), t, "getPos " + what, **tol)
            need_same(rec, d, arr([0, 0, -1]) @ R, "optical axis " + what, **tol)
            rec.step(8)
            rec.trace()
            rec.states += len(PTS)
            rec.outcome(np.round(got, 6).tolist())
