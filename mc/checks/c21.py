"""C21: all sequences of rotating / scaling the world, with cameras sharing or not sharing their orientation."""
import itertools, math
import numpy as np
import cameratransform as ct
from mc.util import projection, lens, need_same
from mc.ref import RefCam

ANG = [30., -30., 90, 180., 360., -360., 47.3, 300., -250., 0., 540., -1000]
ANG_S = [30., -30., 180., 360., -250.]
SCALES = [2., 0.25, 2000.]
POINTS = np.array([[0., 30., 0.], [3., 40., 2.], [-5., 60., 5.], [1., 25., -1.], [40., 9., 20.], [-12., -30., 3.], [-0.5, 12., 0.]])
START = [dict(tilt=85., roll=0., heading=0., pos=(0., 0., 30.)), dict(tilt=70., roll=4., heading=35., pos=(3., -2., 9.)),
         dict(tilt=100., roll=-5., heading=-170, pos=(-6, 1, 4)), dict(tilt=30., roll=10., heading=355., pos=(0., 5., 12.)), dict(tilt=80, roll=0, heading=10, pos=(2, -3, -7))]
PARTS = [("rect", "none", (0, 0, 0)), ("rect", "brown", (.05, .01, 0.)), ("cyl", "none", (0, 0, 0)), ("cyl", "abc", (.01, .02, .01)),
         ("equi", "none", (0, 0, 0)), ("equi", "brown", (.03, 0., 0.))]
# cameras of a group -> index of the orientation they use
SHARE = [(0,), (0, 1), (0, 0), (0, 1, 2), (0, 1, 0), (0, 0, 0), (0, 1, 1)]
ASSUMPTIONS = ["angles and scales are taken from the listed alphabets; scale factors are positive",
               "the group shares an orientation as the same object"]
BOUNDS = {"quick": "single cameras: 6 projection/lens pairs x 5 start orientations (one below the ground, two given in integers) x {tilt/roll/heading, yaw/pitch/roll} x defaults or values x all sequences of <= 2 rotations of 12 angles (two of more than a full turn) and 3 rotations of 5 angles; groups: 7 sharing patterns of <= 3 cameras x all sequences of <= 3 operations from {rotate via camera i by 2 angles, rotate every orientation, scale by 3 factors}",
          "thorough": "single cameras: all sequences of <= 3 rotations of 12 angles and 4 of 5; groups: all sequences of <= 4 operations"}


def cases(tier):
    for ypr, dflt in itertools.product([False, True], [False, True]):
        for k in range(len(PARTS)):
            for s in range(len(START)):
                if dflt and s:
                    continue
                yield dict(kind="single", ypr=ypr, dflt=dflt, part=k, start=s, tier=tier)
    for ypr in (False, True):
        for p in range(len(SHARE)):
            for k in range(len(PARTS)):
                yield dict(kind="group", ypr=ypr, share=p, part=k, tier=tier)


def orientation(st, ypr, dflt=False):
    if dflt:
        o = (ct.SpatialOrientationYawPitchRoll if ypr else ct.SpatialOrientation)()
        for n, v in dict(elevation_m=st["pos"][2], pos_x_m=st["pos"][0], pos_y_m=st["pos"][1], roll_deg=(-1 if ypr else 1) * st["roll"]).items():
            setattr(o.defaults, n, v)
        if ypr:
            o.defaults.pitch_deg, o.defaults.yaw_deg = st["tilt"] - 90, st["heading"]
        else:
            o.defaults.tilt_deg, o.defaults.heading_deg = st["tilt"], st["heading"]
        return o
    if ypr:
        return ct.SpatialOrientationYawPitchRoll(elevation_m=st["pos"][2], yaw_deg=st["heading"], pitch_deg=st["tilt"] - 90, roll_deg=-st["roll"], pos_x_m=st["pos"][0], pos_y_m=st["pos"][1])
    return ct.SpatialOrientation(elevation_m=st["pos"][2], tilt_deg=st["tilt"], roll_deg=st["roll"], heading_deg=st["heading"], pos_x_m=st["pos"][0], pos_y_m=st["pos"][1])


def turn(points, deg):
    a = math.radians(math.fmod(deg, 360.))
    c, s = math.cos(a), math.sin(a)
    p = np.array(points, float)
    return np.stack([c * p[..., 0] + s * p[..., 1], -s * p[..., 0] + c * p[..., 1], p[..., 2]], -1)


class Model:
    """heading and position of one orientation, and the transformation its world has gone through"""

    def __init__(self, st):
        self.st, self.heading, self.pos, self.rot, self.scale = st, st["heading"], np.array(st["pos"]), 0., 1.

    def rotate(self, a):
        self.heading += a
        self.rot += a
        self.pos = turn(self.pos, a)

    def rescale(self, f):
        self.pos = self.pos * f
        self.scale *= f

    def world(self, p):
        return turn(np.array(p) * self.scale, self.rot)


PRJ = dict(rect=dict(fx=1000., fy=1100., cx=310., cy=250., w=640, h=480), cyl=dict(fx=600., fy=650., cx=640., cy=200., w=1300, h=420),
           equi=dict(fx=300., fy=320., cx=900., cy=450., w=1900, h=900))


def verify(rec, cam, m, part, before, ypr, how, group=False):
    pr, ln, co = part
    want_world = m.world(POINTS)
    need_same(rec, cam.imageFromSpace(want_world), before[0], "%s: images of the moved points" % how, 1e-6, 1e-5)
    if not group:
        ref = RefCam(pr, *(PRJ[pr][k] for k in ("fx", "fy", "cx", "cy", "w", "h")), ln, co, m.st["tilt"], m.st["roll"], m.heading, tuple(m.pos))
        need_same(rec, cam.imageFromSpace(want_world), np.array([ref.image(p) for p in want_world]), "%s: images of the moved points (reference)" % how, 1e-6, 1e-5)
    need_same(rec, cam.getPos(), m.pos, "%s: position" % how, 1e-9, 1e-7 * max(1, m.scale))
    o, d = cam.getRay(before[2], normed=True)
    need_same(rec, d, turn(before[1], m.rot), "%s: viewing rays" % how, 1e-6, 1e-7)
    h = cam.yaw_deg if ypr else cam.heading_deg
    rec.check(abs(math.remainder(h - m.heading, 360.)) < 1e-7, lambda: "%s: heading is %s, expected %s" % (how, h, m.heading))
    tilt = cam.pitch_deg + 90 if ypr else cam.tilt_deg
    roll = -cam.roll_deg if ypr else cam.roll_deg
    rec.check(tilt == m.st["tilt"] and roll == m.st["roll"], lambda: "%s: tilt %s roll %s changed" % (how, tilt, roll))
    rec.check(abs(cam.elevation_m - m.pos[2]) <= 1e-9 * abs(m.pos[2]), lambda: "%s: elevation %s, expected %s" % (how, cam.elevation_m, m.pos[2]))
    rec.step()


def snapshot(cam, pr):
    w, h = PRJ[pr]["w"], PRJ[pr]["h"]
    px = np.array([[0., 0.], [w / 2, h / 2], [w, h], [w * .3, h * .8]])
    return cam.imageFromSpace(POINTS), cam.getRay(px, normed=True)[1], px


def run_case(case, rec):
    deep = case["tier"] == "thorough"
    pr, ln, co = part = PARTS[case["part"]]
    ypr = case["ypr"]
    if case["kind"] == "single":
        st = START[case["start"]]
        seqs = [s for n in range(1, 4 if deep else 3) for s in itertools.product(ANG, repeat=n)]
        seqs += list(itertools.product(ANG_S, repeat=4 if deep else 3))
        for seq in seqs:
            cam = ct.Camera(projection(pr, **PRJ[pr]), orientation(st, ypr, case["dflt"]), lens(ln, co))
            m = Model(st)
            before = snapshot(cam, pr)
            for i, a in enumerate(seq):
                cam.rotateSpace(a)
                m.rotate(a)
                rec.step()
                if i == len(seq) - 1:
                    verify(rec, cam, m, part, before, ypr, "rotated by %s" % (seq[:i + 1],))
            rec.state((case["part"], case["start"], ypr, case["dflt"], round(m.heading, 6)))
            rec.trace()
        rec.sample(dict(camera=st, rotations=list(seq)))
        return
    share = SHARE[case["share"]]
    n = max(share) + 1
    ops = [("rot", i, a) for i in range(len(share)) for a in (30., -250.)] + [("rotall", None, 47.3)] + [("scale", None, f) for f in SCALES]
    depth = 4 if deep else 3
    seqs = [s for d in range(1, depth + 1) for s in itertools.product(ops, repeat=d)]
    for seq in seqs:
        oris = [orientation(START[(1, 4, 2)[j]], ypr) for j in range(n)]
        prs = [projection(pr, **PRJ[pr]) for _ in share]
        g = ct.CameraGroup(prs if len(share) > 1 else prs[0], [oris[j] for j in share] if len(share) > 1 else oris[0], lens(ln, co))
        ms = [Model(START[(1, 4, 2)[j]]) for j in range(n)]
        befores = [snapshot(cam, pr) for cam in g]
        for k, (op, i, v) in enumerate(seq):
            if op == "rot":
                g[i].rotateSpace(v)
                ms[share[i]].rotate(v)
            elif op == "rotall":
                for j in range(n):
                    g[share.index(j)].rotateSpace(v)
                    ms[j].rotate(v)
            else:
                g.scaleSpace(v)
                for mm in ms:
                    mm.rescale(v)
            rec.step()
        for i, cam in enumerate(g):
            verify(rec, cam, ms[share[i]], part, befores[i], ypr, "camera %d of %s after %s" % (i, share, seq), True)
        rec.state((case["part"], ypr, share, tuple((round(m.heading, 6), round(m.scale, 9)) for m in ms)))
        rec.trace()
    rec.sample(dict(sharing=share, history=list(seq)))
