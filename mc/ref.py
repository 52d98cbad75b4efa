"""Independent reference model of the documented camera geometry (pure numpy, written from the documentation)."""
import math
import numpy as np

R_EARTH = 6371e3


def rot(tilt_deg, roll_deg, heading_deg):
    t, r, h = (math.radians(math.fmod(a, 360.0)) for a in (tilt_deg, roll_deg, heading_deg))
    Rr = np.array([[math.cos(r), math.sin(r), 0], [-math.sin(r), math.cos(r), 0], [0, 0, 1]])
    Rt = np.array([[1, 0, 0], [0, math.cos(t), math.sin(t)], [0, -math.sin(t), math.cos(t)]])
    Rh = np.array([[math.cos(h), -math.sin(h), 0], [math.sin(h), math.cos(h), 0], [0, 0, 1]])
    return Rr @ Rt @ Rh


class RefCam:
    """proj: rect|cyl|equi ; fx fy cx cy w h ; lens: none|brown|abc with coefficients ; orientation tilt/roll/heading"""

    def __init__(self, proj, fx, fy, cx, cy, w, h, lens="none", coef=(0, 0, 0), tilt=85., roll=0., heading=0.,
                 pos=(0., 0., 30.)):
        self.proj, self.fx, self.fy, self.cx, self.cy, self.w, self.h = proj, fx, fy, cx, cy, w, h
        self.lens, self.coef = lens, tuple(coef)
        self.R = rot(tilt, roll, heading)
        self.t = np.array(pos, dtype=float)

    # orientation
    def cam_from_space(self, p):
        return self.R @ (np.asarray(p, float) - self.t)

    def space_from_cam(self, p, direction=False):
        q = self.R.T @ np.asarray(p, float)
        return q if direction else q + self.t

    # projection
    def project(self, p, hide=True):
        x, y, z = (float(v) for v in p)
        if self.proj == "rect":
            if z > 0 and hide:
                return np.array([np.nan, np.nan])
            return np.array([-x * self.fx / z + self.cx, y * self.fy / z + self.cy])
        xi = -self.fx * math.atan2(-x, -z) + self.cx
        rho = math.hypot(x, z)
        if self.proj == "cyl":
            if rho == 0:
                return np.array([np.nan, np.nan])
            return np.array([xi, -self.fy * y / rho + self.cy])
        return np.array([xi, -self.fy * math.atan2(y, rho) + self.cy])

    def ray(self, p):
        """unit viewing direction in camera coordinates of an undistorted image point"""
        a = (p[0] - self.cx) / self.fx
        b = (p[1] - self.cy) / self.fy
        if self.proj == "rect":
            v = np.array([a, -b, -1.0])
        elif self.proj == "cyl":
            v = np.array([math.sin(a), -b, -math.cos(a)])
        else:
            v = np.array([math.sin(a) * math.cos(b), -math.sin(b), -math.cos(a) * math.cos(b)])
        return v / np.linalg.norm(v)

    # lens
    def lens_scale(self):
        if self.lens == "brown":
            return np.array([self.fx, self.fy], float)
        if self.lens == "abc":
            s = min(self.w, self.h) / 2
            return np.array([s, s], float)
        return np.array([1., 1.])

    def radial(self, r):
        c = self.coef
        if self.lens == "brown":
            return r * (1 + c[0] * r ** 2 + c[1] * r ** 4 + c[2] * r ** 6)
        if self.lens == "abc":
            a, b, cc = c
            return (1 - a - b - cc) * r + cc * r ** 2 + b * r ** 3 + a * r ** 4
        return r

    def dradial(self, r):
        c = self.coef
        if self.lens == "brown":
            return 1 + 3 * c[0] * r ** 2 + 5 * c[1] * r ** 4 + 7 * c[2] * r ** 6
        if self.lens == "abc":
            a, b, cc = c
            return (1 - a - b - cc) + 2 * cc * r + 3 * b * r ** 2 + 4 * a * r ** 3
        return np.ones_like(r)

    def monotone_radius(self, rmax=2.0, n=4000):
        """first radius where the radial polynomial stops increasing (or rmax)"""
        r = np.linspace(0, rmax, n)
        bad = np.nonzero(self.dradial(r) <= 0)[0]
        return rmax if len(bad) == 0 else r[bad[0]]

    def distort(self, p):
        if self.lens == "none":
            return np.asarray(p, float)
        o = np.array([self.cx, self.cy], float)
        s = self.lens_scale()
        q = (np.asarray(p, float) - o) / s
        r = math.hypot(q[0], q[1])
        if r == 0:
            return np.asarray(p, float)
        return q / r * self.radial(r) * s + o

    def undistort(self, p, rmax=2.0):
        """exact inverse on the first increasing branch (bisection); nan when outside"""
        if self.lens == "none":
            return np.asarray(p, float)
        o = np.array([self.cx, self.cy], float)
        s = self.lens_scale()
        q = (np.asarray(p, float) - o) / s
        r = math.hypot(q[0], q[1])
        if r == 0:
            return np.asarray(p, float)
        hi = self.monotone_radius(rmax)
        if self.radial(hi) < r:
            return np.array([np.nan, np.nan])
        lo = 0.0
        for _ in range(100):
            m = (lo + hi) / 2
            if self.radial(m) < r:
                lo = m
            else:
                hi = m
        return q / r * (lo + hi) / 2 * s + o

    # full pipeline
    def image(self, p, hide=True):
        return self.distort(self.project(self.cam_from_space(p), hide))

    def space_ray(self, p):
        return self.space_from_cam(self.ray(self.undistort(p)), direction=True)


# earth ------------------------------------------------------------------------------------------------------------
def unit(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return np.array([math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)])


def arc(p, q):
    """central angle of two (lat, lon) points, accurate everywhere"""
    a, b = unit(*p[:2]), unit(*q[:2])
    return math.atan2(np.linalg.norm(np.cross(a, b)), float(a @ b))
