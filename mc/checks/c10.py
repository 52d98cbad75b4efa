"""C10: GPS text: formatted coordinates read back to the printed precision; all documented notations are equivalent."""
import itertools, math, re
import numpy as np
import cameratransform as ct

# format -> (levels, digits, letter)
FORMATS = [(None, 3, 3, True), ("%2d° %2d' %6.3f\" %s", 3, 3, True), ("%2d° %2.3f' %s", 2, 3, True), ("%2.3f°", 1, 3, False), ("%2d° %2.3f %s", 2, 3, True), ("%d°%d'%.1f\"%s", 3, 1, True),
           ("%2d° %2d' %6.3f\"", 3, 3, False), ("%d° %d' %.5f\"", 3, 5, False), ("%03d°%02d'%06.3f\" %s", 3, 3, True), ("%d° %.4f'", 2, 4, False), ("%.6f°%s", 1, 6, True), ("%d° %d' %.0f\" %s", 3, 0, True), ("%.1f°", 1, 1, False),
           ("%4d° %2.1f'", 2, 1, False), ("%.8f°", 1, 8, False), ("%d° %d' %.7f'' %s", 3, 7, True), ("%2d° %2d' %4.2f\" %s", 3, 2, True)]
DEG = [0, 1, 8, 9, 10, 59, 60, 70, 89, 90, 100, 179, 180]
MIN = [0, 1, 9, 29, 30, 58, 59]
SEC = [0, 0.0004, 0.0005, 0.0006, 0.04, 0.05, 0.4, 0.5, 1, 4.98, 29.94, 29.95, 29.9995, 30, 59, 59.4, 59.5, 59.94, 59.95, 59.96, 59.994, 59.9951, 59.9994, 59.9995, 59.9996, 59.99996, 59.999996, 59.99999996]
SEC_T = sorted(set(SEC + [round(60 * i / 97, 6) for i in range(97)]))


def lattice(tier):
    vals = []
    for d in (DEG if tier == "quick" else range(0, 181)):
        for m in (MIN if tier == "quick" else MIN + [10, 20, 40, 50, 57]):
            for s in (SEC if tier == "quick" else SEC_T):
                v = d + m / 60 + s / 3600
                if v <= 180:
                    vals.append(v)
        for x in (d + 0.0004999, d + 0.0005, d + 0.9995, d + 0.9994999, d + 0.99999, d + 0.05, d + 0.95, np.nextafter(d, 1e9), np.nextafter(float(d), -1), d + 0.1, d + 0.7, 1 / 3 + d):
            if 0 <= x <= 180:
                vals.append(float(x))
    return sorted(set(vals))


ASSUMPTIONS = ["formats end in a floating point place holder (a trailing %d truncates by design)", "tolerance: half a unit of the last printed digit plus 2e-11 degrees"]
BOUNDS = {t: "%d values x 4 sign combinations x %d formats; all glyph/letter/sign/separator/container notations of 14 positions; heights of 13 number types" % (len(lattice(t)), len(FORMATS)) for t in ("quick", "thorough")}
CHUNK = 4


def cases(tier):
    vals = lattice(tier)
    for f in range(len(FORMATS)):
        for i in range(0, len(vals), 400):
            yield dict(kind="fmt", f=f, vals=vals[i:i + 400])
    for i in range(len(POSITIONS)):
        yield dict(kind="read", pos=i)
    yield dict(kind="lists")


def fields(s, levels):
    return [float(x) for x in re.findall(r"-?\s*\d+(?:\.\d+)?", s)]


def run_fmt(c, rec):
    fmt, levels, digits, letter = FORMATS[c["f"]]
    half = 0.5 * 10.0 ** -digits / 60 ** (levels - 1) + 2e-11
    n = len(c["vals"])
    for i, v in enumerate(c["vals"]):
        for sa, sb in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            lat = sa * (v if v <= 90 else v - 90)
            lon = sb * v
            if i % 5 == 1:
                lat, lon = np.float64(lat), np.float64(lon)
            res = ct.formatGPS(lat, lon) if fmt is None else ct.formatGPS(lat, lon, fmt) if i % 2 else ct.formatGPS(lat, lon, format=fmt)
            rec.step()
            what = "formatGPS(%r, %r, %r) = %r" % (float(lat), float(lon), fmt, list(res))
            rec.check(len(res) == 2, what)
            for val, s, letters in ((lat, res[0], "NS"), (lon, res[1], "EW")):
                nums = [abs(x) for x in fields(s, levels)]
                rec.check(len(nums) == levels, what + ": number of fields")
                rec.check(all(x < 60 for x in nums[1:]), lambda: what + ": minutes and seconds have to be below 60")
                printed = sum(x / 60 ** k for k, x in enumerate(nums))
                rec.check(abs(printed - abs(val)) <= half, lambda: what + ": %s prints as %s" % (val, s))
                neg = "-" in s
                if letter:
                    rec.check(not neg and s.strip()[-1] == letters[1 if val < 0 else 0], lambda: what + ": hemisphere of %s" % val)
                elif printed > 0:
                    rec.check(neg == (val < 0), lambda: what + ": sign of %s" % val)
                got = ct.gpsFromString(s)
                rec.step()
                rec.check(got is not None and abs(got - val) <= half, lambda: what + ": %r reads back as %r" % (s, got))
            for joined in (" ".join(res), ", ".join(res)):
                got = ct.gpsFromString(joined)
                rec.check(np.shape(got) == (2,) and abs(got[0] - lat) <= half and abs(got[1] - lon) <= half, lambda: what + ": %r reads back as %r" % (joined, got))
            got = ct.gpsFromString(list(res), 12.5)
            rec.check(np.shape(got) == (3,) and abs(got[0] - lat) <= half and abs(got[1] - lon) <= half and got[2] == 12.5, lambda: what + ": the pair with height reads back as %r" % (got,))
            rec.step(3)
            rec.trace()
            rec.states += 1
            rec.outcome(res[0][-6:])


POSITIONS = [((66, 39, "56.12862"), "S", (140, 1, "20.39562"), "E"), ((85, 19, "14"), "N", (0, 2, "43"), "E"), ((70, 37, "4.980"), "S", (8, 9, "26.280"), "W"), ((0, 30, "0.5"), "S", (0, 0, "1"), "W"),
             ((0, 0, "0"), "N", (0, 0, "0"), "E"), ((90, 0, "0.0"), "S", (180, 0, "0"), "W"), ((5, 5, "5.5"), "N", (5, 5, "5.5"), "W"), ((12, 59, "59.999"), "S", (179, 59, "59.999"), "E"),
             ((1, 2, "3"), "N", (4, 5, "6"), "E"), ((45, 0, "30"), "S", (100, 10, "0.125"), "E"), ((0, 0, "59.9"), "N", (10, 0, "0"), "W"), ((33, 51, "54"), "S", (151, 12, "36.0"), "E"), ((7, 8, "09"), "N", (9, 10, "11.25"), "E"), ((60, 37, "36"), "N", (24, 56, "15"), "E")]
MG = ["'", "′", "´", "’"]
SG = ["''", "\"", "´´", "″", "’’", "”"]


def texts(dms, letter, mode):
    """all notations of one coordinate: yields (text, notation key) -- the two coordinates of a string use the same key"""
    d, m, s = dms
    neg = letter in "SW"
    for pad in ("", "pad"):
        ds = "%03d" % d if pad else "%d" % d
        mn = "%02d" % m if pad else "%d" % m
        for sign in ("letter", "sign", "sp letter"):
            if sign == "sign":
                pre, post = "-" if neg else "", ""
            elif sign == "letter":
                pre, post = "", letter
            else:
                pre, post = "", " " + letter
            for sp in ("", " "):
                for mg in MG:
                    for sg in SG:
                        yield (pre + ds + "°" + sp + mn + mg + sp + s + sg + post, ("dms", pad, sign, sp, mg, sg))
                dm = repr(round(m + float(s) / 60, 10))
                for mg in MG + [""]:
                    yield (pre + ds + "°" + sp + dm + mg + post, ("dm", pad, sign, sp, mg))
            yield (pre + repr(round(d + m / 60 + float(s) / 3600, 12)) + "°" + post, ("d", pad, sign))


def run_read(c, rec):
    (la, lal, lo, lol) = POSITIONS[c["pos"]]
    val = lambda t, l: (t[0] + t[1] / 60 + float(t[2]) / 3600) * (-1 if l in "SW" else 1)
    a, b = val(la, lal), val(lo, lol)
    ok = lambda g, w: g is not None and np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=0, atol=3e-10)
    for (ta, ka), (tb, kb) in zip(texts(la, lal, 0), texts(lo, lol, 0)):
        assert ka == kb
        rec.check(ok(ct.gpsFromString(ta), a), lambda: "%r reads as %r, expected %r" % (ta, ct.gpsFromString(ta), a))
        rec.check(ok(ct.gpsFromString(tb), b), lambda: "%r reads as %r, expected %r" % (tb, ct.gpsFromString(tb), b))
        for sep in (" ", ", ", "  ", ",", " , ", " ,"):
            t = ta + sep + tb
            got = ct.gpsFromString(t)
            rec.check(ok(got, [a, b]), lambda: "%r reads as %r, expected %r" % (t, got, [a, b]))
        got = ct.gpsFromString(" " + ta + " " + tb + " ")
        rec.check(ok(got, [a, b]), lambda: "%r with surrounding blanks reads as %r" % (t, got))
        for h in (13.769, 0, -5):
            got = ct.gpsFromString(ta + " " + tb, h)
            rec.check(ok(got, [a, b, h]), lambda: "%r with height %r reads as %r" % (t, h, got))
        rec.check(ok(ct.gpsFromString([ta, tb]), [a, b]) and ok(ct.gpsFromString((ta, tb)), [a, b]), lambda: "pair %r reads as %r" % ([ta, tb], ct.gpsFromString([ta, tb])))
        rec.check(ok(ct.gpsFromString([ta, tb], height=7.), [a, b, 7.]), lambda: "pair %r with height" % ([ta, tb],))
        cam = ct.Camera(ct.RectilinearProjection(focallength_px=50, image=(64, 48)))
        cam.setGPSpos(ta + " " + tb)
        rec.check(ok([cam.gps_lat, cam.gps_lon], [a, b]) and cam.elevation_m == 30, lambda: "setGPSpos(%r) sets %r" % (ta + " " + tb, (cam.gps_lat, cam.gps_lon)))
        cam.setGPSpos(ta + " " + tb, elevation=17.5)
        rec.check(ok([cam.gps_lat, cam.gps_lon, cam.elevation_m], [a, b, 17.5]), lambda: "setGPSpos(%r, elevation=17.5) sets %r" % (ta + " " + tb, (cam.gps_lat, cam.gps_lon, cam.elevation_m)))
        rec.step(14)
        rec.trace()
        rec.states += 1
        rec.outcome((round(a, 6), round(b, 6)))


def run_lists(c, rec):
    val = lambda t, l: (t[0] + t[1] / 60 + float(t[2]) / 3600) * (-1 if l in "SW" else 1)
    ok = lambda g, w: np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=0, atol=3e-10)
    pos = []
    for la, lal, lo, lol in POSITIONS:
        pos.append(("%d°%d'%s''%s" % (la + (lal,)), "%d°%d'%s''%s" % (lo + (lol,)), val(la, lal), val(lo, lol)))
    for n in (1, 2, 3, 4):
        for idx in itertools.product(range(0, 8 if n < 4 else 4), repeat=n):
            sel = [pos[i] for i in idx]
            w = [[p[2], p[3]] for p in sel]
            hs = [10.5 * (k + 1) for k in range(n)]
            wh = [x + [h] for x, h in zip(w, hs)]
            w1 = [x + [4.5] for x in w]
            forms = [([p[0] + " " + p[1] for p in sel], None, w), ([[p[0], p[1]] for p in sel], None, w), ([[p[0] + " " + p[1], h] for p, h in zip(sel, hs)], None, wh),
                     ([(p[0] + " " + p[1], h) for p, h in zip(sel, hs)], None, wh), ([p[0] + " " + p[1] for p in sel], 4.5, w1), ([p[0] + " " + p[1] for p in sel], hs, wh), ([p[0] + " " + p[1] for p in sel], np.array(hs), wh)]
            for f, h, want in forms:
                got = ct.gpsFromString(f) if h is None else ct.gpsFromString(f, h)
                rec.check(ok(got, want), lambda: "gpsFromString(%r, %r) = %r, expected %r" % (f, h, got, want))
                rec.step()
            rec.trace()
            rec.states += 1
    # heights of every kind of number, as third entry of a point and as an argument
    for kind in (int, float, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float16, np.float32, np.float64):
        for (ta, tb, a, b), h in itertools.product(pos, (0, 7, 100)):
            h = kind(h)
            for f, arg, want in (((ta + " " + tb, h), None, [a, b, float(h)]), ([ta + " " + tb, h], None, [a, b, float(h)]), ([(ta + " " + tb, h)] * 2, None, [[a, b, float(h)]] * 2),
                                 (ta + " " + tb, h, [a, b, float(h)]), ([ta, tb], h, [a, b, float(h)]), ([ta + " " + tb] * 3, [h] * 3, [[a, b, float(h)]] * 3), ([ta + " " + tb] * 3, h, [[a, b, float(h)]] * 3)):
                try:
                    got = np.array(ct.gpsFromString(f) if arg is None else ct.gpsFromString(f, arg), dtype=float)
                except (TypeError, ValueError) as e:
                    got = e
                rec.check(ok(got, want), lambda: "gpsFromString(%r, %r) = %r, expected %r" % (f, arg, got, want))
                rec.step()
            rec.trace()
            rec.states += 1


def run_case(c, rec):
    dict(fmt=run_fmt, read=run_read, lists=run_lists)[c["kind"]](c, rec)
