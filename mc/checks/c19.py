"""C19: EXIF parameters for generated images, and all sequences of database faults (network faults, disk full after every byte)."""
import contextlib, io, itertools, os, resource, shutil, signal, tempfile
import numpy as np
import requests
from PIL import Image, TiffImagePlugin
import cameratransform as ct
from mc.util import same

DB = ("Canon;EOS 5D;full frame;35.8;23.9;devicespecifications\nCanon;EOS 5D Mark II;full frame;36;24;dp\nCanon;PowerShot S100;1/1.7;7.44;5.58;x\n"
      "NIKON;D7000 X;APS-C;23.1;15.4;x\nNIKON;D7000;APS-C;23.6;15.6;x\nSony;A;half;10;7.5;x\nGoPro;HERO 4 Black;1/2.3;6.17;4.55;x\n")
MODELS = {"Canon EOS 5D": (35.8, 23.9), "Canon EOS 5D Mark II": (36., 24.), "Canon PowerShot S100": (7.44, 5.58), "NIKON D7000": (23.6, 15.6), "NIKON D7000 X": (23.1, 15.4), "Sony A": (10., 7.5), "GoPro HERO 4 Black": (6.17, 4.55),
          "Canon EOS": None, "Canon": None, "NIKON D700": None, "Sony AB": None, "EOS 5D": None, "Unknown X1": None, "canon EOS 5D": None, "Canon EOS 5D Mark": None}
FOCAL = [(50, 1), (1400, 100), (5, 2), (85, 1)]
SIZES = [(24, 16), (40, 30), (15, 20)]
RES = [((2000, 1), (2000, 1)), ((437043, 100), (436219, 100)), ((7, 3), (11, 5))]
UNITS = [None, 2, 3]
NET = ["ok", "refused", "404", "timeout", "bodyfail", "interrupt"]
ASSUMPTIONS = ["the database is fetched with requests.get, which is replaced by a local stand-in; the disk fills up after every possible number of bytes (RLIMIT_FSIZE) while the database is stored",
               "a call during a fault may raise or fall back to the focal plane resolution; it may not return a wrong size"]
BOUNDS = {"quick": "all combinations of %d models, %d focal lengths, %d image sizes, %d resolutions, %d resolution units, database on/off; all sequences of up to 3 calls over %d network states x 3 models; a full disk after every byte of the database, followed by a working call" % (len(MODELS), len(FOCAL), len(SIZES), len(RES), len(UNITS), len(NET)),
          "thorough": "fault sequences of up to 4 calls"}


def cases(tier):
    for m in MODELS:
        yield dict(kind="exif", model=m)
    for k in range(1, 4 if tier == "quick" else 5):
        for first in NET:
            yield dict(kind="faults", first=first, n=k)
    for b in range(0, len(DB) + 2, 20):
        yield dict(kind="disk", start=b)


class Resp:
    def __init__(self, state):
        self.state = state
        self.status_code = 404 if state == "404" else 200
        self.ok = self.status_code < 400
        self.encoding = "utf-8"
        self.reason = "x"
        self.headers = {}

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError("404")

    @property
    def text(self):
        if self.state == "404":
            return "404: Not Found"
        if self.state == "bodyfail":
            raise requests.exceptions.ChunkedEncodingError("cut")
        if self.state == "interrupt":
            raise KeyboardInterrupt()
        return DB

    @property
    def content(self):
        return self.text.encode()

    def iter_content(self, chunk_size=1, decode_unicode=False):
        t = self.text if decode_unicode else self.content
        for i in range(0, len(t), 64):
            yield t[i:i + 64]

    def iter_lines(self, decode_unicode=False, **k):
        return iter(self.text.split("\n") if decode_unicode else self.content.split(b"\n"))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def scratch():
    """an empty working directory and a network stand-in"""
    old, get = os.getcwd(), requests.get
    d = tempfile.mkdtemp(prefix="c19", dir=os.environ.get("VERIF_SCRATCH") or None)
    net = dict(state="ok", calls=0)

    def fake(url, *a, **k):
        net["calls"] += 1
        if net["state"] == "refused":
            raise requests.ConnectionError("refused")
        if net["state"] == "timeout":
            raise requests.Timeout("timeout")
        return Resp(net["state"])

    os.chdir(d)
    requests.get = fake
    try:
        yield net
    finally:
        requests.get = get
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def rational(v):
    return TiffImagePlugin.IFDRational(*v)


def write(name, model, focal, size, res, unit):
    e = Image.Exif()
    e[0x0110] = model
    ifd = e.get_ifd(0x8769)
    ifd[0x920A] = rational(focal)
    ifd[0xA002], ifd[0xA003] = size
    ifd[0xA20E], ifd[0xA20F] = rational(res[0]), rational(res[1])
    if unit is not None:
        ifd[0xA210] = unit
    Image.new("RGB", size).save(name, exif=e)


def plane(size, res, unit):
    mm = {None: 25.4, 2: 25.4, 3: 10.}[unit]
    return tuple(s / (r[0] / r[1]) * mm for s, r in zip(size, res))


def run_exif(c, rec):
    with scratch() as net:
        for f, s, r, u, use in itertools.product(FOCAL, SIZES, RES, UNITS, (True, False)):
            write("i.jpg", c["model"], f, s, r, u)
            with contextlib.redirect_stdout(io.StringIO()):
                focal, sensor, size = ct.getCameraParametersFromExif("i.jpg", verbose=(f == FOCAL[0]), sensor_from_database=use)
            want = MODELS[c["model"]] if use and MODELS[c["model"]] else plane(s, r, u)
            what = "model %s, focal length %s, size %s, resolution %s unit %s, database %s" % (c["model"], f, s, r, u, use)
            rec.check(same(focal, f[0] / f[1], 1e-6), lambda: "%s: focal length %s" % (what, focal))
            rec.check(same(sensor, want, 1e-5), lambda: "%s: sensor size %s, expected %s" % (what, sensor, want))
            rec.check(tuple(size) == s, lambda: "%s: image size %s" % (what, size))
            if f == FOCAL[0]:
                p = ct.RectilinearProjection(focallength_mm=focal, sensor=sensor, image=size)
                rec.check(same(p.focallength_x_px, f[0] / f[1] / want[0] * s[0], 1e-5), "projection from EXIF parameters")
            rec.states += 1
            rec.step()
            rec.trace()
            rec.outcome((want, s))


SEQ_MODELS = ["Canon EOS 5D Mark II", "NIKON D7000", "Unknown X1"]


def call(rec, model, net, what):
    """one call; returns whether it gave an answer"""
    s, r = SIZES[0], RES[0]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            focal, sensor, size = ct.getCameraParametersFromExif(model.replace(" ", "_") + ".jpg")
    except (Exception, KeyboardInterrupt):
        rec.check(net["state"] != "ok" or net.get("disk"), lambda: "%s: no answer although the database is reachable" % what)
        return False
    db = MODELS[model]
    ok = same(sensor, db or plane(s, r, None), 1e-5)
    if net["state"] != "ok" or net.get("disk"):
        ok = ok or same(sensor, plane(s, r, None), 1e-5)
    rec.check(ok, lambda: "%s: sensor size %s, expected %s" % (what, sensor, db or plane(s, r, None)))
    rec.check(abs(focal - 50) < 1e-9 and tuple(size) == s, "focal length or image size")
    return True


def run_faults(c, rec):
    for rest in itertools.product(NET, repeat=c["n"] - 1):
        for models in itertools.product(SEQ_MODELS, repeat=c["n"]) if c["n"] < 3 else [[SEQ_MODELS[(i + k) % 3] for i in range(c["n"])] for k in range(3)]:
            with scratch() as net:
                for m in SEQ_MODELS:
                    write(m.replace(" ", "_") + ".jpg", m, FOCAL[0], SIZES[0], RES[0], None)
                seq = [c["first"]] + list(rest)
                for i, (state, m) in enumerate(zip(seq, models)):
                    net["state"] = state
                    done = call(rec, m, net, "after the network states %s, %s" % (seq[:i + 1], m))
                    rec.state((tuple(seq[:i + 1]), done))
                    rec.step()
                    rec.outcome((state, done))
                net["state"] = "ok"
                for m in SEQ_MODELS:
                    call(rec, m, net, "after the network states %s and recovery, %s" % (seq, m))
                    rec.step()
                rec.trace()


def run_disk(c, rec):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    for n in range(c["start"], min(c["start"] + 20, len(DB) + 2)):
        for twice in (False, True):
            with scratch() as net:
                for m in SEQ_MODELS:
                    write(m.replace(" ", "_") + ".jpg", m, FOCAL[0], SIZES[0], RES[0], None)
                net["disk"] = True
                for _ in range(1 + twice):
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                    try:
                        call(rec, SEQ_MODELS[0], net, "disk full after %d bytes" % n)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                net["disk"] = False
                for m in SEQ_MODELS:
                    call(rec, m, net, "after the disk was full at %d bytes of the database and is free again, %s" % (n, m))
                rec.states += 1
                rec.step(4 + twice)
                rec.trace()
                rec.outcome(n)


def run_case(c, rec):
    globals()["run_" + c["kind"]](c, rec)
