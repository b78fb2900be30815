"""Runs cases generated from the specification on the real rt1_model.

usage: driver.py CASES.json OUT.json      (package taken from $RT1_SRC)

Only the public interface of rt1_model is used.  Every case is a list of calls
(see spec/RT1.tla); the driver performs them and records what it observes:
  exc     name of the exception ('' if there was none)
  names   identifiers that occur in the message of the exception
  intact  the arrays passed to the call were not modified
  sh, v   shape and elements of the returned array (and others, see below)
"""

import contextlib
import copy
import gc
import io
import json
import logging
import os
import pickle
import re
import signal
import struct
import subprocess
import sys
import warnings

SRC = os.environ.get("RT1_SRC", "/repo/src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import sympy as sp  # noqa: E402
import cloudpickle  # noqa: E402
import rt1_model  # noqa: E402
from rt1_model import RT1, surface, volume, set_lambda_backend, get_lambda_backend  # noqa: E402

assert os.path.realpath(rt1_model.__file__).startswith(os.path.realpath(SRC)), rt1_model.__file__
np.seterr(all="ignore")
logging.getLogger("rt1_model").setLevel(logging.ERROR)


# ------------------------------------------------------------------ encoding
def dec(p):
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


def enc(x):
    return list(struct.unpack(">ii", struct.pack(">d", float(x))))


def dec_arr(a):
    v = np.array([dec(i) for i in a["v"]], dtype=float)
    sh = tuple(a["sh"])
    ty = a.get("ty", "py" if not sh else "np")
    if not sh:
        x = float(v[0])
        if ty == "int" and x == int(x):
            return int(x)
        return np.float64(x) if ty == "np0" else x
    v = v.reshape(sh)
    if ty == "list":
        return v.tolist()
    if ty == "nc":  # a non-contiguous view
        big = np.zeros(tuple(2 * i for i in sh))
        big[tuple(slice(None, None, 2) for _ in sh)] = v
        return big[tuple(slice(None, None, 2) for _ in sh)]
    if ty == "ro":
        v.flags.writeable = False
    return v


def enc_arr(x):
    x = np.asarray(x)
    if x.dtype.kind == "c":
        raise RuntimeError("complex result")
    x = x.astype(float)
    return {"sh": list(x.shape), "v": [enc(i) for i in x.ravel()]}


# ------------------------------------------------------------------ expressions
BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/"}


def num(x):
    return repr(x) if x >= 0 else f"({x!r})"


def to_str(e):
    k = e["k"]
    if k == "num":
        return num(dec(e["v"]))
    if k == "sym":
        return e["n"]
    if k in BIN:
        return f"({to_str(e['l'])} {BIN[k]} {to_str(e['r'])})"
    if k == "pow":
        return f"({to_str(e['l'])})**{e['n']}"
    if k == "powe":
        return f"({to_str(e['l'])})**({to_str(e['r'])})"
    if k == "neg":
        return f"(-{to_str(e['l'])})"
    k = {"abs": "Abs"}.get(k, k)
    return f"{k}({to_str(e['l'])})"


def to_sympy(e, **assume):
    k = e["k"]
    if k == "num":
        return sp.Float(dec(e["v"]))
    if k == "sym":
        return sp.Symbol(e["n"], **assume)
    if k == "add":
        return to_sympy(e["l"], **assume) + to_sympy(e["r"], **assume)
    if k == "sub":
        return to_sympy(e["l"], **assume) - to_sympy(e["r"], **assume)
    if k == "mul":
        return to_sympy(e["l"], **assume) * to_sympy(e["r"], **assume)
    if k == "div":
        return to_sympy(e["l"], **assume) / to_sympy(e["r"], **assume)
    if k == "pow":
        return to_sympy(e["l"], **assume) ** e["n"]
    if k == "powe":
        return to_sympy(e["l"], **assume) ** to_sympy(e["r"], **assume)
    if k == "neg":
        return -to_sympy(e["l"], **assume)
    return getattr(sp, {"abs": "Abs"}.get(k, k))(to_sympy(e["l"], **assume))


def render(e, how):
    if e["k"] == "arr":
        return dec_arr(e["a"])
    if e["k"] == "num" and how in ("num", "int"):
        x = dec(e["v"])
        return int(x) if how == "int" and x == int(x) else x
    if how == "real":
        # (a symbol with an assumption is the parameter of that name)
        return to_sympy(e, real=True)
    return to_sympy(e) if how == "sympy" else to_str(e)


# ------------------------------------------------------------------ scattering functions
class User:
    """A scattering function defined by the user: proportional to (1 + t x)^2"""

    def __init__(self, t, **kwargs):
        super().__init__(**kwargs)
        t = sp.sympify(t, locals={i: sp.Symbol(i) for i in ("N", "S", "Q")})
        self.t = t.xreplace({i: sp.Symbol(str(i)) for i in t.free_symbols})

    @property
    def phase_function(self):
        return (1 + self.t * self.scattering_angle_symbolic) ** 2 / (self.norm * sp.pi)

    @property
    def legendre_coefficients(self):
        n = sp.Symbol("n")
        c = (1 + self.t**2 / 3, 2 * self.t, 2 * self.t**2 / 3)
        return sum(c[k] * sp.KroneckerDelta(k, n) for k in range(3)) / (self.norm * sp.pi)


class UserVolume(User, volume.VolumeScatter):
    norm = 4


class UserSurface(User, surface.SurfaceScatter):
    norm = 1


def build(f, cache):
    if f.get("id") and f["id"] in cache:
        return cache[f["id"]]
    how = f.get("as", "num")
    kw = {}
    k = f["k"]
    if k in ("VLin", "SLin"):
        mod = volume if k == "VLin" else surface
        objs = []
        for m in f["m"]:
            objs.append(objs[0] if m["f"].get("rep") else build(m["f"], cache))
        obj = mod.LinComb([(render(m["w"], how), o) for m, o in zip(f["m"], objs)])
    else:
        if not f.get("da"):
            kw["a"] = [render(x, how) for x in f["a"]]
        if k in ("VHG", "HGR", "SHG", "HGN", "VUsr", "SUsr"):
            kw["t"] = render(f["t"], how)
        if k == "Cos":
            kw["i"] = f["i"]
        if k not in ("VIso", "SIso", "Ray") and f["nc"]:
            kw["ncoefs"] = f["nc"]
        cls = {
            "VIso": volume.Isotropic,
            "Ray": volume.Rayleigh,
            "VHG": volume.HenyeyGreenstein,
            "HGR": volume.HGRayleigh,
            "SIso": surface.Isotropic,
            "Cos": surface.CosineLobe,
            "SHG": surface.HenyeyGreenstein,
            "HGN": surface.HG_nadirnorm,
            "VUsr": UserVolume,
            "SUsr": UserSurface,
        }[k]
        obj = cls(**kw)
    if f.get("id"):
        cache[f["id"]] = obj
    return obj


BAD = {
    "str": "0.3",
    "arr": np.array([0.1, 0.2]),
    "list": [0.1],
    "sym": sp.Symbol("x"),
    "cplx": 1j,
    "dict": {},
}


def arg(v):
    if v["k"] == "none":
        return None
    if v["k"] == "num":
        x = dec(v["v"])
        if v.get("ty") == "np":
            return np.float64(x)
        if v.get("ty") == "int" and x == int(x):
            return int(x)
        return x
    if v["k"] == "arr":
        return dec_arr(v["a"])
    return BAD[v["t"]]


def snapshot(x):
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, (float, int)):
        return a == b
    return True


class CallTimeout(BaseException):
    """A call did not return in time."""


CALL_SECONDS = 120


def _alarm(signum, frame):
    raise CallTimeout("the call did not return in time")


signal.signal(signal.SIGALRM, _alarm)


class Run:
    """One execution of a case."""

    def __init__(self):
        set_lambda_backend("symengine")
        self.objs = {}
        self.arrays = {}  # arrays passed to set_geometry
        self.defs = {}
        self.funcs = {}
        self.wid = {}
        self.samples = {}

    def kw(self, kw):
        return {i["n"]: dec_arr(i["v"]) for i in kw}

    def call(self, ev):
        """Returns the observation of one call."""
        obs = {"exc": "", "names": [], "intact": True}
        inputs = []
        signal.alarm(CALL_SECONDS)
        try:
            getattr(self, "op_" + ev["op"])(ev, obs, inputs)
        except (Exception, CallTimeout) as ex:
            obs["exc"] = type(ex).__name__
            obs["names"] = sorted(set(re.findall(r"[A-Za-z_]\w*", str(ex))))
            obs["msg"] = str(ex)[:300]
        finally:
            signal.alarm(0)
        obs["intact"] = all(same(a, b) for a, b in inputs)
        return obs

    @staticmethod
    def watch(inputs, args):
        for a in args.values():
            inputs.append((snapshot(a), a))
        return args

    # ------------------------------------------------------------ objects
    def op_new(self, ev, obs, inputs):
        kw = dict(int_Q=ev["intQ"], sig0=ev["sig0"], dB=ev["dB"], I0=dec_arr(ev["I0"]))
        frm = ev.get("from")
        if frm:
            other = self.objs[frm["o"]]
            if frm["what"] == "fn":
                kw["fn_input"] = getattr(other, "_fn", None)
            else:
                kw["fnevals_input"] = getattr(other, "_fnevals", None)
        self.objs[ev["o"]] = RT1(V=build(ev["V"], self.funcs), SRF=build(ev["S"], self.funcs), **kw)

    def op_copy(self, ev, obs, inputs):
        R = self.objs[ev["o"]]
        if ev["how"] == "cloudpickle":
            new = cloudpickle.loads(cloudpickle.dumps(R))
        elif ev["how"] == "pickle":
            new = pickle.loads(pickle.dumps(R))
        elif ev["how"] == "process":
            new = cloudpickle.loads(elsewhere(cloudpickle.dumps(R), ev.get("eval", False)))
        else:
            new = copy.deepcopy(R)
        self.objs[ev["o2"]] = new

    # ------------------------------------------------------------ geometry
    def op_setmono(self, ev, obs, inputs):
        self.objs[ev["o"]].set_monostatic(**{i["n"]: arg(i["v"]) for i in ev["kw"]})

    def op_setbi(self, ev, obs, inputs):
        self.objs[ev["o"]].set_bistatic(**{i["n"]: arg(i["v"]) for i in ev["kw"]})

    def op_setgeom(self, ev, obs, inputs):
        kw = self.watch(inputs, {i["n"]: arg(i["v"]) for i in ev["kw"]})
        self.objs[ev["o"]].set_geometry(**kw)
        self.arrays.setdefault(ev["o"], []).extend(v for v in kw.values() if isinstance(v, np.ndarray))

    def op_mutate(self, ev, obs, inputs):
        for a in self.arrays.get(ev["o"], []):
            if a.flags.writeable:
                a[...] = 0.4321

    # ------------------------------------------------------------ parameters and settings
    def op_upd(self, ev, obs, inputs):
        self.objs[ev["o"]].update_params(**self.watch(inputs, self.kw(ev["kw"])))

    def op_setdef(self, ev, obs, inputs):
        setattr(self.objs[ev["o"]], ev["d"], render(ev["e"], ev.get("as", "str")))

    def op_setflag(self, ev, obs, inputs):
        setattr(self.objs[ev["o"]], ev["f"], ev["b"])

    def op_setI0(self, ev, obs, inputs):
        self.objs[ev["o"]].I0 = dec_arr(ev["a"])

    def op_setV(self, ev, obs, inputs):
        self.objs[ev["o"]].V = build(ev["V"], self.funcs)

    def op_setS(self, ev, obs, inputs):
        self.objs[ev["o"]].SRF = build(ev["S"], self.funcs)

    def op_backend(self, ev, obs, inputs):
        set_lambda_backend(ev["b"])

    def op_getbackend(self, ev, obs, inputs):
        obs["s"] = str(get_lambda_backend())

    # ------------------------------------------------------------ evaluations
    def _eval(self, ev, obs, inputs):
        R = self.objs[ev["o"]]
        obs.update(enc_arr(getattr(R, ev["op"])(**self.watch(inputs, self.kw(ev["kw"])))))

    op_calc = op_surface = op_volume = op_interaction = _eval

    def op_jac(self, ev, obs, inputs):
        R = self.objs[ev["o"]]
        keys = list(ev["keys"])
        inputs.append((list(keys), keys))
        j = R.jacobian(param_list=keys, format=ev["fmt"])
        if ev["fmt"] == "list":
            obs["list"] = [enc_arr(i) for i in j]
        else:
            obs.update(enc_arr(np.asarray(j.toarray())))

    def op_angle(self, ev, obs, inputs):
        obs.update(enc_arr(getattr(self.objs[ev["o"]], ev["a"])))

    def op_def(self, ev, obs, inputs):
        obs.update(enc_arr(getattr(self.objs[ev["o"]], ev["d"])))

    def op_params(self, ev, obs, inputs):
        obs["kw"] = [{"n": n, "v": enc_arr(v)} for n, v in self.objs[ev["o"]].param_dict.items()]

    def op_flags(self, ev, obs, inputs):
        R = self.objs[ev["o"]]
        obs.update(sig0=bool(R.sig0), dB=bool(R.dB), intQ=bool(R.int_Q), I0=enc_arr(R.I0))

    # ------------------------------------------------------------ scattering functions
    def op_scalc(self, ev, obs, inputs):
        f = build(ev["f"], self.funcs)
        args = self.watch(inputs, {k: dec_arr(ev[k]) for k in ("t0", "te", "p0", "pe")})
        pd = self.watch(inputs, self.kw(ev["kw"]))
        obs.update(enc_arr(f.calc(args["t0"], args["te"], args["p0"], args["pe"], param_dict=pd)))

    def op_expand(self, ev, obs, inputs):
        f = build(ev["f"], self.funcs)
        ang = [dec(ev[k]["v"][0]) for k in ("t0", "te", "p0", "pe")]
        symbs = sp.symbols("th0 th1 ph0 ph1")
        ex = sp.sympify(f.legendre_expansion(*symbs)).doit()
        subs = {i["n"]: dec(i["v"]["v"][0]) for i in ev["kw"]}
        val = {s: v for s, v in zip(symbs, ang)}
        val.update({sp.Symbol(n): v for n, v in subs.items()})
        obs.update(enc_arr(np.atleast_1d(float(ex.subs(val).evalf()))))

    def op_coefs(self, ev, obs, inputs):
        f = build(ev["f"], self.funcs)
        ex = sp.sympify(f.legendre_coefficients)
        subs = {sp.Symbol(i["n"]): dec(i["v"]["v"][0]) for i in ev["kw"]}
        n = sp.Symbol("n")
        obs.update(enc_arr([float(ex.subs(n, k).doit().subs(subs).evalf()) for k in range(ev["n"])]))

    def op_ncoefs(self, ev, obs, inputs):
        obs["n"] = int(build(ev["f"], self.funcs).ncoefs)


    # ------------------------------------------------------------ plots
    def scal_kw(self, kw):
        return {i["n"]: dec(i["v"]["v"][0]) for i in kw}

    def op_hemr(self, ev, obs, inputs):
        from rt1_model.plot import hemreflect

        plt = pyplot()
        pd = self.watch(inputs, {"param_dict": self.scal_kw(ev["kw"])})
        kw = dict(phi_0=dec(ev["phi0"]), returnarray=ev["ret"], **pd)
        if not ev["dflt"]:
            kw.update(zip(("t_0_min", "t_0_max", "t_0_step"), (i / 4 for i in ev["t"])))
        if ev["N"]:
            kw["simps_N"] = ev["N"]
        with contextlib.redirect_stdout(io.StringIO()):
            if ev["via"] == "R":
                res = hemreflect(R=self.objs[ev["o"]], **kw)
            else:
                f = build(ev["f"], self.funcs)
                res = f.hemreflect(**kw) if ev["call"] == "method" else hemreflect(SRF=f, **kw)
        if ev["ret"]:
            obs.update(enc_arr(res))
        else:
            line = plt.gcf().axes[0].lines[0]
            obs.update(enc_arr(line.get_ydata()))
            obs["x"] = enc_arr(line.get_xdata())
        plt.close("all")

    def op_polar(self, ev, obs, inputs):
        from rt1_model.plot import polarplot

        plt = pyplot()
        f = build(ev["f"], self.funcs)
        sets = [self.scal_kw(s) for s in ev["sets"]]
        kw = dict(inc=[i / 4 for i in ev["inc"]], aprox=ev["aprox"], legend=ev["legend"])
        if sets:
            kw["param_dict"] = sets if ev["lst"] else sets[0]
        self.watch(inputs, kw)
        ax = plt.figure().add_subplot(111, projection="polar") if ev["ax"] else None
        if ax is not None:
            kw["ax"] = ax
        before = set(plt.get_fignums())
        try:
            if ev["call"] == "method":
                f.polarplot(**kw)
            else:
                polarplot(f, **kw)
            new = set(plt.get_fignums()) - before
            obs["figs"] = len(new)
            if ax is None:
                ax = plt.figure(max(new)).axes[0]
            obs["lines"] = []
            for line in ax.lines:
                x, y = (np.asarray(i, float) for i in (line.get_xdata(), line.get_ydata()))
                y = np.broadcast_to(y, x.shape)
                i = np.linspace(3, len(x) - 4, 9).astype(int)
                obs["lines"].append({
                    "ls": line.get_linestyle(), "x": [enc(x.min()), enc(x.max())],
                    "px": [enc(v) for v in x[i]], "py": [enc(v) for v in y[i]]})
        finally:
            plt.close("all")

    # ------------------------------------------------------------ widgets
    def wid_kw(self, ev):
        kw = {}
        for i in ev["kw"]:
            v = i["v"]
            p = [dec(v["min"]), dec(v["max"])]
            if v["start"]["k"] == "num":
                p.append(dec(v["start"]["v"]))
                if v["label"]:
                    p.append(v["label"])
            kw[i["n"]] = tuple(p)
        return kw

    def op_analyze(self, ev, obs, inputs):
        pyplot()
        kw = self.wid_kw(ev)
        if ev["range"]:
            kw["range_parameter"] = ev["range"]
        self.wid[ev["w"]] = (ev["o"], "2d", self.objs[ev["o"]].analyze(**kw))
        self.show(ev["w"], obs)

    def op_analyze3d(self, ev, obs, inputs):
        pyplot()
        with recorded_surfaces() as rec:
            self.wid[ev["w"]] = (ev["o"], "3d", self.objs[ev["o"]].analyze3d(
                samples=ev["samples"], contributions="".join(ev["contribs"]), **self.wid_kw(ev)))
        self.show(ev["w"], obs, rec)

    def op_slide(self, ev, obs, inputs):
        with recorded_surfaces() as rec:
            self.wid[ev["w"]][2].sliders[ev["n"]].set_val(dec(ev["v"]))
        self.show(ev["w"], obs, rec)

    def op_range(self, ev, obs, inputs):
        from matplotlib.widgets import RadioButtons

        a = self.wid[ev["w"]][2]
        radio = next((i for i in vars(a).values() if isinstance(i, RadioButtons)), None)
        if radio is None:
            radio = next(i for i in gc.get_objects() if isinstance(i, RadioButtons) and i.ax.figure is a.f)
        labels = [i.get_text() for i in radio.labels]
        radio.set_active(labels.index(ev["n"] or "None"))
        self.show(ev["w"], obs)

    def show(self, w, obs, rec=()):
        o, kind, a = self.wid[w]
        obs["sliders"] = [
            {"n": k, "min": enc(s.valmin), "max": enc(s.valmax), "val": enc(s.val), "label": s.label.get_text()}
            for k, s in a.sliders.items() if not (kind == "3d" and k == "inc")]
        if kind == "2d":
            obs.update(self.show2d(a))
        else:
            obs.update(self.show3d(self.objs[o], a, rec))

    @staticmethod
    def show2d(a):
        from matplotlib.collections import LineCollection, PolyCollection

        lines, coll, fill = [], [], []
        for line in a.ax.lines:
            x, y = (np.asarray(i, float) for i in (line.get_xdata(), line.get_ydata()))
            i = np.linspace(0, len(x) - 1, 4).astype(int)
            label = str(line.get_label())
            lines.append({"label": "" if label.startswith("_") else label,
                          "px": [enc(v) for v in x[i]], "py": [enc(v) for v in y[i]]})
        j = 37
        for c in a.ax.collections:
            if isinstance(c, LineCollection):
                seg = [p.vertices for p in c.get_paths()]
                coll.append({"n": len(seg), "x": enc(seg[0][j, 0]), "y": [enc(s[j, 1]) for s in seg]})
            elif isinstance(c, PolyCollection):
                xj = np.asarray(a.ax.lines[0].get_xdata(), float)[j]
                y = [v[1] for p in c.get_paths() for v in p.vertices if abs(v[0] - xj) < 1e-9]
                y = y or [np.nan]          # nothing is filled there
                fill.append([enc(min(y)), enc(max(y))])
        return {"lines": lines, "coll": coll, "fill": fill}

    @staticmethod
    def show3d(R, a, rec):
        from mpl_toolkits.mplot3d.art3d import Poly3DCollection

        te, pe = np.asarray(R.t_ex, float), np.asarray(R.p_ex, float)
        surf = []
        for x, y, z, label in rec:
            if not label:
                continue
            te, pe, x, y, z = np.broadcast_arrays(te, pe, x, y, z)
            i = np.unique(np.linspace(0, x.size - 1, 8).astype(int))
            surf.append({"label": label, "sh": list(x.shape), "pts": [
                dict(zip(("te", "pe", "x", "y", "z"), (enc(v.ravel()[k]) for v in (te, pe, x, y, z)))) for k in i]})
        polys = sum(isinstance(c, Poly3DCollection) for c in a.ax.collections)
        return {"surf": surf, "nsurf": polys - 1, "inc": enc(a.sliders["inc"].val)}

    # ------------------------------------------------------------ logging (see run_forked)
    def op_setlog(self, ev, obs, inputs):
        lev = ev["lev"]
        if lev["k"] == "int":
            level = lev["n"]
        else:
            s = lev["s"]
            level = {"lower": s, "upper": s.upper(), "title": s.title(), "swap": s[:1] + s[1:].upper()}[lev["how"]]
        fmt = ev["fmt"]
        kw = {}
        if fmt["k"] == "preset":
            kw["fmt"] = fmt["s"]
        elif fmt["k"] == "none":
            kw["fmt"] = None
        elif fmt["k"] == "custom":
            kw["fmt"] = "".join(p["lit"] if "lit" in p else f"%({p['fld']})s" for p in fmt["parts"])
        try:
            rt1_model.set_loglevel(level, **kw)
        finally:
            self.op_handlers(ev, obs, inputs)

    def op_handlers(self, ev, obs, inputs):
        users = [h for h, *_ in self.userh]
        obs["own"] = sum(h not in users for h in logging.getLogger("rt1_model").handlers)
        obs["users_ok"] = all(
            h in logging.getLogger(at).handlers and h.level == lev and h.formatter is fmt for h, at, lev, fmt in self.userh)

    def op_userh(self, ev, obs, inputs):
        h = logging.StreamHandler(io.StringIO())
        fmt = logging.Formatter("%(message)s")
        h.setFormatter(fmt)
        h.setLevel(ev["lev"])
        at = "rt1_model" if ev["at"] == "package" else None
        logging.getLogger(at).addHandler(h)
        self.userh.append((h, at, ev["lev"], fmt))
        self.op_handlers(ev, obs, inputs)

    def op_emit(self, ev, obs, inputs):
        for s in (sys.stderr, *(h.stream for h, *_ in self.userh)):
            s.seek(0)
            s.truncate()
        logging.getLogger(ev["name"]).log(ev["n"], ev["msg"])
        obs["lines"] = sys.stderr.getvalue().splitlines()
        obs["words"] = [
            re.split(r"[:\s]+", re.sub(r"(\d{4}-\d\d-\d\d[ ,T])?\d\d:\d\d:\d\d([.,]\d+)?", "<TIME>", i).strip())
            for i in obs["lines"]]
        obs["user"] = [h.stream.getvalue().splitlines() for h, *_ in self.userh]
        self.op_handlers(ev, obs, inputs)


def pyplot():
    import matplotlib.pyplot as plt

    return plt


@contextlib.contextmanager
def recorded_surfaces():
    """Records what is drawn with Axes3D.plot_surface."""
    from mpl_toolkits.mplot3d import Axes3D

    rec, orig = [], Axes3D.plot_surface

    def plot_surface(self, X, Y, Z, *args, **kwargs):
        rec.append([np.array(i, float) for i in (X, Y, Z)] + [kwargs.get("label", "")])
        return orig(self, X, Y, Z, *args, **kwargs)

    Axes3D.plot_surface = plot_surface
    try:
        yield rec
    finally:
        Axes3D.plot_surface = orig


def run_forked(case, plan):
    """Executes a case in a child process: logging is configured globally."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sys.stderr = io.StringIO()
            logging.getLogger("rt1_model").setLevel(logging.WARNING)
            run = Run()
            run.userh = []
            with os.fdopen(w, "w") as f:
                json.dump([run.call(ev) for ev in case["events"]], f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        res = f.read()
    os.waitpid(pid, 0)
    if not res:
        return [{"exc": "ProcessDied", "names": [], "intact": True}]
    return json.loads(res)


def elsewhere(data, evaluate):
    """A dumped model loaded by a new interpreter (evaluated there) and dumped again."""
    res = subprocess.run(
        [sys.executable, os.path.abspath(__file__), "--load", "eval" if evaluate else "", get_lambda_backend()],
        input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=CALL_SECONDS,
    )
    if res.returncode:
        raise RuntimeError("loading in another process failed")
    return res.stdout


def load_elsewhere(evaluate):
    out = os.dup(1)
    os.dup2(2, 1)
    R = cloudpickle.loads(sys.stdin.buffer.read())
    if evaluate:
        try:
            R.calc()
        except Exception:  # (e.g. parameters that are not set yet)
            pass
    with os.fdopen(out, "wb") as f:
        f.write(cloudpickle.dumps(R))


FORKED = {"setlog", "emit", "userh", "handlers"}


def main(cases, out):
    """Executes the cases; the results are written line by line, and `out`.at
    says which call is being made (in case it ends this process)."""
    with open(cases) as f:
        cases = json.load(f)
    at = os.open(out + ".at", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    f = open(out, "w")
    timeouts = 0
    for k, case in enumerate(cases):
        if timeouts > 1:
            break  # (the property does not hold; do not wait for the others as well)
        runs = []
        for plan in case.get("plans") or [[]]:
            if any(ev["op"] in FORKED for ev in case["events"]):
                os.pwrite(at, b"%6d %6d" % (k, 1), 0)
                runs.append(run_forked(case, plan))
                continue
            # plan: [[position, backend], ...] backend switches of this execution
            sw = {p: b for p, b in plan}
            run = Run()
            o = []
            for pos, ev in enumerate(case["events"], 1):
                if pos in sw:
                    set_lambda_backend(sw[pos])
                os.pwrite(at, b"%6d %6d" % (k, pos), 0)
                o.append(run.call(ev))
                if o[-1]["exc"] == "CallTimeout":
                    timeouts += 1
                    break
            if run.wid:
                pyplot().close("all")
            runs.append(o)
        n = min(len(r) for r in runs)
        events = [{"ev": ev, "obs": [r[i] for r in runs]} for i, ev in enumerate(case["events"][:n])]
        f.write(json.dumps({"id": case["id"], "events": events}) + "\n")
        f.flush()
    f.close()


if __name__ == "__main__":
    if sys.argv[1] == "--load":
        set_lambda_backend(sys.argv[3])
        load_elsewhere(bool(sys.argv[2]))
    else:
        main(sys.argv[1], sys.argv[2])
