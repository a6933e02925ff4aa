"""C18: Configurations are either refused cleanly or read as written."""
import itertools
import math
import os

from mc import sim

PID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of single and paired edits of complete configurations (every key x removed, blank, mistyped, boundary, valid alternatives; sections and syntax) against an independent specification of every key, and of command-line combinations, through the real parser and the real command"
NOTE = (
    "The oracle is a table of every section and key (type, range, default, which camera, survey or ephemeris source it belongs to, which keys need or exclude each other) written from the documentation. For an edited configuration it says refuse, accept with these values, "
    "or unjudged (the documentation does not say). Refusing means SystemExit with a message; any other exception, a silent acceptance, a wrong type, value or default is a violation. Single edits are also run through the whole command: refused ones may leave nothing but logs, accepted ones must complete. "
    "Unjudged: flags sorcha sets itself, keys of a camera model other than the selected one for which the documentation names no conflict, infinities, '%' interpolation."
)
BOUND = {
    "quick": "7 base configurations (4 Rubin, 3 DES); every single edit (~350 per base), every pair of edits with 3 alternatives per key; all single edits of 2 bases through the command; every command-line combination of 8 options",
    "thorough": "every pair of edits with all alternatives, triples within one section, all single edits of every base through the command",
}

NA = object()  # removed
T = ["true", "1", "yes", "y", "True"]
F = ["false", "0", "no", "n", "False"]
AUXKEYS = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"]
AUXFILE = dict(planet_ephemeris="de440s.bsp", earth_predict="earth_2025_250826_2125_predict.bpc", earth_historical="earth_620120_250826.bpc", earth_high_precision="earth_latest_high_prec.bpc",
               jpl_planets="linux_p1550p2650.440", jpl_small_bodies="sb441-n16.bsp", leap_seconds="naif0012.tls", meta_kernel="meta_kernel.txt", observatory_codes="ObsCodes.json",
               observatory_codes_compressed="ObsCodes.json.gz", orientation_constants="pck00010.pck")
SSP = dict(ssp_detection_efficiency=("f", 0, 1), ssp_number_observations=("i", 1, None), ssp_separation_threshold=("f", 0, None), ssp_maximum_time=("f", 0, None), ssp_number_tracklets=("i", 1, None),
           ssp_track_window=("i", 1, None), ssp_night_start_utc=("f", 0, 24))
AR = dict(ar_ang_fov=("fx", 0, 180), ar_fov_buffer=("f", 0, 180), ar_picket=("i", 1, None), ar_obs_code=("s",), ar_healpix_order=("i", 0, 29))
# section -> key -> type: i int, f float (closed range), fx float (lower bound excluded), b bool, e enumeration, s string, l list
KEYS = {
    "INPUT": dict(ephemerides_type=("e", "ar", "external"), eph_format=("e", "csv", "whitespace", "hdf5"), size_serial_chunk=("i", 1, None), aux_format=("e", "comma", "whitespace", "csv"), pointing_sql_query=("s",)),
    "SIMULATION": dict(AR, ar_n_sub_intervals=("i", 1, None)),
    "FILTERS": dict(observing_filters=("filters",)),
    "SATURATION": dict(bright_limit=("floats",)),
    "PHASECURVES": dict(phase_function=("e", "HG", "HG1G2", "HG12", "linear", "none")),
    "FOV": dict(camera_model=("e", "circle", "footprint", "visits_footprint", "none"), footprint_path=("path",), visits_query=("s",), fill_factor=("f", 0, 1), circle_radius=("f", 0, None), footprint_edge_threshold=("f", 0, None)),
    "FADINGFUNCTION": dict(fading_function_on=("b",), fading_function_width=("fx", 0, 0.5), fading_function_peak_efficiency=("f", 0, 1), des_transient_efficency=("f", 0, 1)),
    "LINKINGFILTER": dict(SSP, drop_unlinked=("b",), des_discovery_on=("b",), distance_cut_upper=("f", None, None), distance_cut_lower=("f", None, None), motion_cut_upper=("f", None, None), motion_cut_lower=("f", None, None)),
    "OUTPUT": dict(output_format=("e", "csv", "sqlite3", "hdf5"), output_columns=("cols",), position_decimals=("i", 0, None), magnitude_decimals=("i", 0, None)),
    "LIGHTCURVE": dict(lc_model=("e", "none", "identity")),
    "ACTIVITY": dict(comet_activity=("e", "none", "identity")),
    "EXPERT": dict(snr_limit=("f", 0, None), mag_limit=("f", 0, None), trailing_losses_on=("b",), default_snr_cut=("b",), randomization_on=("b",), vignetting_on=("b",), brute_force=("b",)),
    "AUXILIARY": dict({k: ("s",) for k in AUXFILE}, **{k + "_url": ("s",) for k in AUXKEYS}),
}


class Refuse(Exception):
    pass


class Unjudged(Exception):
    pass


def typed(key, t, raw):
    """The value a setting has, by its type; refused when it is not of the type or out of range."""
    raw = raw.strip()
    if t[0] == "i":
        if not raw.lstrip("+-").isdigit():
            raise Refuse(key)
        v = int(raw)
    elif t[0] in ("f", "fx"):
        try:
            v = float(raw)
        except ValueError:
            raise Refuse(key)
        if math.isnan(v):
            raise Refuse(key)
    elif t[0] == "b":
        if raw in T:
            return True
        if raw in F:
            return False
        raise Refuse(key)
    elif t[0] == "e":
        if raw not in t[1:]:
            raise Refuse(key)
        return raw
    elif t[0] == "s":
        if raw == "":
            raise Unjudged(key)
        return raw
    else:
        raise AssertionError(t)
    if t[1] is not None and (v < t[1] or (t[0] == "fx" and v == t[1])) or t[2] is not None and v > t[2]:
        raise Refuse(key)
    if math.isinf(v):
        raise Unjudged(key)
    return v


def floats(raw):
    out = []
    for p in raw.split(","):
        try:
            v = float(p.strip())
        except ValueError:
            raise Refuse("bright_limit")
        if math.isnan(v):
            raise Refuse("bright_limit")
        out.append(v)
    return out


class Judge:
    def __init__(self, cfg, survey):
        self.cfg, self.des, self.survey = cfg, survey.lower() == "des", survey
        self.want = {}
        self.refuse, self.unjudged = [], []

    def sec(self, s):
        return {k.lower(): v for k, v in self.cfg.get(s, {}).items()}

    def take(self, s, k, default=None, t=None, must=False, want=True):
        """One key by its own type. Absent: default, or refused when it must be there."""
        raw = self.sec(s).get(k)
        if raw is None:
            if must:
                self.refuse.append("%s missing" % k)
                return None
            v = default
        else:
            try:
                v = typed(k, t or KEYS[s][k], str(raw))
            except Refuse:
                self.refuse.append("%s=%s" % (k, raw))
                return None
            except Unjudged:
                self.unjudged.append(k)
                return None
        if want:
            self.want[s.lower(), k] = v
        return v

    def has(self, s, k):
        return k in self.sec(s)

    def forbid(self, s, *ks):
        for k in ks:
            if self.has(s, k):
                self.refuse.append("%s not allowed here" % k)

    def open(self, s, *ks):
        for k in ks:
            if self.has(s, k):
                self.unjudged.append(k)

    def run(self):
        for s, kv in self.cfg.items():
            if s not in KEYS:
                self.refuse.append("section " + s)
                continue
            for k in kv:
                if k.lower() not in KEYS[s]:
                    self.refuse.append("key " + k)
        for k in KEYS["INPUT"]:
            self.take("INPUT", k, must=True)
        ar = self.sec("INPUT").get("ephemerides_type")
        if ar == "ar":
            for k in AR:
                self.take("SIMULATION", k, must=True)
            self.take("SIMULATION", "ar_n_sub_intervals", 101)
        elif ar == "external":
            self.forbid("SIMULATION", *AR)
            self.open("SIMULATION", "ar_n_sub_intervals")
        nf = None
        raw = self.sec("FILTERS").get("observing_filters")
        if raw is None:
            self.refuse.append("observing_filters missing")
        else:
            fl = [x.strip() for x in raw.split(",")]
            if any(x not in (["g", "r", "i", "z", "Y"] if self.des else list("ugrizy")) for x in fl):
                self.refuse.append("observing_filters=" + raw)
            elif len(set(fl)) < len(fl):
                self.unjudged.append("observing_filters")
            else:
                self.want["filters", "observing_filters"] = fl
                nf = len(fl)
        if self.has("SATURATION", "bright_limit"):
            try:
                v = floats(self.sec("SATURATION")["bright_limit"])
                if nf is not None:
                    if len(v) not in (1, nf):
                        raise Refuse("bright_limit")
                    self.want["saturation", "bright_limit"] = v * nf if len(v) == 1 else v
                    self.want["saturation", "bright_limit_on"] = True
            except Refuse:
                self.refuse.append("bright_limit=" + self.sec("SATURATION")["bright_limit"])
        else:
            self.want["saturation", "bright_limit_on"] = False
        self.take("PHASECURVES", "phase_function", must=True)
        self.fov()
        self.fading()
        self.linking()
        self.take("OUTPUT", "output_format", must=True)
        raw = self.sec("OUTPUT").get("output_columns")
        if raw is None:
            self.refuse.append("output_columns missing")
        elif "," in raw:
            cols = [x.strip() for x in raw.split(",")]
            if "" in cols or len(set(cols)) < len(cols):
                self.unjudged.append("output_columns")
            else:
                self.want["output", "output_columns"] = cols
        elif raw in ("basic", "all"):
            self.want["output", "output_columns"] = raw
        else:
            self.refuse.append("output_columns=" + raw)
        for k in ("position_decimals", "magnitude_decimals"):
            self.take("OUTPUT", k)
        for s, k in (("LIGHTCURVE", "lc_model"), ("ACTIVITY", "comet_activity")):
            v = self.take(s, k)
            if (s.lower(), k) in self.want:
                self.want[s.lower(), k] = None if v == "none" else v
        self.expert()
        for k, f in AUXFILE.items():
            v = self.take("AUXILIARY", k, f)
            if k in AUXKEYS:
                u = self.take("AUXILIARY", k + "_url", want=False)
                if self.has("AUXILIARY", k + "_url"):
                    if not self.has("AUXILIARY", k):
                        self.refuse.append(k + "_url without " + k)
                    elif v == f:
                        self.unjudged.append(k)
                    elif u is not None:
                        self.want["auxiliary", k + "_url"] = u
                elif v is not None and v != f:
                    self.want["auxiliary", k + "_url"] = None
        if self.refuse:
            return "refuse", self.refuse
        if self.unjudged:
            return "any", self.unjudged
        return "accept", self.want

    def fov(self):
        m = self.take("FOV", "camera_model", must=True)
        if m == "footprint":
            if self.has("FOV", "footprint_path"):
                if not os.path.isfile(self.sec("FOV")["footprint_path"]):
                    self.refuse.append("footprint_path")
                self.want["fov", "footprint_path"] = self.sec("FOV")["footprint_path"]
            try:
                t = self.take("FOV", "footprint_edge_threshold", None, ("f", None, None))
                if t is not None and t < 0:
                    self.unjudged.append("footprint_edge_threshold")
            except Refuse:
                pass
            self.forbid("FOV", "visits_query", "fill_factor", "circle_radius")
        elif m == "visits_footprint":
            if not self.des:
                self.refuse.append("visits_footprint is for DES")
            self.take("FOV", "visits_query", must=True)
            self.forbid("FOV", "footprint_edge_threshold", "fill_factor", "circle_radius")
            self.open("FOV", "footprint_path")
        elif m == "circle":
            a, b = self.take("FOV", "fill_factor"), self.take("FOV", "circle_radius")
            if not self.has("FOV", "fill_factor") and not self.has("FOV", "circle_radius"):
                self.refuse.append("circle without fill_factor or circle_radius")
            self.forbid("FOV", "footprint_edge_threshold")
            self.open("FOV", "footprint_path", "visits_query")
        else:
            self.open("FOV", "footprint_path", "visits_query", "fill_factor", "circle_radius", "footprint_edge_threshold")

    def fading(self):
        s = "FADINGFUNCTION"
        if self.des:
            on = self.take(s, "fading_function_on", must=True)
            if on:
                e = self.take(s, "des_transient_efficency", 1)
            elif on is False:
                self.open(s, "des_transient_efficency")
            self.forbid(s, "fading_function_width", "fading_function_peak_efficiency")
        else:
            both = [self.has(s, "fading_function_width"), self.has(s, "fading_function_peak_efficiency")]
            if all(both):
                self.take(s, "fading_function_width")
                self.take(s, "fading_function_peak_efficiency")
            elif any(both):
                self.refuse.append("half a fading function")
            self.want["fadingfunction", "fading_function_on"] = all(both)
            self.open(s, "fading_function_on", "des_transient_efficency")

    def linking(self):
        s = "LINKINGFILTER"
        given = [k for k in SSP if self.has(s, k)]
        if len(given) == len(SSP) and not self.des:
            for k in SSP:
                self.take(s, k)
            n, sep = self.want.get((s.lower(), "ssp_number_observations")), self.want.get((s.lower(), "ssp_separation_threshold"))
            if n is not None and sep is not None and n > 1 and sep == 0:
                self.refuse.append("ssp_separation_threshold zero")
        elif given:
            self.refuse.append("SSP keys of DES" if self.des else "only some SSP keys")
        self.want["linkingfilter", "ssp_linking_on"] = bool(given)
        self.take(s, "drop_unlinked", True)
        if self.des:
            self.take(s, "des_discovery_on", False)
        else:
            self.open(s, "des_discovery_on")
        for c in ("distance_cut", "motion_cut"):
            g = [self.has(s, c + "_lower"), self.has(s, c + "_upper")]
            if any(g) and (not self.des or not all(g)):
                self.refuse.append(c)
            if all(g):
                lo, up = self.take(s, c + "_lower"), self.take(s, c + "_upper")
                if lo is not None and up is not None and lo > up:
                    self.unjudged.append(c)
            self.want["linkingfilter", c + "_on"] = all(g)

    def expert(self):
        s = "EXPERT"
        self.take(s, "snr_limit")
        self.take(s, "mag_limit")
        if self.has(s, "snr_limit") and self.has(s, "mag_limit"):
            self.refuse.append("snr_limit and mag_limit")
        if self.des and self.has(s, "snr_limit"):
            self.refuse.append("snr_limit in DES")
        for k in ("snr", "mag"):
            self.want["expert", k + "_limit_on"] = self.has(s, k + "_limit")
        self.take(s, "default_snr_cut", True)
        self.take(s, "brute_force", True)
        for k in ("randomization_on", "vignetting_on", "trailing_losses_on"):
            if self.take(s, k, not self.des) and self.des:
                self.refuse.append(k + " in DES")


def alternatives(s, k, t, d):
    """Raw values to try for one key; the first of each kind leads, so that [:n] is a fair reduction."""
    if t[0] in ("i", "f", "fx"):
        good, bad = [], []
        lo, hi = t[1], t[2]
        step = 1 if t[0] == "i" else 1e-6
        if lo is not None:
            (bad if t[0] == "fx" else good).append(str(lo))
            (good if t[0] == "fx" else bad).append(repr(lo + (step if t[0] == "fx" else -step)))
        if hi is not None:
            good.append(str(hi))
            bad.append(repr(hi + step))
        good.append("7" if t[0] == "i" else "0.25")
        bad += ["-1"] if lo is not None else []
        bad += ["", "abc", "nan", "1,5", "1 2", "None"] + (["1.5", "1e3"] if t[0] == "i" else [])
        return [bad[0], good[0]] + bad[1:] + good[1:] + (["1e-3", "+0.125"] if t[0] != "i" else ["+3"])
    if t[0] == "b":
        return ["maybe", "True", "False", "", "2"] + T[:-1] + F[:-1]
    if t[0] == "e":
        return ["xyz"] + list(t[1:]) + ["", t[1] + "x", t[1][:-1], "None", t[1] + "," + t[2]]
    if t[0] == "filters":
        return ["r", "r,q", "r,Y", "r,g,i", "", "r g", "u,g,r,i,z,y", "r,,g", "R", "g , r", "r,y", "rg"]
    if t[0] == "floats":
        return ["x", "16,15.5", "16,15,14", "", "nan", "16", "16,nan", "16,,15", "1e1", "-5", "16 15"]
    if t[0] == "cols":
        return ["some", "ObjID, RA_deg", "basic", "all", "", "ObjID", "Basic", "ObjID,RA_deg,Dec_deg", " RA_deg , ObjID "]
    if t[0] == "path":
        return [os.path.join(d, "no.csv"), os.path.join(d, "ccd.csv"), ""]
    return ["", "something", "Http://x/y = z; q"]


DESVQ = "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, magLim as limMag_perChip FROM observations WHERE visitId = ?"
SSPV = dict(ssp_detection_efficiency="0.95", ssp_number_observations="2", ssp_separation_threshold="0.5", ssp_maximum_time="0.0625", ssp_number_tracklets="3", ssp_track_window="15", ssp_night_start_utc="16.0")


def strs(cfg):
    return {s: {k.lower(): str(v) for k, v in kv.items()} for s, kv in cfg.items()}


def bases(d):
    """name -> (survey, section -> key -> raw value)"""
    def mk(survey, cam, ephem, expert, **kw):
        c = sim.base_config("rubin_sim" if survey.lower() == "rubin_sim" else "DES", ephem=ephem)
        c["FOV"] = cam
        c["EXPERT"] = expert
        c["SATURATION"] = dict(bright_limit="16.0")
        for s, v in kw.items():
            c[s] = v
        return survey, strs(c)
    fade = dict(fading_function_width="0.1", fading_function_peak_efficiency="1.")
    out = {
        "circle": mk("rubin_sim", dict(camera_model="circle", fill_factor="0.9", circle_radius="1.75"), "ar", dict(snr_limit="2", randomization_on="False", brute_force="True"), FADINGFUNCTION=fade, LINKINGFILTER=dict(SSPV, drop_unlinked="False")),
        "footprint": mk("rubin_sim", dict(camera_model="footprint", footprint_edge_threshold="2."), "external", {}, FADINGFUNCTION=fade, LINKINGFILTER=dict(SSPV), OUTPUT=dict(output_format="sqlite3", output_columns="basic", position_decimals="7", magnitude_decimals="3")),
        "nocamera": mk("RUBIN_SIM", dict(camera_model="none"), "external", dict(mag_limit="25", trailing_losses_on="False", vignetting_on="False", default_snr_cut="False")),
        "auxiliary": mk("rubin_sim", dict(camera_model="circle", circle_radius="1"), "ar", {}, AUXILIARY=dict(leap_seconds="l.tls", leap_seconds_url="https://x/l.tls", jpl_planets="p.440")),
        "desvisits": mk("DES", dict(camera_model="visits_footprint", visits_query=DESVQ), "ar", {}, FADINGFUNCTION=dict(fading_function_on="True", des_transient_efficency="0.9"),
                        LINKINGFILTER=dict(des_discovery_on="True", distance_cut_lower="29", distance_cut_upper="2500")),
        "desplain": mk("des", dict(camera_model="footprint"), "external", dict(mag_limit="26"), FADINGFUNCTION=dict(fading_function_on="False"),
                       LINKINGFILTER=dict(motion_cut_lower="0", motion_cut_upper="2")),
        "desnone": mk("DES", dict(camera_model="none"), "external", {}, FADINGFUNCTION=dict(fading_function_on="True")),
    }
    for n in out:
        out[n][1].pop("SIMULATION") if not out[n][1]["SIMULATION"] else None
    return out


def edits(base, d, n=None):
    """Every single edit: (section, key, raw or NA)."""
    for s in KEYS:
        for k, t in KEYS[s].items():
            alts = alternatives(s, k, t, d)[:n]
            cur = base.get(s, {}).get(k)
            if n and t[0] in ("e",):
                alts = alternatives(s, k, t, d)
                alts = [alts[0]] + [a for a in alts[1:] if a != cur][:1]
            for a in ([NA] if cur is not None else []) + [a for a in alts if a != cur]:
                yield s, k, a


def apply(base, es):
    c = {s: dict(kv) for s, kv in base.items()}
    for s, k, a in es:
        if a is NA:
            c.get(s, {}).pop(k, None)
        else:
            c.setdefault(s, {})[k] = a
    return c


def text(cfg, upper=False, order=None):
    out = []
    for s in order or list(cfg):
        out.append("[%s]" % s)
        for k, v in cfg[s].items():
            out.append("%s = %s" % (k.upper() if upper else k, v))
        out.append("")
    return "\n".join(out) + "\n"


def load(path, survey):
    """('refuse', message) or ('accept', configs)"""
    from sorcha.utilities.sorchaConfigs import sorchaConfigs
    try:
        with sim.quiet():
            return "accept", sorchaConfigs(path, survey)
    except SystemExit as e:
        return "refuse", e.code


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if b is None:
        return a is None
    if isinstance(b, bool):
        return a is b
    if isinstance(b, (int, float)) and not isinstance(a, bool):
        return isinstance(a, (int, float)) and isinstance(a, int) >= isinstance(b, int) and a == b
    return a == b


def compare(name, survey, cfg, path, rec, obj, txt=None, sigbase=None):
    with open(path, "w") as f:
        f.write(txt if txt is not None else text(cfg))
    verdict, why = Judge(cfg, survey).run()
    got, res = load(path, survey)
    rec.state((name, sorted((s, sorted(kv.items())) for s, kv in cfg.items()), txt is None))
    rec.step()
    obj = dict(obj, survey=survey, config=txt if txt is not None else text(cfg))
    if got == "refuse":
        rec.check(isinstance(res, str) and len(res) > 10, "refused-without-message", "refused without a message: %r" % (res,), obj)
    if verdict == "refuse":
        rec.outcome("refuse")
        rec.check(got == "refuse", "accepted-" + (sigbase or why[0]), "accepted although %s" % "; ".join(why), obj)
    elif verdict == "accept":
        rec.outcome("accept")
        if not rec.check(got == "accept", "refused-" + (sigbase or "valid"), "a valid configuration is refused: %s" % (res,), obj):
            return verdict
        for (s, k), v in why.items():
            a = getattr(getattr(res, s), k)
            if k.endswith("_on") and v is False and k not in KEYS[s.upper()]:
                a = bool(a)
            if not same(a, v):
                rec.violation("value-%s-%s" % (s, k), "[%s] %s is read as %r, written as %r" % (s, k, a, v), obj)
        if ("auxiliary", "leap_seconds") in why:
            aux = res.auxiliary
            for k in AUXKEYS:
                u = why.get(("auxiliary", k + "_url"), NA)
                f = why["auxiliary", k]
                want = u if u is not NA else getattr(type(aux), k + "_url")
                if len(set(why["auxiliary", x] for x in AUXFILE)) == len(AUXFILE):
                    rec.check(f in aux.urls and aux.urls[f] == want, "aux-url", "the url of %s is %r, should be %r" % (f, aux.urls.get(f), want), obj)
                    rec.check(f in aux.data_file_list and f in aux.data_files_to_download and f in aux.registry, "aux-list", "%s not in the file lists" % f, obj)
    else:
        rec.outcome("unjudged")
    return verdict


def scratch():
    d = os.path.join(os.getcwd(), "cfg")
    sim.fresh(d)
    with open(os.path.join(d, "ccd.csv"), "w") as f:
        f.write("detector,x,y\n0,-0.01,-0.01\n0,0.01,-0.01\n0,0.01,0.01\n0,-0.01,0.01\n")
    return d


def singles(name, rec):
    d = scratch()
    survey, base = bases(d)[name]
    path = os.path.join(d, "c.ini")
    v = compare(name, survey, base, path, rec, dict(kind="base", base=name))
    rec.check(v == "accept", "base", "the check's own base configuration %s is not valid" % name, {})
    for e in edits(base, d):
        compare(name, survey, apply(base, [e]), path, rec, dict(kind="single", base=name, edit=[e[0], e[1], None if e[2] is NA else e[2]]))
    # layout: order of sections, case of keys, blank lines
    secs = list(base)
    for i in range(len(secs)):
        compare(name, survey, base, path, rec, dict(kind="layout", base=name), text(base, order=secs[i:] + secs[:i]))
    compare(name, survey, base, path, rec, dict(kind="layout", base=name), text(base, order=secs[::-1], upper=True))
    compare(name, survey, base, path, rec, dict(kind="layout", base=name), "\n\n".join(x.replace(" = ", ": ", 1) for x in text(base).split("\n")))
    # whole sections
    for s in secs:
        compare(name, survey, {x: kv for x, kv in base.items() if x != s}, path, rec, dict(kind="section", base=name, section=s))
        compare(name, survey, {x: (kv if x != s else {}) for x, kv in base.items()}, path, rec, dict(kind="section", base=name, section=s))
        compare(name, survey, {(x if x != s else s.lower()): kv for x, kv in base.items()}, path, rec, dict(kind="section", base=name, section=s))
        # a key of this section written in every other section
        for k in base[s]:
            for o in secs:
                if o != s:
                    compare(name, survey, apply(base, [(o, k, base[s][k])]), path, rec, dict(kind="misplaced", base=name, key=k, section=o))
    for s in list(KEYS) + ["DEFAULTS", "Fov", "FILTER"]:
        compare(name, survey, apply(base, [(s, "surprise", "1")]), path, rec, dict(kind="unknown", base=name, section=s))
    # syntax that cannot be read, and keys given twice
    t = text(base)
    first = secs[0]
    k0 = list(base[first])[0]
    broken = {
        "no section header": t.replace("[%s]\n" % first, "", 1),
        "key without value sign": t.replace("\n%s = " % k0, "\n%s " % k0, 1),
        "key twice": t.replace("\n%s = " % k0, "\n%s = %s\n%s = " % (k0, base[first][k0], k0), 1),
        "section twice": t + "[%s]\n" % first,
        "unclosed section": t.replace("[%s]" % first, "[%s" % first, 1),
        "empty file": "",
        "only comments": "# nothing\n; here\n",
        "text": "this is no configuration\n",
    }
    for what, txt in broken.items():
        with open(path, "w") as f:
            f.write(txt)
        got, res = load(path, survey)
        rec.state((name, what))
        rec.step()
        rec.check(got == "refuse" and isinstance(res, str), "accepted-syntax", "%s: not refused" % what, dict(kind="syntax", config=txt, survey=survey))


def pairs(name, part, parts, full, rec):
    d = scratch()
    survey, base = bases(d)[name]
    path = os.path.join(d, "c.ini")
    es = list(edits(base, d, None if full else 3))
    for i, (a, b) in enumerate(itertools.combinations(es, 2)):
        if a[:2] == b[:2] or i % parts != part:
            continue
        if full and a[0] != b[0] and "AUXILIARY" in (a[0], b[0]) and a[0] not in ("INPUT",) and b[0] not in ("INPUT",):
            continue
        compare(name, survey, apply(base, [a, b]), path, rec, dict(kind="pair", base=name, edits=[[x[0], x[1], None if x[2] is NA else x[2]] for x in (a, b)]))


def triples(name, section, rec):
    d = scratch()
    survey, base = bases(d)[name]
    path = os.path.join(d, "c.ini")
    es = [e for e in edits(base, d, 3) if e[0] == section]
    for t in itertools.combinations(es, 3):
        if len({x[:2] for x in t}) == 3:
            compare(name, survey, apply(base, t), path, rec, dict(kind="triple", base=name, edits=[[x[0], x[1], None if x[2] is NA else x[2]] for x in t]))


# keys whose valid values need inputs the small run does not have
NEEDS_INPUT = {"ssp_night_start_utc", "ar_healpix_order", "observing_filters", "phase_function", "lc_model", "comet_activity", "pointing_sql_query", "ephemerides_type", "eph_format", "aux_format", "visits_query", "camera_model", "footprint_path", "ar_obs_code", "output_columns"}


def build(name, survey, base, d):
    """Inputs for a run of a base configuration: returns the command line without -c."""
    vs = [sim.visit(i, 60000.1 + 0.01 * i, "r", ra=120.0, dec=20.0) for i in range(1, 3)]
    des = survey.lower() == "des"
    r = sim.Run(os.path.join(d, "in"), sim.base_config("DES" if des else "rubin_sim"), survey="DES" if des else "rubin_sim")
    par = [sim.phys("a", colours={"g-r": 0.4})]
    stub = base["INPUT"]["ephemerides_type"] == "ar"
    argv = []
    if stub:
        from mc import arstub
        orb = [arstub.bcart_orbit("a", *arstub.place(120.0, 20.0, 2.0, arstub.tdb(60000.1)), 60000.1)]
        r.inputs(vs, orb, par, orbit_cols=arstub.BCART_COLS)
        argv += ["--ar", arstub.fill_cache(os.path.join(d, "arcache"))]
    else:
        r.inputs(vs, [sim.kep_orbit("a")], par, [sim.eph("a", v) for v in vs])
        argv += ["--er", r.ephfile]
    if base["FOV"]["camera_model"] == "visits_footprint":
        import sqlite3
        con = sqlite3.connect(r.p("visits.db"))
        con.execute("CREATE TABLE observations (visitId INT, detectorID INT, ra REAL, dec REAL, llcra REAL, llcdec REAL, lrcra REAL, lrcdec REAL, urcra REAL, urcdec REAL, ulcra REAL, ulcdec REAL, magLim REAL)")
        for v in vs:
            con.execute("INSERT INTO observations VALUES (?,?,?,?,?,?,?,?,?,?,?,?,?)", (v["observationId"], 1, 120, 20, 119.9, 19.9, 120.1, 19.9, 120.1, 20.1, 119.9, 20.1, 24.0))
        con.commit()
        con.close()
        argv += ["--vd", r.p("visits.db")]
    argv += ["--ob", r.p("orbits.csv"), "-p", r.p("params.csv"), "--pd", r.p("pointing.db"), "-s", survey, "-t", "out"]
    return argv, stub


def call(argv, obj, rec, **kw):
    """The command; an exception instead of a message is a violation of its own."""
    import traceback
    try:
        return sim.cli("run", argv, **kw)[0]
    except Exception as e:  # noqa: BLE001
        rec.violation("traceback-%s-%s" % (type(e).__name__, str(e)[:40]), "the command ends in a traceback:\n" + traceback.format_exc()[-1500:], obj)
        return None


def command(name, part, parts, rec):
    """Every single edit through `sorcha run`."""
    d = scratch()
    survey, base = bases(d)[name]
    base = apply(base, [("INPUT", "size_serial_chunk", "10")])
    argv, stub = build(name, survey, base, d)
    out = os.path.join(d, "out")
    path = os.path.join(d, "c.ini")
    todo = [None] + list(edits(base, d))
    for i, e in enumerate(todo):
        if i % parts != part:
            continue
        cfg = apply(base, [e] if e else [])
        verdict, why = Judge(cfg, survey).run()
        if verdict == "any" or verdict == "accept" and e is not None and (e[1] in NEEDS_INPUT or e[0] == "AUXILIARY" and stub):
            continue
        with open(path, "w") as f:
            f.write(text(cfg))
        sim.fresh(out)
        obj = dict(kind="command", survey=survey, config=text(cfg))
        code = call(["-c", path, "-o", out] + argv, obj, rec, env=dict(SORCHA_SEED="3"), stub=stub)
        if code is None:
            continue
        files = [n for n in os.listdir(out) if not n.endswith((".log", ".err"))]
        rec.state((name, e and (e[0], e[1], str(e[2]))))
        rec.step()
        rec.outcome("command-" + verdict)
        if verdict == "refuse":
            rec.check(code != 0, "command-accepted", "the command succeeds although %s" % "; ".join(why), obj)
            rec.check(not files, "command-output", "refused, but there is output: %s" % files, obj)
        else:
            rec.check(code == 0, "command-refused", "the command fails with %r on a valid configuration" % (code,), obj)


def options(part, parts, rec):
    """Combinations of command-line options with what the configuration asks for."""
    d = scratch()
    bs = bases(d)
    _cache.clear()
    models = [("external", "none", "none"), ("ar", "none", "none"), ("external", "identity", "none"), ("external", "none", "identity")]
    surveys = ["rubin_sim", "RUBIN_SIM", "DES", "des", "LSST", "lsst", "Rubin", "", "rubin_sim "]
    i = 0
    for (eph, lc, act), survey, er, cp, vd, ar, vq, seed in itertools.product(
            models, surveys, ("no", "yes", "missing"), ("no", "yes", "missing"), ("no", "yes", "missing"), ("no", "yes", "missing"), ("no", "yes"), (None, "4")):
        des = survey.lower() == "des"
        odd = sum((er == "missing", cp == "missing", vd == "missing", ar == "missing"))
        i += 1
        if odd > 1 or i % parts != part or (seed is None and odd) or (survey not in ("rubin_sim", "DES") and (odd or ar == "yes")):
            continue
        name = "nocamera" if not des else "desnone"
        _, base = bs[name]
        base = apply(base, [("LIGHTCURVE", "lc_model", lc), ("ACTIVITY", "comet_activity", act)])
        if eph == "ar":
            base = dict(base, SIMULATION=dict(bs["circle"][1]["SIMULATION"]))
            base = apply(base, [("INPUT", "ephemerides_type", "ar")])
        if vq == "yes":
            if not des:
                continue  # a configuration for DES only, judged with the configurations
            base = apply(base, [("FOV", "camera_model", "visits_footprint"), ("FOV", "visits_query", DESVQ)])
        one_option(d, name, survey, base, eph, lc, act, er, cp, vd, ar, vq, seed, rec)


_cache = {}


def one_option(d, name, survey, base, eph, lc, act, er, cp, vd, ar, vq, seed, rec):
    key = (name, eph)
    if key not in _cache:
        bb = apply(base, [("FOV", "camera_model", "visits_footprint")])
        argv, _ = build(name, "DES" if name == "desnone" else "rubin_sim", bb, os.path.join(d, "%s-%s" % key))
        _cache[key] = argv
    argv = dict(zip(_cache[key][::2], _cache[key][1::2]))
    argv["-s"] = survey
    inp = os.path.dirname(argv["--ob"])
    have = {}
    have["--er"] = os.path.join(inp, "eph.csv")
    if not os.path.exists(have["--er"]):
        sim.write_eph(have["--er"], [sim.eph("a", sim.visit(1, 60000.11, "r", ra=120.0, dec=20.0))])
    have["--cp"] = os.path.join(inp, "complex.csv")
    sim.write_table(have["--cp"], [dict(ObjID="a", x=1.0)], ["ObjID", "x"], ",")
    have["--vd"] = os.path.join(inp, "visits.db")
    have["--ar"] = argv.get("--ar") or os.path.join(inp, "ardir")
    os.makedirs(have["--ar"], exist_ok=True)
    for flag, val in (("--er", er), ("--cp", cp), ("--vd", vd), ("--ar", ar)):
        argv.pop(flag, None)
        if val == "yes":
            argv[flag] = have[flag]
        elif val == "missing":
            argv[flag] = os.path.join(inp, "nothing-here")
    bad = survey not in ("rubin_sim", "RUBIN_SIM", "DES", "des")
    bad = bad or "missing" in (er, cp, vd, ar)
    bad = bad or eph == "external" and er == "no"
    bad = bad or (lc, act) != ("none", "none") and cp == "no"
    bad = bad or (vd == "yes") != (vq == "yes")
    if not bad and eph == "ar" and ar != "yes":
        return  # would use the data files of the user's own cache
    out = sim.fresh(os.path.join(d, "out"))
    path = os.path.join(d, "c.ini")
    with open(path, "w") as f:
        f.write(text(base))
    env = dict(SORCHA_SEED=seed) if seed is not None else {}
    obj = dict(kind="options", argv=[x for kv in argv.items() for x in kv], config=text(base))
    code = call(["-c", path, "-o", out] + obj["argv"], obj, rec, env=env, stub=True)
    files = [n for n in os.listdir(out) if not n.endswith((".log", ".err"))]
    rec.state((name, survey, eph, lc, act, er, cp, vd, ar, vq, seed))
    rec.step()
    if code is None:
        return
    rec.outcome("options-" + ("refuse" if bad else "accept"))
    what = "survey %r, er %s, cp %s, vd %s, ar %s, ephemerides %s, models %s/%s, visits_query %s" % (survey, er, cp, vd, ar, eph, lc, act, vq)
    if bad:
        rec.check(code != 0, "options-accepted", "accepted: " + what, obj)
        rec.check(not files, "options-output", "refused, but there is output: %s (%s)" % (files, what), obj)
    else:
        rec.check(code == 0, "options-refused", "refused with %r: %s" % (code, what), obj)


def paths(rec):
    """Input paths that are missing or directories, an output directory that is missing or a file, seeds that are no numbers."""
    d = scratch()
    survey, base = bases(d)["nocamera"]
    argv, _ = build("nocamera", survey, base, d)
    path = os.path.join(d, "c.ini")
    with open(path, "w") as f:
        f.write(text(base))
    opts = dict(zip(argv[::2], argv[1::2]))
    opts["-c"] = path
    opts["-o"] = os.path.join(d, "out")
    adir = os.path.join(d, "adir")
    os.makedirs(adir)
    for flag in ("-c", "--ob", "-p", "--pd", "--er", "-o"):
        for what, p in (("missing", os.path.join(d, "nothing")), ("directory" if flag != "-o" else "file", adir if flag != "-o" else path), ("empty name", "")):
            sim.fresh(opts["-o"])
            o = dict(opts)
            o[flag] = p
            obj = dict(kind="paths", flag=flag, what=what)
            code = call([x for kv in o.items() for x in kv], obj, rec, env=dict(SORCHA_SEED="3"))
            rec.state((flag, what))
            rec.step()
            rec.check(code != 0, "paths-accepted", "%s %s: accepted" % (flag, what), obj)
            files = [n for n in os.listdir(opts["-o"]) if not n.endswith((".log", ".err"))]
            rec.check(not files, "paths-output", "%s %s: output %s" % (flag, what, files), obj)
        o = dict(opts)
        del o[flag]
        code = call([x for kv in o.items() for x in kv], dict(kind="paths", flag=flag), rec, env=dict(SORCHA_SEED="3"))
        rec.check(code != 0, "paths-accepted", "without %s: accepted" % flag, dict(kind="paths", flag=flag))
    for seed in ("", "x", "1.5", "-1", "0", "4294967296"):
        sim.fresh(opts["-o"])
        code = call([x for kv in opts.items() for x in kv], dict(kind="seed", seed=seed), rec, env=dict(SORCHA_SEED=seed))
        files = [n for n in os.listdir(opts["-o"]) if not n.endswith((".log", ".err"))]
        rec.state(("seed", seed))
        rec.step()
        if seed in ("0", "4294967296"):
            rec.check(code == 0, "seed-refused", "SORCHA_SEED=%s refused: %r" % (seed, code), dict(kind="seed", seed=seed))
        elif seed != "-1":
            rec.check(code != 0 and not files, "seed-accepted", "SORCHA_SEED=%r: code %r, files %s" % (seed, code, files), dict(kind="seed", seed=seed))


def shipped(rec):
    """The configurations the package ships are valid for their survey, and read as written."""
    import configparser
    import sorcha
    root = os.path.join(os.path.dirname(sorcha.__file__), "data")
    repo = os.path.dirname(os.path.dirname(os.path.dirname(sorcha.__file__)))
    files = []
    for r in (root, os.path.join(repo, "demo")):
        for dp, dn, fn in os.walk(r):
            files += [os.path.join(dp, f) for f in fn if f.endswith(".ini")]
    d = scratch()
    for f in sorted(files):
        c = configparser.RawConfigParser()
        c.read(f)
        cfg = {s: dict(c[s]) for s in c.sections()}
        survey = "DES" if os.path.basename(f).startswith("DES") else "rubin_sim"
        v = compare(os.path.basename(f), survey, cfg, os.path.join(d, "c.ini"), rec, dict(kind="shipped", file=os.path.basename(f)), open(f).read())
        rec.check(v == "accept", "shipped", "the shipped configuration %s is not valid" % os.path.basename(f), {})


def shards(tier):
    names = ["circle", "footprint", "nocamera", "auxiliary", "desvisits", "desplain", "desnone"]
    out = [("single", n) for n in names] + [("shipped",), ("paths",)]
    out += [("command", n, p, 4) for n in (["circle", "desvisits"] if tier == "quick" else names) for p in range(4)]
    out += [("options", p, 8) for p in range(8)]
    if tier == "quick":
        out += [("pair", n, p, 4, False) for n in names for p in range(4)]
    else:
        out += [("pair", n, p, 40, True) for n in names for p in range(40)]
        out += [("triple", n, s) for n in names for s in KEYS if s != "AUXILIARY"]
    return out


def warm():
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses
    from sorcha.activity.activity_registration import update_activity_subclasses
    update_lc_subclasses()
    update_activity_subclasses()


def run(shard, rec):
    warm()
    kind = shard[0]
    if kind == "single":
        singles(shard[1], rec)
    elif kind == "shipped":
        shipped(rec)
    elif kind == "paths":
        paths(rec)
    elif kind == "command":
        command(shard[1], shard[2], shard[3], rec)
    elif kind == "options":
        options(shard[1], shard[2], rec)
    elif kind == "pair":
        pairs(shard[1], shard[2], shard[3], shard[4], rec)
    elif kind == "triple":
        triples(shard[1], shard[2], rec)
