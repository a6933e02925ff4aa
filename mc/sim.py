"""Builds complete sorcha inputs in the current directory and runs the real survey simulation on them."""
import contextlib
import io
import math
import os
import shutil
import sqlite3

AU_KM = 1.495978707e8

EPH_COLS = ["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg",
            "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
            "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km",
            "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]

LSST_QUERY = ("SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, filter, "
              "seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, fiveSigmaDepth as "
              "fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg "
              "FROM observations order by observationId")
DES_QUERY = ("SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI, visitExposureTime, filter, "
             "seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, fiveSigmaDepth as "
             "fieldFiveSigmaDepth_mag, fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg, "
             "c, k FROM observations order by observationId")
VISITS_QUERY = ("SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra_centre, dec_centre, detectorID, magLim as limMag_perChip "
                "FROM observations WHERE visitId = ?")


SIZES = (31, 64, 100, 255, 500, 999, 1001, 2048, 4097, 10007)  # lengths of long tables, around round numbers


def visit(fid, mjd, filt, ra=10.0, dec=-5.0, depth=24.0, seeing=0.8, rot=0.0, exptime=30.0, visittime=34.0, c=0.9, k=5.0,
          seeingeff=None):
    return dict(observationId=fid, observationStartMJD=mjd, filter=filt, fieldRA=ra, fieldDec=dec, fiveSigmaDepth=depth,
                seeingFwhmGeom=seeing, seeingFwhmEff=seeing if seeingeff is None else seeingeff, rotSkyPos=rot,
                visitExposureTime=exptime, visitTime=visittime, c=c, k=k,
                observationMidpointMJD=mjd + visittime / 2 / 86400.0)


def write_pointing(path, visits):
    if os.path.exists(path):
        os.remove(path)
    con = sqlite3.connect(path)
    cols = ["observationId", "observationStartMJD", "visitTime", "visitExposureTime", "filter", "seeingFwhmGeom",
            "seeingFwhmEff", "fiveSigmaDepth", "fieldRA", "fieldDec", "rotSkyPos", "observationMidpointMJD", "c", "k"]
    con.execute("CREATE TABLE observations (observationId INTEGER, observationStartMJD REAL, visitTime REAL, "
                "visitExposureTime REAL, filter TEXT, seeingFwhmGeom REAL, seeingFwhmEff REAL, fiveSigmaDepth REAL, "
                "fieldRA REAL, fieldDec REAL, rotSkyPos REAL, observationMidpointMJD REAL, c REAL, k REAL)")
    con.executemany("INSERT INTO observations VALUES (%s)" % ",".join("?" * len(cols)), [[v[c] for c in cols] for v in visits])
    con.commit()
    con.close()
    return path


def eph(obj, v, ra=None, dec=None, rng=1.5, rangerate=0.0, dra=0.1, ddec=0.05, r=2.0, phase=None, des=False):
    """An ephemeris row: object at distance rng [au] from an observer 1 au from the Sun, r [au] from the Sun."""
    d, o = rng, 1.0
    # place Sun at the origin, observer at (1,0,0), object at distance r from the Sun and rng from the observer
    x = (r * r - d * d + o * o) / (2 * o)
    y = math.sqrt(max(r * r - x * x, 0.0))
    cosph = (r * r + d * d - o * o) / (2 * r * d)
    ph = math.degrees(math.acos(max(-1.0, min(1.0, cosph)))) if phase is None else phase
    mjd = v["observationMidpointMJD"] - v["visitExposureTime"] / 2 / 86400.0 if des else v["observationStartMJD"]
    return dict(ObjID=obj, FieldID=v["observationId"], fieldMJD_TAI=mjd, fieldJD_TDB=mjd + 2400000.5 + 0.0008,
                Range_LTC_km=rng * AU_KM, RangeRate_LTC_km_s=rangerate, RA_deg=v["fieldRA"] if ra is None else ra,
                RARateCosDec_deg_day=dra, Dec_deg=v["fieldDec"] if dec is None else dec, DecRate_deg_day=ddec,
                Obj_Sun_x_LTC_km=x * AU_KM, Obj_Sun_y_LTC_km=y * AU_KM, Obj_Sun_z_LTC_km=0.0, Obj_Sun_vx_LTC_km_s=1.0,
                Obj_Sun_vy_LTC_km_s=2.0, Obj_Sun_vz_LTC_km_s=3.0, Obs_Sun_x_km=AU_KM, Obs_Sun_y_km=0.0, Obs_Sun_z_km=0.0,
                Obs_Sun_vx_km_s=0.0, Obs_Sun_vy_km_s=29.0, Obs_Sun_vz_km_s=0.0, phase_deg=ph)


def fmt(x):
    return repr(float(x)) if isinstance(x, float) else str(x)


def write_table(path, rows, cols, sep=","):
    with open(path, "w") as f:
        f.write(sep.join(cols) + "\n")
        for r in rows:
            f.write(sep.join(fmt(r[c]) for c in cols) + "\n")
    return path


def kep_orbit(obj, a=2.5, e=0.1, inc=5.0, node=10.0, arg=20.0, ma=30.0, epoch=60000.0):
    return dict(ObjID=obj, FORMAT="KEP", a=a, e=e, inc=inc, node=node, argPeri=arg, ma=ma, epochMJD_TDB=epoch)


KEP_COLS = ["ObjID", "FORMAT", "a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"]


def phys(obj, H=18.0, filt="r", colours=None, GS=0.15, **kw):
    d = {"ObjID": obj, "H_" + filt: H, "GS": GS}
    d.update(colours or {})
    d.update(kw)
    return d


class Cfg(dict):
    """section -> key -> value; Cfg(base).set('EXPERT', snr_limit=5)"""

    def set(self, section, **kw):
        d = Cfg({s: dict(v) for s, v in self.items()})
        d.setdefault(section, {}).update(kw)
        return d

    def drop(self, section, *keys):
        d = Cfg({s: dict(v) for s, v in self.items()})
        if not keys:
            d.pop(section, None)
        for k in keys:
            d.get(section, {}).pop(k, None)
        return d

    def write(self, path):
        with open(path, "w") as f:
            for s, kv in self.items():
                f.write("[%s]\n" % s)
                for k, v in kv.items():
                    f.write("%s = %s\n" % (k, v))
                f.write("\n")
        return path


def base_config(survey="rubin_sim", filters="r,g", ephem="external", chunk=1000, output="csv", columns="all", eph_format="csv",
                aux="csv"):
    c = Cfg()
    c["INPUT"] = dict(ephemerides_type=ephem, eph_format=eph_format, size_serial_chunk=chunk, aux_format=aux,
                      pointing_sql_query=LSST_QUERY if survey == "rubin_sim" else DES_QUERY)
    c["SIMULATION"] = ({} if ephem == "external" else
                       dict(ar_ang_fov=2.06, ar_fov_buffer=0.2, ar_picket=1, ar_obs_code="X05", ar_healpix_order=6))
    c["FILTERS"] = dict(observing_filters=filters)
    c["SATURATION"] = {}
    c["PHASECURVES"] = dict(phase_function="HG")
    c["FOV"] = dict(camera_model="none")
    c["FADINGFUNCTION"] = {}
    c["LINKINGFILTER"] = {}
    c["OUTPUT"] = dict(output_format=output, output_columns=columns)
    c["LIGHTCURVE"] = dict(lc_model="none")
    c["ACTIVITY"] = dict(comet_activity="none")
    c["EXPERT"] = dict(randomization_on="False", trailing_losses_on="False", vignetting_on="False")
    return c


LINKING = dict(SSP_detection_efficiency=1.0, SSP_number_observations=2, SSP_separation_threshold=0.5, SSP_maximum_time=0.0625,
               SSP_number_tracklets=3, SSP_track_window=15, SSP_night_start_utc=16.0)


class Refused(Exception):
    pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write_eph(path, rows, fmt_="csv", cols=None):
    cols = cols or EPH_COLS
    if fmt_ in ("csv", "whitespace"):
        return write_table(path, rows, cols, "," if fmt_ == "csv" else " ")
    import pandas as pd
    pd.DataFrame(rows)[cols].to_hdf(path, key="data", format="table")
    return path


class Run:
    """One simulation: files in directory d, configuration cfg. .go() runs the real code."""

    def __init__(self, d, cfg, survey="rubin_sim", stats=None, seed=1, out="out", eph_out=None, clear=True):
        self.d, self.cfg, self.survey, self.stats, self.seed, self.out, self.eph_out = d, cfg, survey, stats, seed, out, eph_out
        if clear:
            fresh(d)
        self.aux_sep = "," if cfg["INPUT"]["aux_format"] != "whitespace" else " "
        self.complex = None
        self.visits_db = None
        self.ephfile = None
        self.rngs = None  # replaces the random number generators of the run
        self.ar_cache = None  # directory of placeholder data files when the internal generator is used

    def p(self, n):
        return os.path.join(self.d, n)

    def inputs(self, visits, orbits, params, ephs=None, orbit_cols=None, param_cols=None, complex_rows=None, complex_cols=None):
        write_pointing(self.p("pointing.db"), visits)
        write_table(self.p("orbits.csv"), orbits, orbit_cols or KEP_COLS, self.aux_sep)
        write_table(self.p("params.csv"), params, param_cols or list(params[0]), self.aux_sep)
        if complex_rows is not None:
            write_table(self.p("complex.csv"), complex_rows, complex_cols or list(complex_rows[0]), self.aux_sep)
            self.complex = self.p("complex.csv")
        if ephs is not None:
            self.ephfile = write_eph(self.p("eph.csv"), ephs, self.cfg["INPUT"].get("eph_format", "csv"))
        return self

    def args(self):
        from sorcha.utilities.sorchaArguments import sorchaArguments
        a = dict(paramsinput=self.p("params.csv"), orbinfile=self.p("orbits.csv"), input_ephemeris_file=self.ephfile,
                 configfile=self.p("config.ini"), outpath=self.p("o"), outfilestem=self.out, pointing_database=self.p("pointing.db"),
                 output_ephemeris_file=self.eph_out, ar_data_path=None, loglevel=False, stats=self.stats,
                 visits_database=self.visits_db, surveyname=self.survey, seed=self.seed)
        if self.complex:
            a["complex_physical_parameters"] = self.complex
        if self.ar_cache is None and self.cfg["INPUT"]["ephemerides_type"] == "ar":
            from mc import arstub
            self.ar_cache = arstub.fill_cache(os.path.join(os.getcwd(), "arcache"))
        a["ar_data_path"] = self.ar_cache
        with quiet():
            args = sorchaArguments(a)
        if self.rngs is not None:
            args._rngs = self.rngs
        return args

    def configs(self):
        from sorcha.utilities.sorchaConfigs import sorchaConfigs
        self.cfg.write(self.p("config.ini"))
        with quiet():
            return sorchaConfigs(self.p("config.ini"), self.survey)

    def go(self, return_only=False):
        fresh(self.p("o"))
        conf = self.configs()
        args = self.args()
        if self.survey == "rubin_sim":
            from sorcha.sorcha import runLSSTSimulation as sim
        else:
            from sorcha.des import runDESSimulation as sim
        if self.cfg["INPUT"]["ephemerides_type"] == "ar":
            from mc import arstub
            with quiet(), arstub.installed():
                return sim(args, conf, return_only)
        with quiet():
            return sim(args, conf, return_only)

    def go_refused(self):
        """Runs; returns the SystemExit (refusal) or None."""
        try:
            self.go()
        except SystemExit as e:
            return e
        return None

    def ext(self):
        return {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[self.cfg["OUTPUT"]["output_format"]]

    def rows(self, name=None):
        """Rows of the output file (or None when there is none), as dicts of python values, read independently."""
        return read_any(os.path.join(self.d, "o", (name or self.out) + self.ext()))

    def stats_rows(self):
        p = os.path.join(self.d, "o", (self.stats or "") + ".csv")
        return read_csv(p) if os.path.exists(p) else None


def conv(s):
    try:
        return float(s)
    except ValueError:
        return s


def read_csv(path):
    """ObjID, filter and boolean columns stay text."""
    with open(path) as f:
        lines = f.read().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    head = lines[0].split(",")
    out = []
    for ln in lines[1:]:
        v = ln.split(",")
        if len(v) != len(head):
            raise AssertionError("ragged line %r for header %r" % (ln, head))
        out.append({h: (x if h in ("ObjID", "optFilter", "object_linked", "FORMAT") else conv(x)) for h, x in zip(head, v)})
    return out


def read_any(path):
    if not os.path.exists(path):
        return None
    if path.endswith(".csv"):
        return read_csv(path)
    if path.endswith(".db"):
        con = sqlite3.connect(path)
        cur = con.execute("select * from sorcha_results")
        names = [d[0] for d in cur.description]
        out = [dict(zip(names, r)) for r in cur.fetchall()]
        con.close()
        return out
    import pandas as pd
    df = pd.read_hdf(path)
    return [dict(zip(df.columns, r)) for r in df.itertuples(index=False)]


def write_visits(path, rows):
    """rows: (visitId, detectorID, magLim, [(ra, dec) x 4])"""
    if os.path.exists(path):
        os.remove(path)
    con = sqlite3.connect(path)
    con.execute("CREATE TABLE observations (visitId INTEGER, detectorID INTEGER, magLim REAL, llcra REAL, llcdec REAL, lrcra REAL, lrcdec REAL, "
                "urcra REAL, urcdec REAL, ulcra REAL, ulcdec REAL, ra_centre REAL, dec_centre REAL)")
    con.executemany("INSERT INTO observations VALUES (%s)" % ",".join("?" * 13),
                    [[v, d, m] + [c for p in pts for c in p] + [sum(p[0] for p in pts) / 4, sum(p[1] for p in pts) / 4] for v, d, m, pts in rows])
    con.commit()
    con.close()
    return path


class Draws:
    """Stands in for the per-module random number generators with prescribed uniform draws (in the order they are asked for)."""

    def __init__(self, u):
        import numpy
        self.np, self.u, self.asked, self.names = numpy, list(u), 0, []

    def getModuleRNG(self, name):
        self.names.append(name)
        return self

    def take(self, n):
        n = 1 if n is None else int(n)
        out = self.np.array(self.u[self.asked: self.asked + n])
        self.asked += n
        return out

    def random(self, size=None):
        return self.take(size) if size is not None else float(self.take(1)[0])

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def cli(module, argv, env=None, answer=None, stub=False, log=False):
    """Runs a command of sorcha_cmdline in this process: (exit code or message, printed text). 0 is success."""
    import importlib
    import logging
    import sys
    m = importlib.import_module("sorcha_cmdline." + module)
    old, oldenv, handlers, level = sys.argv, dict(os.environ), list(logging.getLogger().handlers), logging.getLogger().level
    sys.argv = ["sorcha " + module] + [str(a) for a in argv]
    os.environ.update(env or {})
    text = io.StringIO()
    code = 0
    inp = sys.stdin
    if answer is not None:
        sys.stdin = io.StringIO(answer)
    if log:
        logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text), contextlib.ExitStack() as st:
            if stub:
                from mc import arstub
                import sorcha.sorcha  # noqa: F401
                st.enter_context(arstub.installed())
            m.main()
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.stdin = inp
        if log:
            logging.disable(logging.CRITICAL)
        for h in list(logging.getLogger().handlers):
            if h not in handlers:
                logging.getLogger().removeHandler(h)
                h.close()
        logging.getLogger().setLevel(level)
        sys.argv = old
        os.environ.clear()
        os.environ.update(oldenv)
    return code, text.getvalue()


def snapshot(d):
    """Every file below d with its content (links and directories as such)."""
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if os.path.islink(p) else open(p, "rb").read()
        for f in dn:
            out[os.path.relpath(os.path.join(dp, f), d) + "/"] = "dir"
    return out
