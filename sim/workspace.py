"""Scratch copies of /repo's working tree.

Every worker process owns one copy: the code under test writes its caches
beside its own source, so a copy is what keeps those effects (and the injected
crashes) away from /repo.  `kind` selects which data files come along:

* ``code``: the .py files and the small tracked raw files, no parsed data.
* ``full``: as ``code`` plus the committed parsed data, shared between workers
  through one extra copy and symlinks for the big read-only trees.
"""
import os
import shutil
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")

# raw files which are tracked in the repository, with the directory they sit in
SMALL_RAW = [
    "demod/datasets/Germany/raw_data/data_v0.1.xlsx",
    "demod/datasets/Germany/raw_data/data_vBottaccioli.xlsx",
    "demod/datasets/DESTATIS/raw_data/appliances_penetration.ods",
    "demod/datasets/ExcellInputFile/inputs.xlsx",
]


def make_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access(
        "/dev/shm", os.W_OK) else None
    try:
        return tempfile.mkdtemp(prefix="demodsim_", dir=base)
    except OSError:
        return tempfile.mkdtemp(prefix="demodsim_")


def copy_code(dst):
    src = os.path.join(REPO, "demod")
    for d, dirs, files in os.walk(src):
        dirs[:] = sorted(x for x in dirs if x not in (
            "parsed_data", "raw_data", "__pycache__"))
        rel = os.path.relpath(d, REPO)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in sorted(files):
            if f.endswith(".py"):
                shutil.copyfile(os.path.join(d, f), os.path.join(dst, rel, f))
    for rel in SMALL_RAW:
        s = os.path.join(REPO, rel)
        if os.path.isfile(s):
            os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
            shutil.copyfile(s, os.path.join(dst, rel))


def copy_parsed(dst):
    """Adds the committed parsed data of the datasets the simulators use."""
    base = os.path.join(REPO, "demod", "datasets")
    out = os.path.join(dst, "demod", "datasets")
    for name in ("Germany", "DESTATIS", "OpenPowerSystems"):
        s = os.path.join(base, name, "parsed_data")
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(out, name, "parsed_data"),
                            dirs_exist_ok=True)
    # CREST: the transition matrices are committed in a directory whose name
    # differs in case from the one the loader opens.
    s = os.path.join(base, "CREST", "parsed_data", "v_2.2")
    d = os.path.join(out, "CREST", "parsed_data", "v_2.2")
    if os.path.isdir(s):
        shutil.copytree(s, d, dirs_exist_ok=True)
        low = os.path.join(d, "4_states")
        if os.path.isdir(low):
            shutil.copytree(low, os.path.join(d, "4_States"),
                            dirs_exist_ok=True)
    raw = os.path.join(out, "CREST", "raw_data")
    os.makedirs(raw, exist_ok=True)
    with open(os.path.join(raw, "CREST_Demand_Model_v2.2.xlsm"), "wb"):
        pass  # presence is enough: everything that is read is parsed already
    # GermanTOU: the hosted archives, "already downloaded"
    g = os.path.join(base, "GermanTOU", "parsed_data")
    graw = os.path.join(out, "GermanTOU", "raw_data")
    os.makedirs(graw, exist_ok=True)
    for act in ("Sparse9States", "4_States", "DemodActivities_0",
                "Bottaccioli2018"):
        s = os.path.join(g, act)
        if os.path.isdir(s):
            d = os.path.join(out, "GermanTOU", "parsed_data", act)
            shutil.copytree(s, d, dirs_exist_ok=True)
        z = os.path.join(g, act + ".zip")
        if os.path.isfile(z):
            shutil.copyfile(z, os.path.join(graw, act + ".zip"))
            import zipfile
            with zipfile.ZipFile(z) as f:
                f.extractall(os.path.join(
                    out, "GermanTOU", "parsed_data", act))
    # Renewables.ninja: a synthetic weather file stands in for the download
    nraw = os.path.join(out, "RenewablesNinja", "raw_data")
    os.makedirs(nraw, exist_ok=True)
    with open(os.path.join(nraw, "DE_population.csv"), "w") as f:
        f.write(ninja_csv(0))


def ninja_csv(salt, days=800, start="2013-12-01"):
    """A small weather file in the format of Renewables.ninja."""
    import datetime
    import math
    t0 = datetime.datetime.fromisoformat(start)
    rows = ["# synthetic", "# %d" % salt,
            "time,precipitation,temperature,irradiance_surface,"
            "irradiance_toa,snowfall,snow_mass,cloud_cover,air_density"]
    for i in range(days * 24):
        t = t0 + datetime.timedelta(hours=i)
        day, h = t.timetuple().tm_yday, t.hour
        sun = max(0.0, math.sin((h - 6) / 12 * math.pi))
        temp = 9 - 11 * math.cos(day / 365 * 2 * math.pi) + 4 * sun \
            + ((i * 37 + salt * 11) % 17) / 10
        irr = 600 * sun * (0.6 - 0.4 * math.cos(day / 365 * 2 * math.pi))
        rows.append("%s,%.4f,%.3f,%.3f,%.3f,%.4f,%.4f,%.4f,%.4f" % (
            t.strftime("%Y-%m-%d %H:%M:%S"), ((i + salt) % 7) / 50, temp,
            irr * 0.7, irr * 0.3, ((i + salt) % 5) / 100,
            ((i + 2 * salt) % 9) / 10, ((i * 13 + salt) % 100) / 100,
            1.2 + ((i + salt) % 11) / 100))
    return "\n".join(rows) + "\n"


def snapshot_data(root):
    """List of the data directories, to restore a workspace after a case."""
    snap = {}
    base = os.path.join(root, "demod", "datasets")
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in files:
            p = os.path.join(d, f)
            if not f.endswith(".py"):
                with open(p, "rb") as fh:
                    snap[p] = fh.read()
    dirs_ = [d for d, _, _ in os.walk(base)]
    return dirs_, snap


def restore_data(root, snap):
    dirs_, files = snap
    keep_d = set(dirs_)
    base = os.path.join(root, "demod", "datasets")
    for d, subdirs, fs in os.walk(base, topdown=True):
        for s in list(subdirs):
            p = os.path.join(d, s)
            if s == "__pycache__":
                subdirs.remove(s)
            elif p not in keep_d:
                shutil.rmtree(p, ignore_errors=True)
                subdirs.remove(s)
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".py") and p not in files:
                os.remove(p)
    for d in dirs_:
        os.makedirs(d, exist_ok=True)
    for p, data in files.items():
        try:
            with open(p, "rb") as fh:
                same = fh.read() == data
        except OSError:
            same = False
        if not same:
            with open(p, "wb") as fh:
                fh.write(data)
