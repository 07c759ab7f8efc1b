"""A simulated time use survey: households, residents and their diaries.

Everyone lives seeded days; the recorders lose days, are not filled by some
residents, are filled on other days, and refuse answers.  What was recorded
is written to files of the form of the German survey.
"""
import os

import numpy as np

from . import survey_codes as C

TRAVEL = [921, 922, 931, 934, 941, 945, 951, 962, 970, 980, 991]
CODES = [c for cs in C.DEMOD.values() for c in cs if c]
T = 144


def make(case, r, fault):
    """(households, persons, diaries), each a list of dictionaries."""
    hhs, pers, diaries = [], [], []
    pool = [CODES[i] for i in r.randint(len(CODES), size=case["codes"])]
    for h in range(1, case["n"] + 1):
        size = int(r.choice([1, 1, 2, 2, 3, 4, 5]))
        hhs.append({"id_hhx": h, "ha1x": size, "anz_erw": r.randint(1, 8),
                    "hhtyp": r.randint(1, 6), "hd15x": r.randint(-1, 6)})
        old = r.random_sample() < .4
        for p in range(1, size + 1):
            pers.append({
                "id_persx": h * 10 + p, "id_hhx": h, "persx": p,
                "alterx": r.randint(60, 95) if old else r.randint(10, 80),
                "pb3": 8 if old and r.random_sample() < .8 else
                r.randint(1, 12), "pe23x": r.randint(-1, 6),
                "ha6x": r.randint(1, 10), "ha8x": r.randint(1, 3),
                "ha3": r.randint(1, 3)})
        filled = size
        if size > 1 and r.random_sample() < case["absent"]:
            fault("resident who fills no diary")
            filled -= 1
        quarter, days = r.randint(1, 5), r.randint(1, 8, size=4)
        same = []
        for d in (1, 2, 3):
            other = size > 1 and r.random_sample() < case["apart"]
            if other:
                fault("diaries of different days")
            same.append(2 if other else 1)
        for p in range(1, filled + 1):
            lost = 0
            if r.random_sample() < case["lost"]:
                fault("lost day")
                lost = r.randint(1, 4)
            for d in (1, 2, 3):
                if d == lost:
                    continue
                diaries.append(dict(
                    day(case, r, fault, pool), id_hhx=h, persx=p,
                    id_persx=h * 10 + p, tagnr=d, fehl_tag=lost,
                    selbtag=same[d - 1], quartal=quarter, wtagfei=days[d]))
    for a, b in zip(diaries, diaries[1:]):
        if a["id_persx"] == b["id_persx"] and b["tagnr"] == a["tagnr"] + 1 \
                and r.random_sample() < .3:
            a["tc8"] = -2           # ends where the next day starts
    return hhs, pers, diaries


def day(case, r, fault, pool):
    main, other = [], []
    asleep = r.randint(0, case["sleep"] + 1)
    while len(main) < T:
        code = pool[r.randint(len(pool))]
        n = 1 + r.randint(12)
        x = r.random_sample()
        if len(main) < asleep:
            code, n = 110, asleep
        elif x < case["travel"]:
            code, n = TRAVEL[r.randint(len(TRAVEL))], 1 + r.randint(3)
        elif x > .93 and case["sleep"]:
            code = 132
        main += [code] * n
        y = r.random_sample()
        other += [0 if y < .8 else TRAVEL[0] if y > .99 else
                  pool[r.randint(len(pool))]] * n

    def place(k):
        if r.random_sample() < case["refused"]:
            fault("refused answer")
            return -1
        return 1 + (r.random_sample() < k)
    return {"main": main[:T], "other": other[:T], "tc5": 1,
            "tc7": place(.3), "tc8": place(.3)}


def write(folder, hhs, pers, diaries):
    """The files of the survey."""
    os.makedirs(folder, exist_ok=True)

    def out(name, rows):
        with open(os.path.join(folder, "zve13_puf_%s.csv" % name), "w") as f:
            f.write(";".join(rows[0]) + "\n")
            for row in rows:
                f.write(";".join(str(int(x)) for x in row.values()) + "\n")
    out("hh", hhs)
    out("pers", pers)
    rows = []
    for d in diaries:
        row = {k: v for k, v in d.items() if k not in ("main", "other")}
        for t in range(T):
            row["tb1_%d" % (t + 1)] = d["main"][t]
            row["tb2_%d" % (t + 1)] = d["other"][t]
            for k in (3, 4, 5):
                row["tb%d_%d" % (k, t + 1)] = 0
        rows.append(row)
    out("takt", rows)


# --------------------------------------------------------- who is in a group

def picks(survey, sub, full=True, days=True, same=True):
    """Which diaries belong to a subgroup."""
    hhs, pers, diaries = survey
    hh = {h["id_hhx"]: h for h in hhs}
    person = {p["id_persx"]: p for p in pers}
    some = {}
    for d in diaries:
        some[d["id_hhx"]] = max(some.get(d["id_hhx"], 0), d["persx"])
    lost = {(d["id_hhx"], d["fehl_tag"]) for d in diaries if d["fehl_tag"]}
    ages = {h: [p["alterx"] for p in pers if p["id_hhx"] == h] for h in hh}
    jobs = {h: [p["pb3"] for p in pers if p["id_hhx"] == h] for h in hh}
    work = {"1_fulltime": 2, "1_halftime": 3, "2_fulltime": 4,
            "1_fulltime_1_halftime": 5, "3_fulltime": 6, "other": 7}

    def any_of(x, value):
        return value in x if isinstance(x, list) else value == x

    def fits(d):
        h, p = hh[d["id_hhx"]], person[d["id_persx"]]
        if full and some[d["id_hhx"]] != h["ha1x"]:
            return False
        if days and (d["id_hhx"], d["tagnr"]) in lost:
            return False
        if same and d["selbtag"] != 1 and h["ha1x"] != 1:
            return False
        for key, x in sub.items():
            if key == "hh_work_type":
                if x in work:
                    ok = h["anz_erw"] == work[x]
                else:
                    k = int(x[0])
                    ok = h["ha1x"] == k and jobs[d["id_hhx"]] == [8] * k
            elif key == "age":
                ok = x[0] <= p["alterx"] < x[1]
            elif key == "hh_mean_age":
                a = ages[d["id_hhx"]]
                ok = x[0] <= sum(a) / len(a) < x[1]
            else:
                ok = any_of(x, {
                    "quarter": d["quartal"], "weekday": d["wtagfei"],
                    "n_residents": h["ha1x"], "household_type": h["hhtyp"],
                    "life_situation": p["pb3"], "salary": p["pe23x"],
                    "hh_revenue": h["hd15x"], "gender": p["ha3"],
                    "household_position": p["ha6x"],
                    "geburtsland": p["ha8x"]}[key])
            if not ok:
                return False
        return True
    return np.array([fits(d) for d in diaries], dtype=bool)


def subgroup(rng):
    """A seeded subgroup (JSON: tuples are lists)."""
    some = {
        "quarter": lambda: rng.randint(1, 4),
        "weekday": lambda: rng.choice([rng.randint(1, 7), [1, 2, 3, 4, 5],
                                       [6, 7]]),
        "n_residents": lambda: rng.choice([1, 1, 2, 3, 4, 5, [1, 2], [3, 5]]),
        "household_type": lambda: rng.randint(1, 5),
        "life_situation": lambda: rng.choice([8, rng.randint(1, 11),
                                              [1, 2, 3], [6, 8]]),
        "salary": lambda: rng.randint(1, 5),
        "hh_revenue": lambda: rng.randint(1, 5),
        "gender": lambda: rng.randint(1, 2),
        "household_position": lambda: rng.randint(1, 9),
        "geburtsland": lambda: rng.randint(1, 2),
        "hh_work_type": lambda: rng.choice([
            "1_fulltime", "1_halftime", "2_fulltime", "1_fulltime_1_halftime",
            "3_fulltime", "other", "1_retired", "2_retired", "2_retired"]),
        "age": lambda: sorted([rng.randint(0, 100), rng.randint(0, 100)]),
        "hh_mean_age": lambda: sorted([rng.randint(0, 100),
                                       rng.randint(0, 100)])}
    n = rng.choice([0, 1, 1, 1, 2, 3])
    return {k: some[k]() for k in rng.sample(sorted(some), n)}


def real(sub):
    return {k: tuple(v) if k in ("age", "hh_mean_age") else v
            for k, v in sub.items()}
