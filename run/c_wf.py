"""Checks on the tools: rebuilding directories (C14), extraction (C15), round trips (C16), section selection (C19)."""
import json
import lib


def dirs(c, prop, n, m):
    c.tlc("DirGen", out="plain", simulate=n, depth=30)
    c.tlc("DirGen", cfg="DirGenH.cfg", out="hostile", simulate=m, depth=30, seed=c.seed + 50)
    c.tlc("DirDeep", out="deep")
    long = ["deep"] + (["long"] if prop == "C17" else [])
    if prop == "C17":
        c.tlc("DirLong", out="long")
    with open(c.path("dirs.nd"), "w") as f:
        for src in ["plain", "hostile"] + long:
            for j in c.emitted(src):
                f.write(j + "\n")
    c.sample(json.loads(next(c.emitted("hostile"))))
    c.harness("dirs", "dirs.nd", "building from a directory", obs=True, timeout=800, limit=120)
    c.judge("DirTrace", "dirs.out.obs", "building from a directory", env={"PROP": prop}, timeout=800)


def c14(c):
    dirs(c, "C14", c.n(800, 4000), c.n(1400, 8000))
    # the tools report it, too
    trips(c, "C14", c.n(120, 900), 0)


BATCH = 48


def in_batches(c, discs, items, what, obs, after=None):
    """discs: [{disc}], items: scenarios with img = index into discs; observations go to obs"""
    import os
    with open(c.path(obs), "w") as f:
        for at in range(0, len(discs), BATCH):
            part = discs[at:at + BATCH]
            with lib.Scratch(c) as sc:
                infos = sc.compose(part)
                mine = [dict(x, img=x["img"] - at, no=k) for k, x in enumerate(items) if at <= x["img"] < at + BATCH]
                for x in mine:
                    x["offs"] = [p["off"] for p in infos[x["img"]]["parts"]]
                res = sc.drive(mine, what)
                if after:
                    res = after(sc, res)
                for r in res:
                    if "img" in r["s"]:
                        r["s"]["disc"] = part[r["s"]["img"]]["disc"]
                    f.write(json.dumps(r) + "\n")


def extraction(c, prop, n, h, f, mc):
    sets = []
    if mc:
        c.tlc("ExtMC", out="extmc")
        sets.append("extmc")
    for cfg, cnt, k in (("ExtGen", n, 0), ("ExtGenH", h, 1), ("ExtGenF", f, 2)):
        if cnt:
            c.tlc("ExtGen", cfg=cfg + ".cfg", out=cfg, simulate=cnt, depth=60, seed=c.seed + 10 * k)
            sets.append(cfg)
    c.tlc("ExtDeep", out="deep", simulate=60, depth=60)
    sets.append("deep")
    discs, items, key = [], [], {}
    for name in sets:
        for j in c.emitted(name):
            d = json.loads(j)
            ds = json.dumps(d["disc"])
            if ds not in key:
                key[ds] = len(discs)
                discs.append({"disc": d["disc"]})
            items.append({"kind": "api", "img": key[ds], "ops": d["ops"], "fault": d["fault"], "stale": d["stale"], "targets": d["targets"]})
    c.sample({k: items[-1][k] for k in ("ops", "fault")})
    in_batches(c, discs, items, "extraction", "ext.obs")
    c.judge("ToolTrace", "ext.obs", "extraction", env={"PROP": prop}, timeout=800)


def big_extraction(c):
    c.tlc("ExtBig", cfg="ExtBig.cfg" if c.tier == "quick" else "ExtBigT.cfg", out="extbig")
    ds = [json.loads(j) for j in c.emitted("extbig")]
    items = [{"kind": "big", "img": k, "kb": d["kb"]} for k, d in enumerate(ds)]
    in_batches(c, [{"disc": d["disc"]} for d in ds], items, "extraction of more than 4 GiB", "big.obs")
    c.judge("ToolTrace", "big.obs", "extraction of more than 4 GiB", env={"PROP": "C17"}, timeout=800)


def c15(c):
    extraction(c, "C15", c.n(600, 5000), c.n(600, 5000), c.n(900, 9000), True)


def c19(c):
    c.tlc("SectMC", cfg=c.n("SectMC.cfg", "SectMCT.cfg"), out="sect")
    discs, key, items = [], {}, []
    for j in c.emitted("sect", "I"):
        d = json.loads(j)
        key[json.dumps(d["key"])] = len(discs)
        discs.append({"disc": d["disc"]})
    names = [[0]] + [list(x.encode()) for x in ("DATA", "data", "Data", "UPDATE", "upDate", "CHANNEL", "channeL", "", "DAT", "DATA ", "FOO", "datA1")]
    for k in range(len(discs)):
        items.append({"kind": "cli", "img": k, "names": names})
    for j in c.emitted("sect", "H"):
        d = json.loads(j)
        items.append({"kind": "api", "img": key[json.dumps(d["img"])], "ops": d["ops"], "probe": 1})
    # every spelling of the names and everything close to them
    c.tlc("SectNames", out="names")
    c.to_ndjson("names", "names.nd", "T")
    c.harness("typename", "names.nd", "type of a section name")
    allnames = [n for n in (json.loads(j)["nm"] for j in c.emitted("names", "T")) if 0 not in n]
    discs.append(json.loads(next(c.emitted("names", "I"))))
    for k in range(0, len(allnames), 24):
        part = allnames[k:k + 24]
        items.append({"kind": "cli", "img": len(discs) - 1, "names": part})
        items.append({"kind": "api", "img": len(discs) - 1, "ops": [{"op": o, "nm": n} for n in part for o in ("dolhash", "prepare", "dolhash")], "probe": 1})
    # deeply nested ones
    c.tlc("ExtDeep", out="deep", simulate=60, depth=60)
    seen = set()
    for j in c.emitted("deep"):
        d = json.loads(j)
        ds = json.dumps(d["disc"]["parts"][0]["tree"])
        if ds not in seen:
            seen.add(ds)
            items.append({"kind": "cli", "img": len(discs), "names": [[0], list(b"data")]})
            items.append({"kind": "api", "img": len(discs), "ops": [o for o in d["ops"] if o["op"] != "remove"], "probe": 1})
            discs.append({"disc": d["disc"]})
    c.sample(items[0])
    c.sample(items[-1])
    in_batches(c, discs, items, "sections", "sect.obs")
    c.judge("ToolTrace", "sect.obs", "section selection", env={"PROP": "C19"}, timeout=800)


def trips(c, prop, n, f):
    """copies, and extracting and rebuilding twice"""
    import os, subprocess
    discs, items = [], []
    for mod, cfg, cnt, k in (("ExtGen", "ExtGen", n, 5), ("ExtGen", "ExtGenF", f, 6), ("ExtDeep", "ExtDeep", 50 if f else 0, 7)):
        if cnt:
            c.tlc(mod, cfg=cfg + ".cfg", out="t" + cfg, simulate=cnt, depth=60, seed=c.seed + 10 * k)
            for j in c.emitted("t" + cfg):
                d = json.loads(j)
                items.append({"kind": "trip", "img": len(discs), "again": d["again"], "harm": int(prop in ("C05", "C14"))})
                discs.append({"disc": d["disc"]})
    c.sample(items[0])

    def look(sc, res):
        tr, cp = [], []
        for r in res:
            s, o = r["s"], r["o"]
            if "died" in o:
                c.violation("extracting and rebuilding: the process died (signal %d)" % o["died"], r)
                continue
            a = s["again"]
            img = os.path.join(sc.d, "img-%d" % s["img"])
            if "cdef" not in a:
                dd = {"seed": 1, "title": [], "parts": []}
                cp.append({"img": img, "def": dd, "expect": a["copy"]})
                continue
            cp.append({"img": img, "def": a["cdef"], "expect": a["copy"]})
            re = [os.path.join(sc.d, "re%d-%d" % (k, s["no"])) for k in (1, 2)]
            ok = [x for x in o["steps"] if x[0] == "rebuild" and x[1] == "ok"]
            tr.append({"def": a["tdef"], "expect": a["trip"], "steps": o["steps"], "re1": re[0] if len(ok) > 0 else None, "re2": re[1] if len(ok) > 1 else None,
                       "cli": o.get("cli", ""), "cliprog": o.get("cliprog", []), "cli_same": o.get("cli_same", True), "prog": o.get("prog", []), "full": o.get("full", []), "lacks": o.get("lacks", [])})
        out = []
        for cmd, xs in (("trips", tr), ("copies", cp)):
            if not xs:
                continue
            with open(c.path(cmd + ".nd"), "w") as g:
                for x in xs:
                    g.write(json.dumps(x) + "\n")
            c.harness(cmd, cmd + ".nd", "round trip", obs=True, limit=120)
            out += [dict(json.loads(l), s={"x": 0}) for l in open(c.path(cmd + ".out.obs"))]
        return out
    in_batches(c, discs, items, "round trips", "trip.obs", after=look)
    c.judge("TripTrace", "trip.obs", "round trip", env={"PROP": prop}, timeout=800)


def c16(c):
    trips(c, "C16", c.n(1500, 8000), c.n(500, 2500))
