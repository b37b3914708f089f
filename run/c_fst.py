"""Checks on the file system table: C09, C10, C11 (tables), C18."""
import json


def c09(c):
    # the properties on the model, exhaustively
    c.tlc("FstEditMC", timeout=800)
    # every transition of the model, replayed from its pre-state
    c.tlc("FstEditMC", cfg="FstEditGen.cfg", out="edit")
    c.to_ndjson("edit", "edit.nd")
    c.sample(json.loads(next(c.emitted("edit"))))
    c.harness("fst-edit", "edit.nd", "editing call")
    # long random histories
    c.tlc("FstEditSim", out="hist", simulate=c.n(250, 1500), depth=62)
    c.to_ndjson("hist", "hist.nd", tag="T")
    c.sample(json.loads(next(c.emitted("hist", "T")))[:3])
    c.harness("fst-hist", "hist.nd", "editing history")
    # re-sorting arbitrary tables, judged by FstBytesTrace
    trees(c)
    c.harness("fst-ser", "trees.nd", "re-sorting", obs=True)
    only(c, "fst-ser.out.obs", "sort.obs", "sort")
    c.judge("FstBytesTrace", "sort.obs", "re-sorting")


def only(c, src, dst, kind):
    with open(c.path(src)) as f, open(c.path(dst), "w") as g:
        for line in f:
            if json.loads(line)["kind"] == kind:
                g.write(line)


def trees(c):
    c.tlc("FstTreeGen", out="trees", simulate=c.n(150, 1200), depth=31)
    c.to_ndjson("trees", "trees.nd")


def c10(c):
    # every small tree with boundary offsets encodes to a well-formed table in the model
    c.tlc("FstTableMC", out="small")
    trees(c)
    n = 0
    with open(c.path("all.nd"), "w") as f:
        for src in ("small", "trees"):
            for j in c.emitted(src):
                f.write(j + "\n")
    c.sample(json.loads(next(c.emitted("small"))))
    c.sample(json.loads(next(c.emitted("trees"))))
    c.harness("fst-ser", "all.nd", "serialisation", obs=True)
    only(c, "fst-ser.out.obs", "ser.obs", "ser")
    c.judge("FstBytesTrace", "ser.obs", "serialisation")
    # very large tables
    c.tlc("WideGen", out="wide", env={"KIND": "tables", "TIER": c.tier})
    c.to_ndjson("wide", "wide.nd")
    c.harness("fst-wide", "wide.nd", "serialisation of a large table", obs=True)
    c.judge("WideTrace", "fst-wide.out.obs", "serialisation of a large table")
    deep(c, "ser")


def deep(c, what):
    """deeply nested tables"""
    c.tlc("Nest", out="nest", env={"GEN": "1"})
    with open(c.path("nest.nd"), "w") as f:
        for j in c.emitted("nest"):
            if json.loads(j)["what"] == what:
                f.write(j + "\n")
    c.harness("fst-deep", "nest.nd", "deeply nested table", obs=True)
    c.judge("Nest", "fst-deep.out.obs", "deeply nested table", env={"GEN": "0"})


def c11(c):
    c.tlc("FstRawMC", out="raw")
    c.to_ndjson("raw", "raw.nd")
    c.sample(json.loads(next(c.emitted("raw"))))
    c.harness("fst-raw", "raw.nd", "parsing a raw table", limit=20)
    # larger random tables
    c.tlc("FstRawSim", out="rawsim", simulate=c.n(8000, 60000), depth=20)
    c.to_ndjson("rawsim", "rawsim.nd")
    c.harness("fst-raw", "rawsim.nd", "parsing a raw table", limit=20, out="rawsim.out")
    deep(c, "raw")
    malformed(c)


def c18(c):
    c.tlc("FstWalkMC", out="walk")
    c.tlc("FstWalkSim", out="walks", simulate=c.n(250, 1000), depth=62)
    with open(c.path("walk.nd"), "w") as f:
        for j in c.emitted("walk", "T"):
            f.write(j + "\n")
        for j in c.emitted("walks", "W"):
            f.write(j + "\n")
    c.sample({k: v for k, v in json.loads(next(c.emitted("walk", "T"))).items() if k != "scn"})
    c.harness("fst-walk", "walk.nd", "traversal")


def malformed(c):
    c.tlc("MalformedGen", out="single")
    c.tlc("MalformedGen", cfg="MalformedSim.cfg", out="multi", simulate=c.n(4000, 30000), depth=10)
    with open(c.path("malf.nd"), "w") as f:
        for src in ("single", "multi"):
            for j in c.emitted(src):
                f.write(j + "\n")
    c.harness("malformed", "malf.nd", "opening and reading a malformed image", obs=True, timeout=800, limit=120)
    c.judge("MalformedTrace", "malformed.out.obs", "opening and reading a malformed image", timeout=800)
