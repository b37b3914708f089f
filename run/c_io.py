"""Checks on windows and the partition reader: C07, C08."""
import json


def c08(c):
    # all sequences of 3 operations on 6 windows
    c.tlc("IoWindowGen", out="seqs")
    c.tlc("IoWindowSim", out="walks", simulate=c.n(6000, 60000), depth=26)
    with open(c.path("win.nd"), "w") as f:
        for src in ("seqs", "walks"):
            for j in c.emitted(src):
                f.write(j + "\n")
    c.sample(json.loads(next(c.emitted("seqs"))))
    c.sample(json.loads(next(c.emitted("walks"))))
    c.harness("window", "win.nd", "operations on a window", obs=True)
    c.judge("IoWindowTrace", "window.out.obs", "operations on a window")
    # files and windows of partitions
    partreads(c, "PartReaderWin.cfg", c.n(1500, 10000), 50, "operations on a file of a partition")


def partreads(c, cfg, n, seed, what):
    c.tlc("PartReaderSim", cfg=cfg, out="hist", simulate=n, depth=40, seed=c.seed + seed)
    c.to_ndjson("hist", "hist.nd")
    c.sample(json.loads(next(c.emitted("hist"))))
    c.harness("reader", "hist.nd", what, obs=True, timeout=800, limit=120)
    c.judge("PartReaderTrace", "reader.out.obs", what, timeout=800)


def c07(c):
    c.tlc("PartReaderMC")
    partreads(c, "PartReaderSim.cfg", c.n(4000, 20000), 0, "reading partitions")
