"""C12: metadata structures."""
import json


def c12(c):
    c.tlc("FormatGen", cfg="FormatGen.cfg" if c.quick else "FormatGenT.cfg", out="enc", timeout=800)
    c.to_ndjson("enc", "enc.nd")
    c.sample(json.loads(next(c.emitted("enc"))))
    c.harness("formats", "enc.nd", "decoding and encoding", obs=True)
    c.judge("FormatTrace", "formats.out.obs", "decoding and encoding", timeout=800,
            key=lambda src, bad: "title-not-utf8" if src["v"] == ["rawtitle"] and bad == ["title_bytes"] else None)
