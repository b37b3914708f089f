#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (a developer tool, not a check)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ (ImageContract, DefGen): definitions generated by TLC are built by the real builder; the finished image, decoded independently and through the crate's reader, is judged by TLC against the contract",
         "Sampled definitions (sizes aimed at block, group and write-batch boundaries), every clause decided per image. Trusts the independent decoder in the harness (crypto, header offsets)."),
 "C02": ("TLA+ (PartStream group-cache model, ImageContract): model checked exhaustively for small constants; built images' hash trees recomputed independently and judged by TLC",
         "Sampled definitions including revisited and partly filled groups; hashes recomputed for every block of every built group."),
 "C03": ("TLA+ (ImageContract layout clauses): regions observed in built images judged for disjointness, bounds and agreement with headers by TLC",
         "Sampled definitions; all pairs of regions compared per image."),
 "C04": ("TLA+ (DiscBuild model, DiscDef, ImageContract): histories of successful and failing additions generated by TLC, replayed into the real builder, the finished image judged by TLC",
         "All failing callbacks and unrepresentable definitions, sampled positions in histories of up to 4 additions."),
 "C05": ("TLA+ (DiscBuild model with faults, FaultTrace): model checked exhaustively; real builds with a fault at every destination operation, outcomes judged by TLC",
         "Every operation of the sampled builds fails once in each way; definition callbacks too."),
 "C06": ("TLA+ (DiscBuild model with crashes, FaultTrace): model checked exhaustively; every write prefix of real builds opened and judged by TLC",
         "Every prefix of the write log (and torn writes) of sampled builds."),
 "C07": ("TLA+ (PartReader): reader behaviours generated by TLC and replayed into the real reader over an independently encrypted source, results compared with the model's",
         "All short operation sequences over boundary positions, long random walks, faults in the source."),
 "C08": ("TLA+ (IoWindow): window behaviours generated by TLC, replayed into IOWindow and opened files, every result and every underlying access compared with the model's",
         "All short operation sequences for small windows plus random walks."),
 "C09": ("TLA+ (FstTree/FstEdit): editing model checked exhaustively, every transition and random histories replayed into the real Fst and compared",
         "Exhaustive for the small name and path universe of the model, sampled long histories."),
 "C10": ("TLA+ (FstTable, FstBytesTrace): wire format specified; real serialisations of all small and sampled large trees judged by TLC",
         "Exhaustive small trees with boundary offsets, sampled trees, very large tables."),
 "C11": ("TLA+ (FstTable, MalformedGen): every small raw table classified by TLC and replayed into the parser; images with generated malformed headers opened and read",
         "Exhaustive small raw tables; header fields set to boundary values, singly and in pairs."),
 "C12": ("TLA+ (Formats): field tables specified; encodings decoded and re-encoded by the real code, judged by TLC",
         "Every field of every structure with boundary values, sampled whole structures."),
 "C13": ("TLA+ (ImageContract metadata clauses): built partitions' ticket, certificates and TMD judged by TLC",
         "Sampled metadata and definitions; the fake-signed hash recomputed independently."),
 "C14": ("TLA+ (DirTree, DirGen, DirTrace): directories generated by TLC are built into images by the real code twice (other creation order, file system and place); images judged by TLC against the captured tree",
         "Sampled directories of up to 14 nodes, all 25 kinds of missing or damaged inputs, clashing and unrepresentable names; listing order varied by creation order and file system."),
 "C15": ("TLA+ (Extractor, ExtMC, ExtGen, ToolTrace): extraction model checked; discs and histories generated by TLC, images written by an independent composer, run through the real Python module, everything found on disk judged by TLC",
         "Every set of removed files of a small tree; sampled discs, hostile names, destination faults and damaged images. Run in a scratch directory as an unprivileged user."),
 "C16": ("TLA+ (Extractor, DirTree, ExtGen, TripTrace): generated images are extracted, rebuilt, extracted and rebuilt again, and copied by the real code; results judged by TLC",
         "Sampled images in varied layouts; contents, hash tree and metadata decided per image, byte comparison of the repeated rebuild."),
 "C17": ("TLA+ (ImageContract progress clauses, DirTrace, ToolTrace): progress recorded from real builds, rebuilds and extractions judged by TLC",
         "Sampled definitions including all-empty and multi-batch files."),
 "C18": ("TLA+ (FstWalk): traversal behaviours with renames and errors generated exhaustively by TLC and replayed into the real walks",
         "Exhaustive small trees and callbacks, sampled larger ones."),
 "C19": ("TLA+ (Extractor, SectMC, ToolTrace): section selection model checked exhaustively; every generated partition list and history of operations replayed through iso-tool and the Python module and judged by TLC",
         "All partition lists up to length 2 (thorough 3) with an unreadable partition anywhere, all histories of 2 operations over 9 spellings."),
}


def main():
    sys.path.insert(0, os.path.join(V, "run"))
    src = open(os.path.join(V, "run", "check.py")).read()
    ids = [p for p in sorted(T) if '"%s":' % p in src]
    m = {"version": 1,
         "setup_cmd": "python3 run/setup.py",
         "hooks": {"guard": "none", "enable": "no hooks: the public API and instrumented streams are enough", "source_commits": []},
         "checks": [{"property": p, "quick_cmd": "python3 run/check.py %s quick" % p,
                     "thorough_cmd": "python3 run/check.py %s thorough" % p, "technique": T[p][0],
                     "level": "model_checking", "level_note": T[p][1]} for p in ids],
         "not_applicable": [{"property": p, "reason": "machinery not built yet"} for p in sorted(T) if p not in ids]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
