"""Runs the Python module and the command line tool on images, as an unprivileged
user inside a scratch directory, and records what happened.
usage: wf_driver.py <scratch> <scenarios.nd> <out.nd> <processes>
The scratch directory holds disc_riider_py.so, iso-tool and img-<k>.
Each scenario is run in a process of its own."""
import hashlib, json, os, re, resource, shutil, signal, stat, subprocess, sys, time

ABS = "/tmp/dr-verif-abs"
SECS = ["DATA", "UPDATE", "CHANNEL"]
LIMIT = 60
NEEDED = ["sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin", "files"]


def sha(b):
    return hashlib.sha1(b).hexdigest()


def name(b):
    return os.fsdecode(bytes(b))


def jb(s):
    return list(os.fsencode(s))


def attempt(f):
    """(result, value)"""
    try:
        return "ok", f()
    except Exception as e:
        return "err", str(e)[:200]
    except BaseException as e:
        return "panic", "%s: %s" % (type(e).__name__, str(e)[:200])


def walk(top):
    """files below top: relative path components -> absolute path; links and specials too"""
    out = []
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            out.append((os.path.relpath(p, top).split("/"), p))
    return out


def snapshot(top, skip):
    """everything below top except skip"""
    r = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for x in ds + fs:
            p = os.path.join(d, x)
            if p in skip:
                continue
            s = os.lstat(p)
            r[p] = (s.st_mode, s.st_size, s.st_mtime_ns if not stat.S_ISDIR(s.st_mode) else 0)
    return r


TRUE = [True, 1, "x", [0], -1.5, object()]
FALSE = [False, 0, "", [], None, {}]


class Run:
    def __init__(self, scratch, no, s, info, img):
        self.s, self.info, self.img = s, info, img
        self.scratch = scratch
        self.w = os.path.join(scratch, "w%d" % no)
        os.makedirs(os.path.join(self.w, "cwd"))
        for x in ("canary", "cwd/canary", "esc2"):
            with open(os.path.join(self.w, x), "w") as f:
                f.write("keep")
        os.chdir(os.path.join(self.w, "cwd"))
        self.dest = os.path.join(self.w, "dest")
        self.ids = {}
        for p in info["parts"]:
            for i, h in p["blobs"]:
                self.ids.setdefault(h, []).append(i)

    def parts_with(self, f):
        return [k + 1 for k, p in enumerate(self.info["parts"]) if f(p)]

    def path(self, t):
        p = os.path.join(self.dest, name(t["sec"]))
        for x in t["path"]:
            p = os.path.join(p, x if isinstance(x, str) else name(x))
        return p

    def op(self, x, o):
        if o["op"] == "prepare":
            r, v = attempt(lambda: x.prepare_extract_section(name(o["nm"])))
            return {"r": r, "why": str(v)}
        if o["op"] == "dolhash":
            r, v = attempt(lambda: bytes(x.get_dol_hash(name(o["nm"]))).hex())
            return {"r": r, "v": self.parts_with(lambda p: p["dol"] == v)}
        if o["op"] == "remove":
            gone = {"/".join(name(c) for c in p) for p in o["gone"]}
            seen = []

            def cb(path):
                seen.append(path)
                k = (o["how"] + len(seen)) % 6 if o["how"] else 0
                if path in gone:
                    return TRUE[k]
                if o["how"] == 5 and k == 1:
                    raise ValueError("not removed")
                return FALSE[k]
            r, v = attempt(lambda: x.remove_files_by_callback(name(o["nm"]), cb))
            return {"r": r, "why": str(v), "seen": sorted({tuple(p.split("/")) for p in seen}) and [[jb(c) for c in p] for p in sorted({tuple(p.split("/")) for p in seen})], "n": len(seen)}
        raise AssertionError(o)

    def extract(self, x, rec):
        s, dest = self.s, self.dest
        fault = s["fault"]
        os.mkdir(dest)
        kept = []
        for k, t in enumerate(s.get("targets", [])):
            if (k + s["stale"]) % 3 == 0:
                p = self.path(t)
                try:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(b"stale" * (500 + t["sz"] // 3))
                except OSError:
                    pass
        if s.get("stale"):
            for p in ("keep.txt", "DATA/keep.txt", "DATA/files/keep-me.txt", "OTHER/x"):
                p = os.path.join(dest, p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("keep")
                kept.append(p)
        kind = fault["kind"]
        if kind in ("full", "dir"):
            p = self.path(fault["target"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == "full":
                os.symlink("/dev/full", p)
            else:
                os.makedirs(p)
        elif kind in ("nofiles", "nosys"):
            p = os.path.join(dest, name(fault["sec"]), kind[2:])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        elif kind == "ro":
            os.chmod(dest, 0o555)
        elif kind == "shrink":
            os.truncate(self.img, max(0, os.path.getsize(self.img) - fault["by"]))
        before = snapshot(self.w, {dest})
        prog = []

        def cb(v):
            n, b = 0, 0
            for sec in SECS:
                for _, p in walk(os.path.join(dest, sec, "files")):
                    n += 1
                    b += os.lstat(p).st_size
            prog.append([v, n, b])
        if kind == "fsize":
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault["lim"], resource.RLIM_INFINITY))
        r, v = attempt(lambda: x.extract_to(dest, cb))
        if kind == "fsize":
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if kind == "ro":
            os.chmod(dest, 0o755)
        rec["r"], rec["why"] = r, str(v)
        rec["prog"] = prog if len(prog) < 400 else prog[:200] + prog[-200:]
        rec["outside"] = snapshot(self.w, {dest}) == before and not os.path.lexists(ABS)
        self.collect(dest, kept, rec)
        rec["kept"] = all(os.path.exists(p) and open(p).read() == "keep" for p in kept)
        # directories that hold no file
        rec["dirs"] = [[jb(c) for c in os.path.relpath(d, dest).split("/")] for d, ds, fs in os.walk(dest) if not ds and not fs and d != dest]
        # the extractor can be used again
        if kind not in ("cut", "shrink"):
            sec = next((o["nm"] for o in s["ops"] if o["op"] == "prepare"), list(b"DATA"))
            d2 = os.path.join(self.w, "dest2", "new")
            again = {"nm": sec, "odd": [], "kept": True}
            again["p"], _ = attempt(lambda: x.prepare_extract_section(name(sec)))
            if again["p"] == "ok":
                again["r"], again["why"] = attempt(lambda: x.extract_to(os.path.relpath(d2) + "/", lambda v: None))
                again["why"] = str(again["why"])
                self.collect(d2, [], again)
            rec["re"] = again

    def collect(self, dest, kept, rec):
        """the files below dest"""
        out, sys_, odd = [], [], []
        facts = {"disc/header.bin": self.info["header"], "disc/region.bin": self.info["region"]}
        for comp, p in walk(dest):
            if p in kept:
                continue
            sec, rest = comp[0], comp[1:]
            st = os.lstat(p)
            if not stat.S_ISREG(st.st_mode):
                odd.append([jb(c) for c in comp])
                continue
            h = sha(open(p, "rb").read())
            if rest and rest[0] == "files":
                out.append([jb(sec), [jb(c) for c in rest[1:]], self.ids.get(h, []), st.st_size])
            else:
                nm = "/".join(rest)
                sys_.append([jb(sec), nm, self.parts_with(lambda q: facts.get(nm) == h or [nm, h] in q["sys"])])
        rec["out"], rec["sys"], rec["odd"] = out, sys_, odd

    def printed(self, x):
        """test_print: sections of paths; a path that was printed with escapes is []"""
        p = os.path.join(self.w, "printed")
        sys.stdout.flush()
        keep = os.dup(1)
        f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, 1)
        r, v = attempt(lambda: x.test_print())
        os.dup2(keep, 1)
        os.close(f)
        os.close(keep)
        secs = []
        for l in open(p, encoding="utf-8").read().split("\n")[:-1]:
            if l == "section:":
                secs.append([])
            elif secs:
                try:
                    n = [] if "\\" in l else json.loads(l)
                except ValueError:
                    n = ["?"]
                secs[-1].append([jb(c) for c in n])
            else:
                r = "odd"
        os.remove(p)
        return {"r": r, "l": secs}

    def api(self):
        import disc_riider_py
        rec = {}
        r, x = attempt(lambda: disc_riider_py.WiiIsoExtractor(self.img))
        rec["open"] = r
        rec["res"] = []
        if r == "ok":
            for o in self.s["ops"]:
                rec["res"].append(self.op(x, o))
                if rec["res"][-1]["r"] == "panic":
                    break
            else:
                if self.s.get("probe"):
                    rec["probe"] = [self.op(x, {"op": "dolhash", "nm": list(n.encode())}) for n in SECS]
                    rec["printed"] = self.printed(x)
                if "fault" in self.s:
                    self.extract(x, rec)
        else:
            rec["why"] = str(x)
        return rec

    def tool(self, *args, timeout=LIMIT):
        p = subprocess.run([os.path.join(self.scratch, "iso-tool")] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode == 0:
            r = "ok"
        elif p.returncode < 0 or b"panicked at" in p.stderr:
            r = "panic"
        else:
            r = "err"
        return r, p.stdout

    def cli(self):
        """listing, file listing and system files for every given section name"""
        rec = {}
        r, o = self.tool("sections", self.img)
        lines = []
        for l in o.decode().splitlines():
            t, _, off = l.partition(": ")
            lines.append([["Data", "Update", "Channel"].index(t) if t in ("Data", "Update", "Channel") else -1, [int(off, 16) >> 18, int(off, 16) // 4 & 0xffff] if off else []])
        rec["sections"] = {"r": r, "l": lines}
        rec["files"], rec["sys"] = [], []
        for k, nm in enumerate(self.s["names"]):
            a = [] if nm == [0] else ["--section=" + name(nm)]
            r, o = self.tool("print-files", self.img, *a)
            ls = []
            for l in o.split(b"\n")[:-1]:
                d = len(l) - len(l.lstrip(b" "))
                ls.append([d, list(l[d:])])
            rec["files"].append({"r": r, "l": ls})
            self.dest = os.path.join(self.w, "dest%d" % k)
            before = snapshot(self.w, {self.dest})
            r, o = self.tool("extract-sys", self.img, self.dest, *a)
            got = []
            for comp, p in walk(self.dest):
                h = sha(open(p, "rb").read())
                n = "/".join(comp)
                got.append([n, self.parts_with(lambda q: [n, h] in q["sys"])])
            rec["sys"].append({"r": r, "l": got, "outside": snapshot(self.w, {self.dest}) == before})
            shutil.rmtree(self.dest, ignore_errors=True)
        return rec

    def trip(self):
        """extract, rebuild, and again"""
        import disc_riider_py
        rec = {"steps": []}
        img = self.img
        for k in (1, 2):
            d = os.path.join(self.w, "x%d" % k)
            os.mkdir(d)
            iso = os.path.join(self.scratch, "re%d-%d" % (k, self.s["no"]))

            def ex():
                x = disc_riider_py.WiiIsoExtractor(img)
                x.prepare_extract_section("DATA")
                gone = {"/".join(name(n) for n in p) for p in self.s["again"].get("gone", [])} if k == 1 else ()
                if gone:
                    x.remove_files_by_callback("data", lambda p: p in gone)
                x.extract_to(d, lambda v: None)
            r, v = attempt(ex)
            rec["steps"].append(["extract", r, str(v)])
            if r != "ok":
                break
            pr = []
            # onto something else, and by relative paths
            no = self.s["no"]
            if no % 2 == k % 2:
                with open(iso, "wb") as f:
                    f.write(b"\xa5garbage" * 1500000)
            src, dst = (os.path.relpath(d) + "/", os.path.relpath(iso)) if no % 3 == k else (d, iso)
            r, v = attempt(lambda: disc_riider_py.rebuild_from_directory(src, dst, pr.append))
            rec["steps"].append(["rebuild", r, str(v)])
            rec.setdefault("prog", []).append(pr)
            if k == 1:
                # the command line tool does the same
                other = iso + "-cli"
                if no % 4 > 1:
                    with open(other, "wb") as f:
                        f.write(b"\x5agarbage" * 1500000)
                r2, o2 = self.tool("rebuild", src, other)
                rec["cli"] = r2
                rec["cliprog"] = [int(x) for x in re.findall(r"(\d+)\s*%", o2.decode(errors="replace"))]
                rec["cli_same"] = r2 != "ok" or r != "ok" or sha_file(iso) == sha_file(other)
                if os.path.exists(other):
                    os.remove(other)
            if r != "ok":
                break
            if k == 1 and self.s.get("harm"):
                # a destination without room, and a directory that lacks something
                full = iso + "-full"
                os.symlink("/dev/full", full)
                rec["full"] = [attempt(lambda: disc_riider_py.rebuild_from_directory(src, full, pr.append))[0], self.tool("rebuild", src, full)[0]]
                os.remove(full)
                lacks = NEEDED[no % len(NEEDED)]
                p = os.path.join(d, "DATA", lacks)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
                oth = iso + "-lack"
                rec["lacks"] = [lacks, attempt(lambda: disc_riider_py.rebuild_from_directory(src, oth, pr.append))[0], self.tool("rebuild", src, oth)[0]]
                if os.path.exists(oth):
                    os.remove(oth)
            shutil.rmtree(d)
            img = iso
        return rec

    def big(self):
        """extraction of more than 4 GiB; what was written is let go while it runs"""
        import disc_riider_py
        dest = self.dest
        os.mkdir(dest)
        prog, high, last, calls = [], {}, [None], [0]

        def look():
            for _, p in walk(os.path.join(dest, "DATA", "files")):
                high[p] = max(high.get(p, 0), os.lstat(p).st_size)

        def cb(v):
            calls[0] += 1
            if v == last[0] and calls[0] % 509:
                return
            look()
            if v != last[0]:
                prog.append([v, len(high), sum(high.values()) // 1024])
            last[0] = v
            # the writer goes on where it was, so sizes stay right
            for p in high:
                if os.path.exists(p) and not os.path.islink(p) and os.lstat(p).st_size > 1 << 21:
                    os.truncate(p, 0)

        def go():
            x = disc_riider_py.WiiIsoExtractor(self.img)
            x.prepare_extract_section("data")
            x.extract_to(dest, cb)
        r, v = attempt(go)
        look()
        return {"r": r, "why": str(v), "prog": prog[:400] + prog[400:][-400:], "lens": [high.get(os.path.join(dest, "DATA", "files", chr(98 + k)), 0) // 1024 for k in range(len(self.s["kb"]))], "calls": calls[0]}

    def run(self):
        k = self.s["kind"]
        if k == "big":
            return self.big()
        return self.api() if k == "api" else self.cli() if k == "cli" else self.trip()


def sha_file(p):
    h = hashlib.sha1()
    with open(p, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


def copy_sparse(a, b):
    with open(a, "rb") as f, open(b, "wb") as g:
        n, at = os.fstat(f.fileno()).st_size, 0
        while at < n:
            try:
                at = os.lseek(f.fileno(), at, os.SEEK_DATA)
            except OSError:
                break
            end = os.lseek(f.fileno(), at, os.SEEK_HOLE)
            while at < end:
                d = os.pread(f.fileno(), min(end - at, 1 << 22), at)
                os.pwrite(g.fileno(), d, at)
                at += len(d)
        os.ftruncate(g.fileno(), n)


def child(scratch, no, s, info, img, out):
    signal.alarm(600 if s["kind"] == "big" else LIMIT)
    devnull = os.open("/dev/null", os.O_WRONLY)
    os.dup2(devnull, 2)
    r = Run(scratch, no, s, info, img)
    own = None
    if s.get("fault", {}).get("kind") in ("shrink", "cut"):
        own = os.path.join(r.w, "img")
        copy_sparse(img, own)
        r.img = own
        if s["fault"]["kind"] == "cut":
            os.truncate(own, max(0, os.path.getsize(own) - s["fault"]["by"]))
    rec = r.run()
    os.chdir(scratch)
    with open(out, "w") as f:
        json.dump(rec, f)
    os._exit(0)


def main():
    scratch, scen, outp, procs = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    sys.path.insert(0, scratch)
    sys.dont_write_bytecode = True
    import disc_riider_py  # noqa: loaded once, inherited by the children
    infos = {}
    with open(os.path.join(scratch, "info.nd")) as f:
        for line in f:
            d = json.loads(line)
            if "i" in d:
                infos[d["i"]] = d
    items = [json.loads(l) for l in open(scen)]
    res = [None] * len(items)
    live = {}
    nxt = 0

    def reap():
        pid, status = os.wait()
        k = live.pop(pid)
        p = os.path.join(scratch, "o%d" % k)
        if status == 0 and os.path.exists(p):
            rec = json.load(open(p))
            os.remove(p)
        elif os.WIFSIGNALED(status):
            rec = {"died": os.WTERMSIG(status)}
        else:
            print("driver failed on scenario %d: %d" % (k, status))
            sys.exit(3)
        w = os.path.join(scratch, "w%d" % k)
        shutil.rmtree(w, ignore_errors=True)
        res[k] = rec
    while nxt < len(items) or live:
        if nxt < len(items) and len(live) < procs:
            pid = os.fork()
            if pid == 0:
                try:
                    s = items[nxt]
                    child(scratch, nxt, s, infos[s["img"]], os.path.join(scratch, "img-%d" % s["img"]), os.path.join(scratch, "o%d" % nxt))
                except BaseException:
                    import traceback
                    with open(os.path.join(scratch, "driver.err"), "a") as f:
                        f.write("scenario %d\n" % nxt + traceback.format_exc())
                os._exit(3)
            live[pid] = nxt
            nxt += 1
        else:
            reap()
    with open(outp, "w") as f:
        for s, r in zip(items, res):
            f.write(json.dumps({"s": s, "o": r}) + "\n")


main()
