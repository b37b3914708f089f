"""Common machinery of the checks: build from /repo, run TLC, run the harness,
collect violations, write evidence."""
import fcntl, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


def tail(path, n=25):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, ".work", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples, self.notes, self.parts = [], [], {}
        self.violations = []      # (what, data)
        self.known_hits = []
        self.assumptions = []
        self.known = load_known(pid)

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def left(self, budget=840):
        return budget - (time.time() - self.t0)

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg=None, out=None, simulate=None, depth=None, env=None, timeout=600,
            workers=None, expect=0, count=True, seed=None, xss="64m", heap="6g"):
        """Runs TLC; emitted lines <<"TAG", "json">> go to `out` as (tag, json) lines.
        Returns number of emitted lines. A TLC failure is a tool error: the model is
        independent of /repo, so it can only fail because of the machinery itself."""
        cfg = cfg or module + ".cfg"
        name = out or ("%s-%d" % (module, len(os.listdir(self.work))))
        stdout = self.path(name + ".tlc")
        meta = self.path(name + ".meta")
        cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
               "-metadir", meta, "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                    "-seed", str(self.seed if seed is None else seed), "-workers", str(workers or 1)]
        else:
            cmd += ["-workers", str(workers or 8)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        with open(stdout, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        emitted, gen, dist = 0, 0, 0
        lines = []
        with open(stdout, errors="replace") as f:
            o = open(self.path(out), "w") if out else None
            for line in f:
                if line.startswith('<<"'):
                    m = re.match(r'<<"(\w+)", (".*")>>\s*$', line)
                    if m:
                        emitted += 1
                        if o:
                            o.write(m.group(1) + "\t" + json.loads(m.group(2)) + "\n")
                        else:
                            lines.append((m.group(1), json.loads(m.group(2))))
                        continue
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    gen = int(m.group(1))
                    dist = max(dist, gen)
            if o:
                o.close()
        if rc != expect:
            raise ToolError("TLC exit %d on %s (%s)\n%s" % (rc, module, cfg, tail(stdout)))
        if count:
            self.states += dist
            self.transitions += gen
        self.parts.setdefault("tlc", []).append(
            {"module": module, "cfg": cfg, "states": dist, "transitions": gen, "emitted": emitted,
             "mode": "simulate" if simulate else "exhaustive", "s": round(time.time() - t, 1)})
        log("TLC %s/%s: %d generated, %d distinct, %d emitted, %.1fs" % (module, cfg, gen, dist, emitted, time.time() - t))
        return lines if not out else emitted

    def emitted(self, out, tag=None):
        with open(self.path(out)) as f:
            for line in f:
                t, j = line.split("\t", 1)
                if tag is None or t == tag:
                    yield j.rstrip("\n")

    def to_ndjson(self, out, dest, tag=None, limit=None):
        n = 0
        with open(self.path(dest), "w") as f:
            for j in self.emitted(out, tag):
                f.write(j + "\n")
                n += 1
                if limit and n >= limit:
                    break
        return n

    # ---- judging recorded observations with a trace specification ---------
    def judge(self, module, obs, what, env=None, timeout=600, cfg=None, heap="6g", key=None):
        """Every line of obs is judged by TLC; a violated clause is a violation."""
        p = self.path(obs)
        lines = open(p).read().splitlines()
        if not lines:
            raise ToolError("no observations for " + module)
        e = {"OBS": p}
        e.update(env or {})
        bad = self.tlc(module, cfg=cfg, env=e, timeout=timeout, heap=heap)
        self.traces += len(lines)
        for tag, j in bad:
            if tag != "BAD":
                continue
            d = json.loads(j)
            src = json.loads(lines[d["i"] - 1])
            self.violation("%s: %s" % (what, ", ".join(d["bad"])), {"judge": module, "clauses": d["bad"], "observation": src},
                           key=key(src, d["bad"]) if key else None)
        return len(lines)

    # ---- harness ---------------------------------------------------------
    def harness(self, cmd, inp, what, timeout=600, limit=60, env=None, out=None, obs=False):
        """Runs the harness; {"bad":..} lines are violations; other lines are returned or,
        with obs, kept in the output file for a judge."""
        binp = build_harness()
        outp = self.path(out or (cmd + ".out"))
        e = dict(os.environ)
        e["SCENARIO_LIMIT"] = str(limit)
        e.update(env or {})
        t = time.time()
        err = open(outp + ".err", "w")
        hang = False
        try:
            rc = subprocess.run([binp, cmd, self.path(inp), outp], stdout=subprocess.DEVNULL, stderr=err, timeout=timeout, env=e, cwd=self.work).returncode
        except subprocess.TimeoutExpired:
            rc, hang = 97, True
        err.close()
        at = open(outp + ".at").read().strip() if os.path.exists(outp + ".at") else ""
        if rc == 2:
            raise ToolError("harness %s failed:\n%s" % (cmd, tail(outp + ".err")))
        if rc != 0:
            scen = None
            if at:
                try:
                    scen = open(self.path(inp)).read().splitlines()[int(at)]
                except (IndexError, ValueError, OSError):
                    pass
            kind = "does not return (hang)" if rc == 97 else "ends the process (exit %d)" % rc
            self.violation("%s: the code %s in scenario %s" % (what, kind, at), {"cmd": cmd, "scenario": json.loads(scen) if scen else None, "stderr": tail(outp + ".err", 5), "whole_run_timeout": hang})
        rest, summ = [], None
        keep = open(outp + ".obs", "w") if obs else None
        with open(outp) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                if line.startswith('{"bad":') or line.startswith('{"summary":'):
                    d = json.loads(line)
                    if "bad" in d:
                        self.violation("%s: %s" % (what, d["why"]), dict(d, cmd=cmd, scenario=scenario_line(self.path(inp), d["bad"])), key=d.get("key"))
                    else:
                        summ = d["summary"]
                elif keep:
                    keep.write(line)
                else:
                    rest.append(json.loads(line))
        if keep:
            keep.close()
        if rc == 0 and summ is None:
            raise ToolError("harness %s wrote no summary" % cmd)
        if summ:
            self.evaluations += summ["calls"]
            if not obs:
                self.traces += summ["scenarios"]
            self.parts.setdefault("harness", []).append(dict(summ, cmd=cmd, s=round(time.time() - t, 1)))
            log("harness %s: %s (%.1fs)" % (cmd, summ, time.time() - t))
        return rest

    # ---- results ---------------------------------------------------------
    def violation(self, what, data, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in [x["key"] for x in self.known_hits]:
                    self.known_hits.append(k)
                return
        self.violations.append((what, data))
        if len(self.violations) <= 5:
            log("violation:", what[:600])

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000])

    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "calls_into_impl": self.evaluations,
               "samples": self.samples, "parts": self.parts}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        if self.violations:
            rp = os.path.join(self.replays, "%s-%d.json" % (self.pid, int(self.t0)))
            with open(rp, "w") as f:
                json.dump([{"what": w, "data": d} for w, d in self.violations[:20]], f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  " + self.violations[0][0][:1000])
            rc = 1
        log("%s %s: %s in %.1fs" % (self.pid, self.tier, "violated" if rc else "held", wall))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc


def scenario_line(path, i):
    try:
        with open(path) as f:
            for k, line in enumerate(f):
                if k == i:
                    return json.loads(line) if len(line) < 200000 else line[:2000]
    except (OSError, ValueError):
        pass
    return None


def load_known(pid):
    """finding: property=<id> key=<key> <what>"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append({"key": m.group(2), "what": m.group(3)})
    return r


# ---- building ------------------------------------------------------------
def cargo(args, cwd, target, timeout=840):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env.update({"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(BUILD, target)})
    env.setdefault("CARGO_HOME", os.path.expanduser("~/.cargo"))
    with open(os.path.join(BUILD, target + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), r.stdout[-3000:]))


_built = {}


def build_harness():
    if "h" not in _built:
        t = time.time()
        cargo(["build", "--release", "--quiet"], os.path.join(VERIF, "harness"), "harness")
        _built["h"] = os.path.join(BUILD, "harness", "release", "dr-harness")
        log("harness built from %s in %.1fs" % (REPO, time.time() - t))
    return _built["h"]


def build_tools():
    """command line tool and Python module; returns (iso-tool, shared object)"""
    if "t" not in _built:
        t = time.time()
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copyfile("/opt/vp/Cargo.lock", lock)
        os.environ.setdefault("PYO3_PYTHON", "/usr/bin/python3.12")
        cargo(["build", "--release", "--quiet", "-p", "iso-tool", "-p", "disc-riider-py"], REPO, "ws")
        d = os.path.join(BUILD, "ws", "release")
        _built["t"] = (os.path.join(d, "iso-tool"), os.path.join(d, "libdisc_riider_py.so"))
        log("tools built from %s in %.1fs" % (REPO, time.time() - t))
    return _built["t"]


NOBODY = 65534


class Scratch:
    """a directory of an unprivileged user, holding the tools and the images"""
    ABS = "/tmp/dr-verif-abs"

    def __init__(self, c):
        import tempfile
        self.c = c
        tool, so = build_tools()
        self.d = tempfile.mkdtemp(prefix="dr-verif-", dir="/tmp")
        shutil.copyfile(tool, os.path.join(self.d, "iso-tool"))
        shutil.copyfile(so, os.path.join(self.d, "disc_riider_py.so"))
        shutil.copyfile(os.path.join(VERIF, "run", "wf_driver.py"), os.path.join(self.d, "wf_driver.py"))
        os.chmod(os.path.join(self.d, "iso-tool"), 0o755)
        os.chmod(self.d, 0o755)
        os.chown(self.d, NOBODY, NOBODY)
        self.clear_abs()

    def clear_abs(self):
        if os.path.isdir(self.ABS) and not os.path.islink(self.ABS):
            shutil.rmtree(self.ABS, ignore_errors=True)
        elif os.path.lexists(self.ABS):
            os.remove(self.ABS)

    def compose(self, discs):
        """writes img-<k> for each {disc: ..}; returns the facts about them"""
        inp = self.c.path("compose.in")
        with open(inp, "w") as f:
            for d in discs:
                f.write(json.dumps(d) + "\n")
        out = os.path.join(self.d, "info.nd")
        r = subprocess.run([build_harness(), "compose", inp, out], cwd=self.d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
        if r.returncode != 0:
            raise ToolError("compose failed: " + r.stderr.decode()[-2000:])
        for n in os.listdir(self.d):
            os.chown(os.path.join(self.d, n), NOBODY, NOBODY)
        infos = {}
        for line in open(out):
            d = json.loads(line)
            if "i" in d:
                infos[d["i"]] = d
        return infos

    def drive(self, items, what, timeout=700):
        """runs the scenarios as the unprivileged user; returns [{s, o}]"""
        t = time.time()
        scen, out = os.path.join(self.d, "scen.nd"), os.path.join(self.d, "obs.nd")
        with open(scen, "w") as f:
            for x in items:
                f.write(json.dumps(x) + "\n")
        if os.path.exists(out):
            os.remove(out)

        def drop():
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os.umask(0o022)
        env = {"PATH": "/usr/bin:/bin", "HOME": self.d, "LC_ALL": "C.UTF-8"}
        r = subprocess.run(["/usr/bin/python3.12", "-X", "utf8", os.path.join(self.d, "wf_driver.py"), self.d, scen, out, "8"], cwd=self.d, env=env, preexec_fn=drop,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode != 0 or not os.path.exists(out):
            raise ToolError("driver failed (%d): %s\n%s" % (r.returncode, r.stdout.decode()[-2000:], tail(os.path.join(self.d, "driver.err"))))
        res = [json.loads(l) for l in open(out)]
        self.c.evaluations += sum(len(x.get("ops", [])) + 1 for x in items)
        self.c.parts.setdefault("driver", []).append({"what": what, "scenarios": len(items), "s": round(time.time() - t, 1)})
        log("driver %s: %d scenarios (%.1fs)" % (what, len(items), time.time() - t))
        return res

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
        self.clear_abs()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
