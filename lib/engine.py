"""Runs TLC on the specification, builds the conformance harness from /repo's working tree, replays the
behaviours of the specification in it and lets TLC judge what was recorded from it."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.environ["RUST_BACKTRACE"] = "0"     # reading debug information for every panic takes longer than anything else
FLAVOURS = ["spec", "subiot", "wizzilab"]


class Broken(Exception):
    """the check itself could not do its work"""


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def source_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "dash7"), os.path.join(REPO, "dash7-cli")):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def cargo_env(target):
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:/root/.cargo/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def cargo(cmd, target, cwd):
    """cargo goes by modification times; make it look at what has changed since its last run here"""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "sources.sha256")
    now = source_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        for profile in ("debug", "deep", "release"):
            fp = os.path.join(target, profile, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("dash7"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(cmd, cwd=cwd, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=800)
    if r.returncode != 0:
        raise Broken("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)


def build_harness(flavour, deep=False):
    target = os.path.join(BUILD, "target-" + flavour)
    cmd = ["cargo", "build", "--offline", "--locked", "--features", flavour]
    if deep:
        cmd += ["--profile", "deep"]
    cargo(cmd, target, os.path.join(VERIF, "harness"))
    return os.path.join(target, "deep" if deep else "debug", "conform")


def build_cli(flavour="spec"):
    target = os.path.join(BUILD, "target-cli-" + flavour)
    cargo(["cargo", "build", "--offline", "--locked", "-p", "dash7-cli", "--no-default-features", "-F",
           flavour], target, REPO)
    for n in ("dash7", "dash7-cli"):
        p = os.path.join(target, "debug", n)
        if os.path.exists(p):
            return p
    raise Broken("no binary of the command line tool")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise Broken("constant %r" % (v,))


# ---- numbers that deserve to be tried ---------------------------------------------------------------------
# What is generated goes by the format alone; a number that matters to the code only would be met by chance.
# So the numbers the code is written with are looked through, and those it had fewer times when the
# specification was written against it are generated more often.  They change what is tried, never how it is judged.
LITERALS = os.path.join(VERIF, "lib", "literals.json")


def literals():
    """how often each number is written in the library and the command line tool, tests and comments aside"""
    out = {}
    num = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)"
    suffix = r"(?:_?(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize))?"

    def value(x):
        x = re.sub(r"_?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$", "", x).replace("_", "")
        base = {"0x": 16, "0b": 2, "0o": 8}.get(x[:2].lower(), 10)
        return int(x[2:] if base != 10 else x, base)

    def count(v):
        if 0 <= v < 1 << 30:
            out[v] = out.get(v, 0) + 1

    for base in ("dash7/src", "dash7-cli/src"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "test"))
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                try:
                    s = open(os.path.join(d, f), errors="replace").read()
                except OSError:
                    continue
                s = s.split("#[cfg(test)]")[0]
                s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
                s = re.sub(r"//[^\n]*", " ", s)
                for m in re.finditer(r"b?'(\\x[0-9a-fA-F]{2}|[ -~])'", s):
                    count(int(m.group(1)[2:], 16) if m.group(1).startswith("\\x") else ord(m.group(1)))
                word = r"(?<![\w.])(%s%s)(?!\w)" % (num, suffix)
                for m in re.finditer(word, s):
                    count(value(m.group(1)))
                for m in re.finditer(word + r"\s*(<<|\*|\+|-)\s*" + word, s):
                    a, b = value(m.group(1)), value(m.group(3))
                    if m.group(2) != "<<" or b < 30:
                        count({"<<": lambda: a << b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[m.group(2)]())
    return out


def hints():
    given = os.environ.get("VERIF_HINTS")
    if given is not None:
        return {int(x) for x in given.split(",") if x}
    with open(LITERALS) as f:
        known = {int(k): v for k, v in json.load(f).items()}
    now = literals()
    more = sorted((v for v in now if now[v] > known.get(v, 0)), key=lambda v: (v in known, v < 4, v))[:6]
    out = list(more)
    for v in more:
        if len(more) < 5:
            out += [v + 1, v - 1]
    return {v for v in out if 0 <= v < 1 << 30}


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.cases = []          # JSON texts
        self.violated = None     # name of the violated invariant or property
        self.output = ""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(BUILD, "run-%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.states = self.distinct = 0
        self.models = []
        self.traces = 0
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known_hits = {}
        self.not_ours = set()    # findings that do not break this property
        self.notes = {}
        self.n = 0
        self.known = self.load_known()
        self.hints = hints()
        os.environ["CONFORM_HINTS"] = ",".join(map(str, sorted(self.hints)))
        self.bins = {}
        # few things at a time: TLC processes and builds share eight cores
        self.pool = cf.ThreadPoolExecutor(max_workers=16)
        self.builders = cf.ThreadPoolExecutor(max_workers=8)   # of their own: the jobs of the pool wait for them
        self.slots = threading.Semaphore(4)

    def load_known(self):
        out = {}
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.prop:
                out[m.group(2)] = m.group(3)
        return out

    def lengths(self, planned):
        """lengths of commands that deserve to be tried"""
        return {h for h in self.hints if planned and 3 < h <= 700}

    def fresh(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%03d-%s" % (self.n, name))

    # ---- specification -------------------------------------------------------------------------------
    def tlc(self, module, consts, invariants, init="Init", next="Next", spec=None, workers=3, heap="3g",
            env=None, timeout=2400, may_fail=False, properties=(), postcondition=None, constraint=None,
            init_only=False):
        consts = dict(consts, Hints=self.hints)
        d = self.fresh(module)
        os.makedirs(d)
        with open(os.path.join(d, "m.cfg"), "w") as f:
            if spec:
                f.write("SPECIFICATION %s\n" % spec)
            else:
                f.write("INIT %s\nNEXT %s\n" % (init, next))
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write(" %s = %s\n" % (k, tla(v)))
            if invariants:
                f.write("INVARIANTS\n " + "\n ".join(invariants) + "\n")
            for p in properties:
                f.write("PROPERTY %s\n" % p)
            if postcondition:
                f.write("POSTCONDITION %s\n" % postcondition)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            f.write("CHECK_DEADLOCK FALSE\n")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out = os.path.join(d, "out.txt")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta"), "-config", os.path.join(d, "m.cfg"),
               os.path.join(SPEC, module + ".tla")]
        with self.slots:
            t0 = time.time()
            with open(out, "w") as f:
                try:
                    r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise Broken("TLC on %s took more than %d s" % (module, timeout))
        took = time.time() - t0
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        res = TlcResult()
        rest = []
        with open(out) as f:
            for line in f:
                if line.startswith('"{'):
                    res.cases.append(json.loads(line))
                else:
                    rest.append(line)
        res.output = "".join(rest)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.output)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        ok = "Model checking completed. No error has been found." in res.output
        if not ok:
            m = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|"
                          r"(POSTCONDITION|Postcondition)[^\n]*|Property (\S+) is violated", res.output)
            if m and may_fail:
                res.violated = m.group(1) or m.group(0)
            else:
                raise Broken("TLC on %s (%s) failed, rc %d:\n%s" % (module, consts, r.returncode,
                                                                  res.output[-2500:]))
        with self.lock:
            self.states += res.states
            self.distinct += res.distinct
            self.models.append({"module": module, "constants": {k: (sorted(v) if isinstance(v, (set, frozenset)) else v)
                                                                for k, v in consts.items()},
                                "invariants": list(invariants) + list(properties),
                                "states": res.states, "distinct": res.distinct, "cases": len(res.cases), "seconds": round(took, 1)})
        os.unlink(out)
        return res

    # ---- implementation ------------------------------------------------------------------------------
    def harness(self, flavour, deep=False):
        key = (flavour, deep)
        with self.lock:
            if key not in self.bins:
                self.bins[key] = self.builders.submit(build_harness, flavour, deep)
            fut = self.bins[key]
        return fut.result()

    def violation(self, what, data):
        with self.lock:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            data = dict(data, property=self.prop, what=what, seed=self.seed, tier=self.tier)
            h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            self.violations.append((what, path))

    def hit(self, finding, what):
        """a deviation seen: listed for this property or a violation"""
        with self.lock:
            if finding in self.not_ours:
                return
            self.known_hits.setdefault(finding, [0, what])[0] += 1

    def replay(self, flavour, cases, name="cases", deep=False, quiet=False):
        """replays cases (JSON texts) in the library; returns the summary"""
        if not cases:
            raise Broken("no cases to replay (%s)" % name)
        exe = self.harness(flavour, deep)
        src = self.fresh(name + ".jsonl")
        with open(src, "w") as f:
            f.write("\n".join(cases) + "\n")
        out, state = src + ".report", src + ".state"
        with self.slots:
            t0 = time.time()
            try:
                r = subprocess.run([exe, "replay", src, out, state], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   stdin=subprocess.DEVNULL, preexec_fn=limits, timeout=2400, cwd=self.work)
                rc, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as e:
                rc, so, se = 98, e.stdout or b"", e.stderr or b""
        if rc == 96:
            raise Broken("harness: " + open(state + ".internal").read())
        if rc == 98:
            raise Broken("replaying took too long (%s)" % name)
        with self.lock:
            self.counts["replay seconds"] = round(self.counts.get("replay seconds", 0) + time.time() - t0, 1)
        done = None
        if os.path.exists(out):
            for line in open(out):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("done"):
                    done = d
                elif "known" in d:
                    self.hit(d["known"], "%s: %s" % (flavour, d["what"]))
                elif d["kind"] == "internal":
                    raise Broken("harness: %s in case %s" % (d["msg"], json.dumps(d["case"])[:2000]))
                else:
                    self.violation("%s: %s" % (flavour, d["msg"]), {"flavour": flavour, "case": d["case"]})
        if rc != 0 or done is None:
            i = int((open(state).read().strip() or "0")) if os.path.exists(state) else 0
            how = {97: "does not terminate"}.get(rc, "crashes (exit %s, %s)" % (
                rc, se.decode(errors="replace")[-200:].strip()))
            if i >= len(cases):
                raise Broken("harness failed, rc %s: %s" % (rc, se[-500:]))
            self.violation("%s: the library %s" % (flavour, how), {"flavour": flavour, "case": json.loads(cases[i])})
            done = done or {"cases": i, "encodes": 0, "decodes": 0, "built": 0, "shown": 0}
        if quiet and (so or se):
            self.violation("%s: coding prints %r" % (flavour, (so or se)[:200].decode(errors="replace")),
                           {"flavour": flavour, "case": json.loads(cases[0]), "note": "output while coding"})
        with self.lock:
            self.traces += done["cases"]
            for k in ("encodes", "decodes", "built", "shown"):
                self.counts[k] = self.counts.get(k, 0) + done[k]
            if len(self.samples) < 4:
                c = min(cases[:50], key=len) if len(self.samples) % 2 else cases[len(cases) // 2]
                self.samples.append({"flavour": flavour, "case": json.loads(c) if len(c) < 3000 else c[:3000]})
        os.unlink(src)
        return done

    def run_harness(self, flavour, args, deep=False, timeout=2400):
        """other modes of the harness; returns (rc, stdout, stderr)"""
        exe = self.harness(flavour, deep)
        with self.slots:
            try:
                r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   stdin=subprocess.DEVNULL, preexec_fn=limits, timeout=timeout, cwd=self.work)
                return r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired:
                return 98, b"", b""

    # ---- work in parallel ----------------------------------------------------------------------------
    def parallel(self, jobs):
        futs = [self.pool.submit(j) for j in jobs]
        errs = []
        out = []
        for f in futs:
            try:
                out.append(f.result())
            except Exception as e:  # all are waited for
                errs.append(e)
        if errs:
            raise errs[0]
        return out

    def suite(self, module, consts, invariants, flavours=FLAVOURS, at_least=1, replay=True, **kw):
        """one model per flavour, its behaviours replayed in the library built for that flavour"""
        def one(fl):
            def go():
                r = self.tlc(module, dict(consts, Flavour=fl), invariants, **kw)
                if len(r.cases) < at_least:
                    raise Broken("%s %s: only %d cases" % (module, consts, len(r.cases)))
                if replay:
                    self.replay(fl, r.cases, name=module)
                return r
            return go
        return [one(fl) for fl in flavours]

    def start_builds(self, flavours):
        for fl in flavours:
            threading.Thread(target=lambda f=fl: self.try_build(f), daemon=True).start()

    def try_build(self, fl):
        try:
            self.harness(fl)
        except Exception:
            pass

    # ---- result --------------------------------------------------------------------------------------
    def finish(self, level, rule, assumptions, extra=None):
        for f, (n, what) in sorted(self.known_hits.items()):
            if f in self.known:
                print("KNOWN-FINDING: property=%s %s: %s (%d cases, for example %s)" % (
                    self.prop, f, self.known[f], n, what[:300]))
            else:
                self.violation(what, {"finding": f})
        cov = {"states": self.states, "transitions": self.states,
               "distinct_states": self.distinct,
               "traces_validated_against_impl": self.traces,
               "rule": rule, "samples": self.samples or [{"models": self.models[:2]}],
               "models": self.models, "operations": self.counts}
        cov["transitions"] = max(self.states - sum(m.get("initial", 0) for m in self.models), 0)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for what, path in self.violations[:20]:
            print(what[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if self.violations:
            return 1
        print("%s holds on everything explored: %d model states, %d behaviours checked against the code, %.1f s" % (
            self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


# ---- traces recorded from the library and judged by the specification ------------------------------------
def judge(c, module, flavour, path, consts, invariants, **kw):
    """TLC goes over the trace; lines it does not allow come back as verdicts"""
    with open(path) as f:
        lines = f.read().splitlines()
    if not lines:
        raise Broken("empty trace for " + module)
    r = c.tlc(module, dict(consts, Flavour=flavour, Strange=False), invariants, env={"TRACE": path}, **kw)
    known = {}
    for v in r.cases:
        v = json.loads(v)
        rec = json.loads(lines[v["line"] - 1])
        if re.match(r"K\d+$", v["why"]):
            c.hit(v["why"], "%s: %s" % (flavour, lines[v["line"] - 1][:200]))
            known[v["why"]] = known.get(v["why"], 0) + 1
        else:
            c.violation("%s: %s: %s" % (flavour, v["why"], lines[v["line"] - 1][:400]),
                        {"flavour": flavour, "module": module, "why": v["why"], "observed": rec})
    with c.lock:
        c.traces += len(lines)
        if len(c.samples) < 6:
            c.samples.append({"flavour": flavour, "observed": lines[len(lines) // 2][:1500]})
    return r, lines


def run_recorder(c, flavour, mode, args, out, quiet=False, deep=False):
    state = out + ".state"
    a = [mode] + args + [out] + ([state] if mode in ("record", "sessions") else [])
    rc, so, se = c.run_harness(flavour, a, deep=deep)
    if rc == 96:
        raise Broken("harness: " + open(a[-1] + ".internal").read())
    if rc == 98:
        raise Broken("recording took too long")
    if rc != 0:
        how = "does not terminate" if rc == 97 else "crashes (exit %s)" % rc
        last = ""
        if os.path.exists(out):
            ls = open(out).read().splitlines()
            # a line cut off by the crash is dropped, the input itself stands before it
            while ls:
                try:
                    json.loads(ls[-1])
                    break
                except ValueError:
                    ls.pop()
            with open(out, "w") as f:
                f.write("\n".join(ls) + "\n")
            last = ls[-1] if ls else ""
        c.violation("%s: the library %s: %s" % (flavour, how, last[:300]),
                    {"flavour": flavour, "observed": json.loads(last) if last else None})
    if quiet and (so or se):
        c.violation("%s: coding prints %r" % (flavour, (so or se)[:200]), {"flavour": flavour})
    return rc


def keep_results(path):
    """drops the lines that announce an attempt"""
    ls = [l for l in open(path).read().splitlines() if '"r":"crash"' not in l]
    with open(path, "w") as f:
        f.write("\n".join(ls) + "\n")
