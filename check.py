#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run the monitors for one property against /repo's working tree
   check.py --replay <file>               run one recorded violation again
   check.py --setup                       build everything once

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken. Exit 2: no answer (build or machinery error)."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
NSH = 8
TARGET = "x86_64-unknown-linux-gnu"

RULES = {
 "C01": "documents derived from the documented grammar (random, structured, mutated, sized, exhaustive over small alphabets, test corpus); non-trivial: the reference grammar derives the text and the parser's outcome was compared with the derivation",
 "C02": "as C01; the reported definitions and members are compared event by event with the derivation; non-trivial: derivable and reported",
 "C03": "as C01 with deep types in every type position; non-trivial: derivable and reported",
 "C04": "as C01 plus all numeric texts of up to 4 (thorough 5) characters and string texts over small alphabets in value position; non-trivial: derivable and reported, or outside the grammar and refused",
 "C05": "as C01 with attribute lists in every position; non-trivial: derivable and reported",
 "C06": "as C01 with argument lists in every position; non-trivial: derivable and reported, or outside the grammar and refused",
 "C07": "valid, mutated, edited and character-level texts; non-trivial: accepted by the parser, tokens written back and compared",
 "C08": "texts near the grammar (all one-token edits of small documents, mutations, character edits, exhaustive small alphabets); non-trivial: decided inside/outside by the permissive reference grammar and compared with the outcome",
 "C09": "Unicode noise, near-valid texts, truncations, hostile sizes on every public parser; coverage-guided mutation; AddressSanitizer and Miri runs; non-trivial: distinct (parser, text)",
 "C10": "texts with their whitespace and comments exchanged (pairs), exhaustive small whitespace/comment strings; non-trivial: distinct texts whose outcomes were compared",
 "C11": "every terminal and name against every kind of continuation, case and prefix; non-trivial: distinct (parser, text)",
 "C12": "instances of every public element followed by texts that can and cannot continue it; non-trivial: distinct (element, text)",
 "C13": "documents and members joined, split, reordered, duplicated and renamed; non-trivial: distinct combinations whose parts were accepted",
 "C14": "texts observed as first parse of a fresh process, then after histories, bursts, at other addresses, in 8 threads with injected delays and under ThreadSanitizer; evaluations are observations compared with the fresh outcome; distinct_nontrivial counts distinct texts",
 "C15": "growth families and randomly pumped texts measured at doubling sizes (executed edges, allocated bytes, stack); non-trivial: distinct family or pumped text with a complete measurement",
 "C16": "accepted and refused texts of all kinds; every reported slice located in the caller's buffer; non-trivial: accepted or refused with a position that was checked",
 "C17": "families of similar values of every node type compared pairwise (==, cmp, hash, Debug, clone), conversions into every sum type; non-trivial: distinct texts behind the values",
}
CRASH_IS_VIOLATION = {"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"}
FLAVOUR = {"C09": ["cov", "asan", "miri", "guide"], "C14": ["cov", "tsan", "plain", "guide"], "C15": ["cov", "guide"], "C17": ["laws"]}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------------------------------------- building
def files(root, skip):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in files(REPO, {".git", "target"}) + files(os.path.join(VERIF, "harness"), {"target"}) + [os.path.join(VERIF, "tools", "rustc-cov.sh")]:
        if os.path.islink(f) or not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO_") and k not in ("CARGO_HOME",)) and k not in ("WMON_COV", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTDOCFLAGS", "MIRIFLAGS", "RUSTUP_TOOLCHAIN")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


class Build:
    def __init__(self):
        self.h = tree_hash()
        self.root = os.path.join(VERIF, ".build", self.h)
        self.src = os.path.join(self.root, "harness")
        os.makedirs(self.root, exist_ok=True)
        # older builds are of no use to anyone
        try:
            olds = sorted((os.path.join(VERIF, ".build", d) for d in os.listdir(os.path.join(VERIF, ".build")) if d != self.h), key=os.path.getmtime)
            for d in olds[:-1]:
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
        if not os.path.isdir(self.src):
            tmp = self.src + ".tmp%d" % os.getpid()
            shutil.copytree(os.path.join(VERIF, "harness"), tmp, ignore=shutil.ignore_patterns("target"))
            try:
                os.rename(tmp, self.src)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)

    def cargo(self, flavour):
        td = os.path.join(self.root, flavour)
        base = ["build", "--release", "--offline", "--target-dir", td, "--bin", "wmon"]
        if flavour == "plain":
            return ["cargo"] + base, {}, os.path.join(td, "release", "wmon")
        if flavour == "laws":
            return ["cargo"] + base + ["--features", "laws"], {}, os.path.join(td, "release", "wmon")
        if flavour == "cov":
            return ["cargo"] + base, {"RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc-cov.sh"), "RUSTFLAGS": "--cfg wmon_cov"}, os.path.join(td, "release", "wmon")
        if flavour == "guide":
            return ["cargo"] + base, {"RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc-cov.sh"), "RUSTFLAGS": "--cfg wmon_guide", "WMON_COV": "guide"}, os.path.join(td, "release", "wmon")
        if flavour == "guidelaws":
            return ["cargo"] + base + ["--features", "laws"], {"RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc-cov.sh"), "RUSTFLAGS": "--cfg wmon_guide", "WMON_COV": "guide"}, os.path.join(td, "release", "wmon")
        if flavour == "asan":
            return ["cargo", "+nightly"] + base + ["--target", TARGET, "--config", "profile.release.package.weedle.opt-level=0", "--config", "profile.release.package.nom.opt-level=0", "--config", "profile.release.package.memchr.opt-level=1"], {"RUSTFLAGS": "-Zsanitizer=address"}, os.path.join(td, TARGET, "release", "wmon")
        if flavour == "tsan":
            return ["cargo", "+nightly"] + base + ["--target", TARGET, "-Zbuild-std"], {"RUSTFLAGS": "-Zsanitizer=thread"}, os.path.join(td, TARGET, "release", "wmon")
        raise KeyError(flavour)

    def build(self, flavour):
        if flavour == "miri":
            return self.miri_cmd([0, 1, 0, 1], build=True)
        cmd, env, path = self.cargo(flavour)
        t0 = time.time()
        p = subprocess.run(cmd, cwd=self.src, env=clean_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0 or not os.path.exists(path):
            errs = [l for l in p.stdout.splitlines() if l.startswith("error") or "-->" in l]
            raise NoAnswer("building the monitors (%s) against /repo failed:\n%s\n%s" % (flavour, "\n".join(errs[:20]), p.stdout[-2000:]))
        log("built %s in %.1f s" % (flavour, time.time() - t0))
        return path

    def miri_cmd(self, args, build=False, timeout=600):
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "tiny", "--target-dir", os.path.join(self.root, "miri"), "--"] + [str(a) for a in args]
        env = clean_env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"})
        t0 = time.time()
        p = run_group(cmd, cwd=self.src, env=env, timeout=timeout)
        if build:
            log("built miri in %.1f s" % (time.time() - t0))
        return p


class Res:
    pass


def run_group(cmd, timeout, cwd=None, env=None):
    """run in an own process group, end the whole group on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env if env is not None else clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    r = Res()
    r.timeout = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    r.rc, r.out, r.err = p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    return r


# ---------------------------------------------------------------------------------------------- running
def read_crumb(path):
    try:
        b = open(path, "rb").read()
        if len(b) < 8:
            return None
        n = struct.unpack("<Q", b[:8])[0]
        b = b[8:n]
        out = []
        while b:
            l = struct.unpack("<Q", b[:8])[0]
            out.append(b[8:8 + l].decode("utf8", "replace"))
            b = b[8 + l:]
        return out
    except (OSError, struct.error):
        return None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations, self.notes, self.known = [], [], []
        self.shards, self.extra, self.more = [], {}, ()
        self.tmp = tempfile.mkdtemp(prefix="wmon.")
        self.no_answer = []

    def violation(self, workload, kind, parts, detail, **kw):
        self.violations.append(dict(workload=workload, kind=kind, parts=parts, detail=detail, **kw))

    def shard(self, binary, i, n, secs, prop=None, env=None, limit=None, tag="s", cwd=None, more=()):
        prop = prop or self.prop
        out = os.path.join(self.tmp, "%s%d.json" % (tag, i))
        crumb = os.path.join(self.tmp, "%s%d.crumb" % (tag, i))
        cmd = [binary, "run", "--prop", prop, "--tier", self.tier, "--seed", str(self.seed), "--shard", str(i), "--nshards", str(n), "--secs", str(secs), "--out", out, "--crumb", crumb,
               "--src", REPO + "/src", "--tests", REPO + "/tests"] + list(self.more) + list(more)
        r = run_group(cmd, timeout=limit or secs + 150, env=clean_env(env), cwd=cwd)
        r.cmd, r.i, r.n, r.prop, r.more = cmd, i, n, prop, more
        r.crumb = read_crumb(crumb)
        r.json = None
        if r.rc == 0 and not r.timeout:
            try:
                r.json = json.load(open(out))
            except (OSError, ValueError):
                pass
        return r

    def replay(self, binary, kind, parts, timeout=120, stack=None, budget=None):
        fs = []
        for k, p in enumerate(parts):
            f = os.path.join(self.tmp, "part%d.%d" % (k, time.monotonic_ns()))
            open(f, "w", newline="").write(p)
            fs.append(f)
        cmd = [binary, "replay", "--prop", self.prop, "--tier", self.tier, "--kind", kind] + (["--stack", str(stack)] if stack else []) + (["--budget", str(budget)] if budget else []) + ["--parts"] + fs
        return run_group(cmd, timeout=timeout)

    def absorb(self, r, binary, what="shard"):
        """a shard's report, or the manner of its death"""
        if r.json is not None:
            self.shards.append(r.json)
            for v in r.json["violations"]:
                self.violation(v["workload"], v["kind"], v["parts"], v["detail"], shard=r.i, nshards=r.n)
            return
        how = "ran out of time" if r.timeout else "ended with status %s" % r.rc
        tail = (r.out[-300:] + r.err[-1500:]).strip()
        if r.crumb is None:
            self.no_answer.append("%s %d %s before its first text: %s" % (what, r.i, how, tail))
            return
        kind, parts = r.crumb[0], r.crumb[1:]
        if r.rc == 77 and "STEP-BUDGET-EXCEEDED" in r.out:
            if self.prop in CRASH_IS_VIOLATION:
                self.violation("budget", kind, parts, "the parser did not finish within its step budget (%s)" % r.out.strip()[-80:])
            else:
                self.no_answer.append("step budget exceeded: " + tail)
            return
        if not r.timeout and r.rc is not None and r.rc > 0 and r.rc not in (101, 134):
            self.no_answer.append("%s %d %s: %s" % (what, r.i, how, tail))
            return
        # confirm on its own; a hang is confirmed in executed edges of the parser, not in seconds
        if kind in ("purity", "purity-fresh"):
            r2 = self.shard(binary, r.i, r.n, 200, prop=r.prop, limit=400, tag="again", more=r.more)
            again = r2.timeout if r.timeout else (not r2.timeout and r2.rc not in (0, 1, 2))
        else:
            if kind in ("growth", "pump") and len(parts) == 3:
                # the text itself is the last part
                kind, parts = "doc", [parts[2]]
            if r.timeout:
                r2 = self.replay(self.build.build("cov"), kind, parts, timeout=250, budget=3_000_000_000)
                again = r2.rc == 77
            else:
                r2 = self.replay(binary, kind, parts, timeout=120)
                again = not r2.timeout and r2.rc not in (0, 1, 2)
        if again and self.prop in CRASH_IS_VIOLATION:
            self.violation("survival", kind, parts, "the process running the parser %s on this input, twice: %s" % (how, tail[-400:]))
        else:
            note = "%s %d %s on %s (again on its own: %s): %s" % (what, r.i, how, [p[:200] for p in r.crumb], again, tail[-600:])
            if what == "guided" and r.timeout and not again:
                # the additional workload was cut short by the machine, not by the parser
                self.extra["guided-shards-lost"] = self.extra.get("guided-shards-lost", 0) + 1
                print("NOTE: " + note)
            else:
                self.no_answer.append(note)

    def kept(self, guide):
        """texts kept by the coverage-guided workload, for properties that need other instrumentation to judge them"""
        def one(i):
            f = os.path.join(self.tmp, "kept%d" % i)
            r = run_group([guide, "guide-texts", "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--shard", str(i), "--nshards", str(NSH), "--secs", "120", "--file", f, "--src", REPO + "/src", "--tests", REPO + "/tests"], 150, env=clean_env())
            try:
                return open(f, newline="").read() if r.rc == 0 else ""
            except OSError:
                return ""
        with ThreadPoolExecutor(NSH) as ex:
            ts = [t for t in ex.map(one, range(NSH)) if t]
        f = os.path.join(self.tmp, "kept")
        open(f, "w", newline="").write("\x01".join(ts))
        self.extra["guided-texts-kept"] = sum(t.count("\x01") + 1 for t in ts)
        self.more = ("--guide", f)

    def main_shards(self, binary, n=NSH, secs=None, par=NSH, envs=None):
        secs = secs or (240 if self.tier == "quick" else 600)
        def one(i):
            env, cwd = (envs(i) if envs else ({}, None))
            return self.shard(binary, i, n, secs, env=env, cwd=cwd)
        with ThreadPoolExecutor(par) as ex:
            for r in ex.map(one, range(n)):
                self.absorb(r, binary)

    # ------------------------------------------------------------------------------------------ per property
    def default(self, b):
        # the instrumented build is made while the other one runs
        with ThreadPoolExecutor(1) as ex:
            gb = ex.submit(b["build"].build, "guide")
            self.main_shards(b["plain"])
            self.guided(gb.result())

    def guided(self, cov):
        n = len(self.shards)
        with ThreadPoolExecutor(NSH) as ex:
            for r in ex.map(lambda i: self.shard(cov, i, NSH, 75 if self.tier == "quick" else 450, self.prop + "guided", tag="g"), range(NSH)):
                self.absorb(r, cov, "guided")
        self.extra["guided-evaluations"] = sum(s["evaluations"] for s in self.shards[n:])

    def C17(self, b):
        with ThreadPoolExecutor(1) as ex:
            gb = ex.submit(b["build"].build, "guidelaws")
            self.main_shards(b["laws"])
            self.guided(gb.result())

    def C09(self, b):
        self.kept(b["guide"])
        quick = self.tier == "quick"
        asan = b["asan"]
        with ThreadPoolExecutor(12) as ex:
            miri = [ex.submit(b["build"].miri_cmd, [i, 8, 60 if quick else 400, self.seed], False, 240 if quick else 700) for i in range(8)]
            aenv = {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=67:abort_on_error=0"}
            asans = [ex.submit(self.shard, asan, i, 8, 120 if quick else 500, "C09light" if quick else "C09", aenv, None, "asan") for i in range(4 if quick else 8)]
            control = ex.submit(run_group, [asan, "control", "--what", "overread"], 60, None, clean_env(aenv))
            self.main_shards(b["cov"], par=8 if quick else 4)
            # nesting on a small stack, and the recorded stack exhaustion
            deep = {}
            for name in ["sequence", "union", "record", "promise", "frozen-array", "open-sequence", "open-union", "argument-sequence"]:
                for n in (100, 200):
                    r = run_group([b["cov"], "deep", "--name", name, "--n", str(n), "--stack", str(2 << 20)], 120)
                    deep["%s %d" % (name, n)] = r.out.strip()[-40:]
                    if r.rc != 0:
                        self.violation("nesting", "deep", [name, str(n), str(2 << 20)], "nesting %s %d levels deep on a 2 MiB stack: status %s %s" % (name, n, r.rc, r.err.strip()[-200:]))
            self.extra["nesting-on-2MiB-stack"] = deep
            for name in ["sequence", "union", "record", "promise"]:
                r = run_group([b["cov"], "deep", "--name", name, "--n", "100000", "--stack", str(8 << 20)], 120)
                if r.rc != 0:
                    self.finding("deep-nesting-%s" % name, "nesting", "deep", [name, "100000", str(8 << 20)], "nesting %s 100000 levels deep on an 8 MiB stack ends the process (status %s, stack exhausted)" % (name, r.rc))
            if "AddressSanitizer" not in control.result().err:
                self.no_answer.append("AddressSanitizer did not report the deliberate over-read of the control run")
            self.extra["asan-control"] = "deliberate over-read reported"
            n_asan = 0
            for f in asans:
                r = f.result()
                if r.json is not None:
                    n_asan += r.json["evaluations"]
                    self.absorb(r, asan, "asan")
                elif "ERROR: AddressSanitizer" in r.err:
                    m = re.search(r"ERROR: AddressSanitizer: [^\n]*", r.err).group(0)
                    self.violation("asan", (r.crumb or ["?"])[0], (r.crumb or ["?"])[1:], m, report=r.err[:6000])
                else:
                    self.absorb(r, asan, "asan")
            self.extra["asan-evaluations"] = n_asan
            n_miri = 0
            for f in miri:
                r = f.result()
                m = re.search(r"TINY (\d+) (\d+)", r.out)
                if m:
                    n_miri += int(m.group(1)) + int(m.group(2))
                elif "Undefined Behavior" in r.err:
                    m = re.search(r"error: Undefined Behavior[^\n]*", r.err)
                    at = r.err[r.err.index("Undefined Behavior"):]
                    self.violation("miri", "miri", [], m.group(0) if m else "undefined behaviour", report=at[:5000])
                elif "panicked at" in r.err:
                    self.violation("miri", "miri", [], "panic under the interpreter: " + r.err[r.err.index("panicked at"):][:300], report=r.err[-3000:])
                else:
                    self.notes.append("a Miri shard gave no result (%s): %s" % ("time" if r.timeout else r.rc, r.err[-300:]))
            self.extra["miri-parses"] = n_miri

    def C14(self, b):
        self.kept(b["guide"])
        dirs = ["/", "/tmp", VERIF, REPO]
        # names that look like environment variables in the sources (input generation only)
        mined = {}
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                if f.endswith(".rs"):
                    t = open(os.path.join(d, f), errors="replace").read()
                    for n in re.findall(r'"([A-Z][A-Z0-9_]{2,60})"', t)[:50]:
                        if n not in ("PATH", "LD_PRELOAD", "LD_LIBRARY_PATH", "HOME"):
                            mined[n] = "1"
        self.extra["environment-names-from-sources"] = sorted(mined)[:20]
        def envs(i):
            e = [{}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"TZ": "Asia/Kathmandu"}, {"RUST_BACKTRACE": "1"}, {"HOME": "/nonexistent"}, {"WEEDLE": "1", "DEBUG": "1"}, {"RUST_LOG": "trace", "NO_COLOR": "1"}, {"MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "165"}][i % 8]
            if i % 8 == 5:
                e = dict(e, **mined)
            return e, dirs[i % 4]
        quick = self.tier == "quick"
        tsan = b["tsan"]
        tenv = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}
        ages = ThreadPoolExecutor(8)
        aged = [ages.submit(self.shard, b["plain"], i, 8, 150 if quick else 620, "C14age", None, None, "age") for i in range(8)]
        with ThreadPoolExecutor(4) as ex:
            control = ex.submit(run_group, [tsan, "control", "--what", "race"], 60, None, clean_env(tenv))
            ts = [ex.submit(self.shard, tsan, i, 8, 120 if quick else 500, "C14light" if quick else "C14", tenv, None, "tsan") for i in range(2 if quick else 4)]
            self.main_shards(b["cov"], par=8 if quick else 6, envs=envs)
            if "ThreadSanitizer" not in control.result().err:
                self.no_answer.append("ThreadSanitizer did not report the deliberate race of the control run")
            self.extra["tsan-control"] = "deliberate race reported"
            n = 0
            for f in ts:
                r = f.result()
                if "WARNING: ThreadSanitizer" in r.err or r.rc == 66:
                    at = r.err[r.err.find("WARNING: ThreadSanitizer"):]
                    m = re.search(r"SUMMARY: [^\n]*", at)
                    self.violation("tsan", "tsan", [str(self.seed), str(r.i)], m.group(0) if m else "ThreadSanitizer report", report=at[:6000])
                elif r.json is not None:
                    n += r.json["evaluations"]
                    for v in r.json["violations"]:
                        self.violation(v["workload"], v["kind"], v["parts"], v["detail"], shard=r.i, nshards=8)
                else:
                    self.absorb(r, tsan, "tsan")
            self.extra["tsan-observations"] = n
        ds = [(s["digest"] or "").split() for s in self.shards]
        # long runs of one short text, in the build without instrumentation; the instrumented one chooses the texts
        texts = os.path.join(self.tmp, "texts")
        r = run_group([b["cov"], "hist-texts", "--file", texts], 120)
        if r.rc != 0:
            self.no_answer.append("choosing the texts of the long histories failed: %s" % (r.err[-300:]))
        else:
            self.extra["long-history-texts"] = r.out.strip()
            with ThreadPoolExecutor(8) as ex:
                for r in ex.map(lambda i: self.shard(b["plain"], i, 8, 75 if quick else 500, "C14hist", None, None, "hist", None, ("--texts", texts)), range(8)):
                    self.absorb(r, b["plain"], "history")
        # processes that parse now and then
        for f in aged:
            self.absorb(f.result(), b["plain"], "age")
        ages.shutdown()
        # the fresh outcomes of every shard (other environment, directory, time) must agree
        ds = [d for d in ds if d]
        if len(ds) > 1:
            self.extra["environments-compared"] = len(ds)
            for k, d in enumerate(ds[1:], 1):
                if len(d) != len(ds[0]):
                    self.notes.append("shards observed different numbers of texts")
                    self.violation("environment", "purity", [], "a text ended one fresh process but not another")
                    break
                bad = [i for i in range(len(d)) if d[i] != ds[0][i]]
                if bad:
                    self.violation("environment", "purity", [str(self.seed), str(k), "8", self.tier, "", ""], "fresh processes in different environments report different outcomes for %d texts (first: number %d)" % (len(bad), bad[0]))
                    break

    def C15(self, b):
        self.kept(b["guide"])
        self.main_shards(b["cov"])
        r = run_group([b["cov"], "known"], 300)
        for name, state, d in re.findall(r"^KNOWN (\S+) (\S+) (.*)$", r.out, re.M):
            if state == "present":
                self.finding(name, "families", "growth", [name], d)
        # suspects of the time screen: count instructions
        sus = [n.split() for s in self.shards for n in s["notes"] if n.startswith("SUSPECT")]
        def ir(name, n):
            f = os.path.join(self.tmp, "%s.%s" % (name, n))
            run_group([b["cov"], "family", "--name", name, "--n", n, "--file", f], 60)
            size = os.path.getsize(f)
            r = run_group(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", b["cov"], "once", "--file", f, "--stack", str(64 << 20)], 400)
            m = re.search(r"Collected : (\d+)", r.err)
            return (size, int(m.group(1)) if m else None)
        sus.sort()
        done = []
        for s in sus[:6]:
            with ThreadPoolExecutor(3) as ex:
                v = list(ex.map(lambda n: ir(s[2], n), s[3:6]))
            done.append({s[2]: v})
            if all(x[1] for x in v) and v[0][0] < v[1][0] < v[2][0]:
                d1 = (v[1][1] - v[0][1]) / (v[1][0] - v[0][0])
                d2 = (v[2][1] - v[1][1]) / (v[2][0] - v[1][0])
                if d2 > 1.3 * d1:
                    self.violation("instructions", "growth", [s[2]], "%s: instructions per added byte rise from %.0f to %.0f at twice the size (%s)" % (s[2], d1, d2, v))
        self.extra["instruction-counts"] = done

    def finding(self, name, workload, kind, parts, detail):
        if name in known_findings(self.prop):
            self.known.append((name, detail))
        else:
            self.violation(workload, kind, parts, detail)


def known_findings(prop):
    out = set()
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+)", l)
            if m and m.group(1) == prop:
                out.add(m.group(2))
    except OSError:
        pass
    return out


def evidence(run):
    ev, distinct, counters, samples, events = 0, set(), {}, {}, 0
    for s in run.shards:
        ev += s["evaluations"]
        events += s["events"]
        distinct.update(s["distinct"])
        for k, v in s["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if any(x in k for x in ("max", "longest", "process-age", "edges", "grammar-", "largest", "deepest", "kinds")) else counters.get(k, 0) + v
        for k, v in s["samples"].items():
            samples.setdefault(k, []).extend(v)
    flat = []
    for k in sorted(samples):
        for x in samples[k][:2]:
            flat.append({"workload": k, "case": x})
    cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=RULES[run.prop], samples=flat[:40], events_observed=events, shards=len(run.shards), counters=counters)
    cov.update(run.extra)
    d = dict(property=run.prop, tier=run.tier, seed=run.seed, level="exploration", coverage=cov, wall_s=round(time.time() - run.t0, 2), violations=len(run.violations),
             assumptions=["the reference grammar in harness/src/grammar.txt is the documented grammar of the crate", "behaviour is judged on the executions of this run only"])
    if run.notes or run.no_answer:
        d["coverage"]["notes"] = run.notes + run.no_answer
    d["coverage"]["known_findings_seen"] = [k[0] for k in run.known]
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d" % (run.prop, os.getpid()))
    json.dump(d, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, run.prop + ".json"))
    return ev, len(distinct), counters


def check(prop, tier, seed):
    run = Run(prop, tier, seed)
    try:
        b = Build()
        fl = FLAVOUR.get(prop, ["plain"])
        with ThreadPoolExecutor(4) as ex:
            fs = {f: ex.submit(b.build, f) for f in fl}
            bins = {f: fs[f].result() for f in fl}
        bins["build"] = run.build = b
        getattr(run, prop, run.default)(bins)
        ev, nt, counters = evidence(run)
        if counters.get("SELFTEST-FAILED"):
            run.no_answer.append("self test of the machinery failed: %s" % [n for s in run.shards for n in s["notes"]][:3])
        for name, d in run.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, d))
        if run.violations:
            rep = os.path.join(EVID, "replays")
            os.makedirs(rep, exist_ok=True)
            for k, v in enumerate(run.violations[:10]):
                f = os.path.join(rep, "%s-%s-%d.json" % (prop, tier, k))
                v = dict(v, property=prop, tier=tier, seed=seed, how="python3 /verif/check.py --replay %s" % f)
                json.dump(v, open(f, "w"), indent=1, ensure_ascii=False)
                print("VIOLATION property=%s replay=%s" % (prop, f))
                log("  [%s/%s] %s" % (v["workload"], v["kind"], v["detail"][:600]))
            return 1
        if run.no_answer:
            for n in run.no_answer:
                log("NO ANSWER:", n)
            return 2
        if not run.shards or ev == 0 or nt == 0:
            log("NO ANSWER: nothing was observed")
            return 2
        print("%s held on %d evaluations (%d distinct non-trivial) in %.1f s" % (prop, ev, nt, time.time() - run.t0))
        return 0
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        log("NO ANSWER:", e)
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def do_replay(path):
    v = json.load(open(path))
    prop = v["property"]
    run = Run(prop, v["tier"], v["seed"])
    try:
        b = Build()
        print(v["detail"])
        if v.get("report"):
            print(v["report"])
        if v["kind"] == "deep":
            bn = b.build("cov")
            r = run_group([bn, "deep", "--name", v["parts"][0], "--n", v["parts"][1], "--stack", v["parts"][2]], 120)
        elif v["kind"] in ("purity", "purity-fresh", "tsan", "miri"):
            print("this observation belongs to a whole run: python3 check.py %s %s with VERIF_SEED=%s (shard %s)" % (prop, v["tier"], v["seed"], v.get("shard")))
            if v["kind"] != "purity":
                return 0
            bn = b.build("cov")
            r = run.shard(bn, v.get("shard", 0), v.get("nshards", 8), 300)
            print((r.json or {}).get("violations"))
            return 1 if r.json is None or r.json["violations"] else 0
        else:
            bn = b.build(FLAVOUR.get(prop, ["plain"])[0])
            kind, parts = v["kind"], v["parts"]
            if v["workload"] in ("survival", "budget") and kind in ("growth", "pump") and len(parts) == 3:
                kind, parts = "doc", [parts[2]]
            r = run.replay(bn, kind, parts)
        print(r.out, r.err[-3000:])
        print("status", "timeout" if r.timeout else r.rc)
        return 0 if r.rc == 0 else 1
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return do_replay(a[1])
    if a[:1] == ["--setup"]:
        b = Build()
        for f in ("plain", "laws", "cov", "guide", "guidelaws", "asan", "tsan", "miri"):
            b.build(f)
        return 0
    if not a or a[0] not in RULES:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
