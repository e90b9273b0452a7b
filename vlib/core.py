"""Shared machinery: builds, scratch space, case runner, verdicts, evidence."""
import atexit
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import urllib.parse

from . import lsp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GOENV = {
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOPATH": "/root/go",
    "GOCACHE": "/root/.cache/go-build", "HOME": "/root", "GOWORK": "off",
}
VERSION = "v0.0.13"


class BuildError(Exception):
    pass


def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOENV)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    if extra:
        e.update(extra)
    return e


def build_server(race=False, version=VERSION):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "phpintel" + ("-race" if race else "") + "-" + version)
    cmd = ["go", "build", "-buildvcs=false", "-ldflags", "-s -w -X main.version=" + version]
    if race:
        cmd.append("-race")
    cmd += ["-o", out, "."]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout + r.stderr)
    return out


DELAY = """package leveldb

import (
	"os"
	"strconv"
	"time"
)

var verifDelayed, _ = strconv.Atoi(os.Getenv("VERIF_READ_DELAY_US"))

func verifDelay() {
	if verifDelayed > 0 {
		time.Sleep(time.Duration(verifDelayed) * time.Microsecond)
	}
}
"""


def build_killable():
    """The server, with storage libraries which can be told to kill it in front of a certain write and to read slowly."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(VERIF, "inject", "kill.go.txt")) as f:
        hook = f.read()

    def moddir(m):
        return subprocess.check_output(["go", "list", "-m", "-f", "{{.Dir}}", m], cwd=REPO, env=goenv(), text=True).strip()

    # copies of the modules: the module cache itself cannot be overlaid
    src = {m: moddir(m) for m in ("github.com/syndtr/goleveldb", "github.com/john-nguyen09/pogreb")}
    tmp = os.path.join(BUILD, "kill-" + digest([hook, DELAY, src]))
    to = {m: os.path.join(tmp, os.path.basename(m)) for m in src}
    if not os.path.exists(tmp):
        new = tempfile.mkdtemp(prefix="new-", dir=BUILD)
        for m in src:
            shutil.copytree(src[m], os.path.join(new, os.path.basename(m)))
        subprocess.check_call(["chmod", "-R", "u+w", new])
        with open(os.path.join(new, "goleveldb", "leveldb", "storage", "zz_verif_kill.go"), "w") as f:
            f.write(hook.replace("package PKG", "package storage") + """
func (fw *fileWrap) Write(p []byte) (int, error) {
	verifKill("l")
	return fw.File.Write(p)
}
""")
        # reads of the database take a while, so that what must not overlap with them does
        with open(os.path.join(new, "goleveldb", "leveldb", "zz_verif_delay.go"), "w") as f:
            f.write(DELAY)
        table = os.path.join(new, "goleveldb", "leveldb", "table.go")
        with open(table) as f:
            text = f.read()
        slow = re.sub(r"(\treturn ch\.Value\(\)\.\(\*table\.Reader\)\.Find\()", r"\tverifDelay()\n\1", text)
        if slow == text:
            raise BuildError("nothing to delay in " + table)
        with open(table, "w") as f:
            f.write(slow)
        with open(os.path.join(new, "pogreb", "fs", "zz_verif_kill.go"), "w") as f:
            f.write(hook.replace("package PKG", "package fs"))
        mm = os.path.join(new, "pogreb", "fs", "os_mmap.go")
        with open(mm) as f:
            t = f.read()
        for x in ("f.File.WriteAt(p, off)", "f.File.Write(p)"):
            if t.count("n, err := " + x) != 1:
                raise BuildError("unexpected os_mmap.go")
            t = t.replace("n, err := " + x, 'verifKill("g")\n\tn, err := ' + x)
        with open(mm, "w") as f:
            f.write(t)
        os.rename(new, tmp)
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = f.read()
    with open(os.path.join(BUILD, "kill.mod"), "w") as f:
        f.write(mod + "".join("\nreplace %s => %s\n" % x for x in sorted(to.items())))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(BUILD, "kill.sum"))
    out = os.path.join(BUILD, "phpintel-kill-" + VERSION)
    r = subprocess.run(["go", "build", "-buildvcs=false", "-modfile", os.path.join(BUILD, "kill.mod"),
                        "-ldflags", "-s -w -X main.version=" + VERSION, "-o", out, "."],
                       cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout + r.stderr)
    return out


def build_probed():
    """The server with one more file: on SIGUSR1 it writes how many goroutines and how much memory it holds."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(BUILD, "zz_verif_probe.go")
    shutil.copy(os.path.join(VERIF, "inject", "probe.go.txt"), src)
    ov = os.path.join(BUILD, "probe.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "zz_verif_probe.go"): src}}, f)
    out = os.path.join(BUILD, "phpintel-probe-" + VERSION)
    r = subprocess.run(["go", "build", "-buildvcs=false", "-overlay", ov, "-ldflags", "-s -w -X main.version=" + VERSION, "-o", out, "."],
                       cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout + r.stderr)
    return out


def build_overlay(name, pkg, race=False):
    """Builds the in-process monitor /verif/harness/cmd/<pkg> inside the module of REPO."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "harness")
    rep = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), src)
                rep[os.path.join(REPO, "internal", "vharness", rel)] = os.path.join(d, f)
    ov = os.path.join(BUILD, "overlay-%s.json" % name)
    tmp = "%s.%d" % (ov, os.getpid())
    with open(tmp, "w") as f:
        json.dump({"Replace": rep}, f)
    os.rename(tmp, ov)
    out = os.path.join(BUILD, name + ("-race" if race else ""))
    cmd = ["go", "build", "-buildvcs=false", "-overlay", ov, "-ldflags", "-w"]
    if race:
        cmd.append("-race")
    cmd += ["-o", out, "./internal/vharness/cmd/" + pkg]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout + r.stderr)
    return out


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).hexdigest()
    return random.Random(int(h, 16))


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# Worker-side sessions
# --------------------------------------------------------------------------
def path_uri(p):
    return "file://" + urllib.parse.quote(p)


class Box:
    """A worker's private directory: fixed workspace roots, HOME templates."""

    def __init__(self, root, binary, race=False):
        self.root = root
        self.binary = binary
        self.race = race
        # the same server without instrumentation
        self.plain = binary.replace("phpintel-race-", "phpintel-")
        self.templates = {}
        self.n = 0
        os.makedirs(root, exist_ok=True)

    def ws(self, name="ws"):
        return os.path.join(self.root, name)

    def fresh_ws(self, name="ws"):
        p = self.ws(name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def new_home(self):
        self.n += 1
        h = os.path.join(self.root, "home%d" % self.n)
        shutil.rmtree(h, ignore_errors=True)
        os.makedirs(h)
        return h

    def template(self, roots):
        """HOME whose stores for these (empty) workspace folders hold the stubs."""
        key = tuple(roots)
        if key not in self.templates:
            h = os.path.join(self.root, "tmpl%d" % len(self.templates))
            shutil.rmtree(h, ignore_errors=True)
            os.makedirs(h)
            moved = []
            for r in sorted({x.rstrip("/") for x in roots}):  # index stubs against empty folders
                if os.path.exists(r):
                    os.rename(r, r + ".aside")
                    moved.append(r)
                os.makedirs(r)
            try:
                for r in roots:
                    s = Session(self, [r], home=h, binary=self.plain)
                    s.start()
                    s.srv.stop()
            finally:
                for r in roots:
                    shutil.rmtree(r.rstrip("/"), ignore_errors=True)
                for r in moved:
                    os.rename(r + ".aside", r)
            self.templates[key] = h
        return self.templates[key]

    def home_from_template(self, roots):
        t = self.template(roots)
        h = self.new_home()
        shutil.rmtree(h)
        shutil.copytree(t, h)
        return h

    def session(self, roots=None, home=None, **kw):
        roots = roots or [self.ws()]
        if home is None:
            home = self.home_from_template(roots)
        return Session(self, roots, home=home, **kw)

    def drop_home(self, home):
        if home.startswith(self.root + os.sep):
            shutil.rmtree(home, ignore_errors=True)


class Session:
    def __init__(self, box, roots, home, binary=None, env=None, handlers=None,
                 capabilities=None):
        self.box = box
        self.roots = roots
        self.home = home
        self.binary = binary or box.binary
        self.env = dict(env or {})
        self.race = "phpintel-race-" in os.path.basename(self.binary)
        if self.race:
            self.env.setdefault("GORACE", "halt_on_error=0 exitcode=0 history_size=3 log_path=" +
                                os.path.join(home, "race"))
        self.handlers = handlers
        self.capabilities = capabilities if capabilities is not None else {}
        self.srv = None

    def spawn(self):
        self.srv = lsp.Server(self.binary, self.home, env=self.env, handlers=self.handlers)
        if self.race:
            self.srv.cpu_scale = 6.0
        return self.srv

    def start(self, wait_index=True):
        s = self.spawn()
        folders = [{"uri": path_uri(r), "name": os.path.basename(r)} for r in self.roots]
        s.call("initialize", {"processId": os.getpid(), "rootUri": folders[0]["uri"] if folders else None,
                              "capabilities": self.capabilities, "workspaceFolders": folders})
        s.notify("initialized", {})
        if wait_index:
            self.wait_indexed(len(folders))
        return s

    def wait_indexed(self, nfolders=1):
        s = self.srv
        indexed = lambda: len([m for m in s.server_requests  # noqa: E731
                               if m["method"] == "client/registerCapability"]) >= nfolders
        t0 = time.time()
        while not s.wait_for(indexed, "registration", wall=5):
            if s._idle(4.0) and not indexed() and s._idle(20.0) and not indexed():
                raise lsp.Hang("a workspace folder is never indexed\n%s" % s.dump())
            if time.time() - t0 > s.WATCHDOG_WALL * s.cpu_scale:
                raise lsp.Inconclusive("a workspace folder is not indexed within the watchdog")
        self.settle()

    def settle(self):
        """All work caused by what was sent so far is done."""
        try:
            self.srv.call("textDocument/codeLens", {"textDocument": {"uri": "file:///nowhere"}})
        except lsp.RPCError:
            pass
        self.srv.quiesce()

    def uri(self, rel, root=0):
        return path_uri(os.path.join(self.roots[root], rel))

    def write(self, rel, content, root=0):
        p = os.path.join(self.roots[root], rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8"))
        return p

    def watch(self, *changes):
        """changes: (uri, type) 1 created 2 changed 3 deleted"""
        self.srv.notify("workspace/didChangeWatchedFiles",
                        {"changes": [{"uri": u, "type": t} for u, t in changes]})

    def open(self, uri, text):
        self.srv.notify("textDocument/didOpen", {"textDocument": {
            "uri": uri, "languageId": "php", "version": 1, "text": text}})

    def change(self, uri, changes, version=2):
        self.srv.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                                   "contentChanges": changes})

    def close(self, uri):
        self.srv.notify("textDocument/didClose", {"textDocument": {"uri": uri}})

    def pos(self, method, uri, line, char, **kw):
        p = {"textDocument": {"uri": uri}, "position": {"line": line, "character": char}}
        p.update(kw)
        return self.srv.call(method, p)

    def symbols(self, query):
        return self.srv.call("workspace/symbol", {"query": query}) or []

    def races(self):
        """Reports of the race detector: [(signature, text)]"""
        out = {}
        for f in sorted(os.listdir(self.home)):
            if f.startswith("race."):
                with open(os.path.join(self.home, f), errors="replace") as fh:
                    for rep in fh.read().split("=================="):
                        if "DATA RACE" not in rep:
                            continue
                        tops = re.findall(r"(?:Read|Write|read|write) at .*?\n\s+(\S+?)\(", rep)
                        out.setdefault("race " + " ".join(sorted(t.split("/")[-1] for t in tops)), rep.strip())
        return sorted(out.items())

    def finish(self, drop=True):
        """Orderly end; returns list of problems seen on the wire."""
        probs = []
        rc = self.srv.stop()
        if self.race:
            probs += ["%s\n%s" % x for x in self.races()]
        if rc != 0:
            probs.append("server exit code %s: %s" % (rc, self.srv.stderr_tail(1500)))
        probs += self.srv.anomalies
        if drop:
            self.box.drop_home(self.home)
        return probs

    def abandon(self, drop=True):
        if self.srv is not None:
            self.srv.abandon()
        if drop:
            self.box.drop_home(self.home)


# --------------------------------------------------------------------------
# Case runner
# --------------------------------------------------------------------------
class Case:
    """What one case reports."""

    def __init__(self):
        self.violations = []    # (signature, message)
        self.evals = 0
        self.distinct = set()
        self.stats = {}
        self.sample = None
        self.inconclusive = None
        self.findings_seen = []

    def violate(self, sig, msg):
        if len(self.violations) < 20:
            self.violations.append((sig, msg))

    def note(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def seen(self, x):
        self.distinct.add(digest(x))

    def result(self):
        return dict(violations=self.violations, evals=self.evals, distinct=sorted(self.distinct),
                    stats=self.stats, sample=self.sample, inconclusive=self.inconclusive,
                    findings=self.findings_seen)


_G = {}


def _winit(root, binary, race, counter):
    with counter.get_lock():
        counter.value += 1
        k = counter.value
    _G["box"] = Box(os.path.join(root, "w%d" % k), binary, race)
    import signal as _s
    _s.signal(_s.SIGINT, _s.SIG_IGN)


def _wrun(args):
    fn, idx, payload = args
    c = Case()
    t0 = time.time()
    try:
        fn(_G["box"], c, payload)
    except lsp.Hang as ex:
        c.violate("hang", "the server stopped answering: %s" % str(ex)[:4000])
    except lsp.ServerDied as ex:
        c.violate("crash", "%s\n%s" % (ex.what, ex.stderr[:4000]))
    except lsp.Inconclusive as ex:
        c.inconclusive = str(ex)
    except Exception:
        c.inconclusive = "harness error: " + traceback.format_exc()
    r = c.result()
    r["idx"] = idx
    r["wall"] = time.time() - t0
    return r


class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=()):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.violations = []
        self.known_hits = []
        self.inconclusive = []
        self.extra = {}
        self.root = tempfile.mkdtemp(prefix="phpv-%s-" % prop)
        os.chmod(self.root, 0o755)
        atexit.register(self._cleanup)
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.findings = json.load(f)

    def _cleanup(self):
        if self.root and self.root.startswith(tempfile.gettempdir() + os.sep + "phpv-"):
            shutil.rmtree(self.root, ignore_errors=True)

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def absorb(self, r):
        self.evals += r["evals"]
        self.distinct.update(r["distinct"])
        for k, v in r["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        if r["sample"] is not None and len(self.samples) < 5:
            self.samples.append(r["sample"])
        if r["inconclusive"]:
            self.inconclusive.append((r.get("idx"), r["inconclusive"]))

    def run_cases(self, name, fn, payloads, binary=None, race=False, workers=None, stop_after=6):
        """fn(box, case, payload) on every payload, in parallel worker processes."""
        payloads = list(payloads)
        only = os.environ.get("VERIF_ONLY")
        jobs = [(fn, "%s#%d" % (name, i), p) for i, p in enumerate(payloads)]
        if only:
            jobs = [j for j in jobs if j[1] == only]
            if not jobs:
                return []
        workers = min(workers or int(os.environ.get("VERIF_WORKERS", "8")), max(1, len(jobs)))
        counter = mp.Value("i", 0)
        rootd = os.path.join(self.root, name)
        os.makedirs(rootd, exist_ok=True)
        bad = 0
        out = []
        with mp.get_context("fork").Pool(workers, _winit, (rootd, binary, race, counter)) as pool:
            for r in pool.imap_unordered(_wrun, jobs, chunksize=1):
                out.append(r)
                if r["violations"]:
                    bad += 1
                    if bad >= stop_after and not only:
                        pool.terminate()
                        break
        out.sort(key=lambda r: int(r["idx"].rsplit("#", 1)[1]))
        for r in out:
            self.absorb(r)
            for sig, msg in r["violations"]:
                self.report(sig, msg, r["idx"], payloads[int(r["idx"].rsplit("#", 1)[1])])
        shutil.rmtree(rootd, ignore_errors=True)
        if os.environ.get("VERIF_TIMES"):
            slow = sorted(out, key=lambda r: -r["wall"])[:3]
            print("[times] %s n=%d total=%.1fs slow=%s" % (
                name, len(out), time.time() - self.t0,
                [(r["idx"], round(r["wall"], 1)) for r in slow]), file=sys.stderr)
        return out

    def report(self, sig, msg, idx=None, payload=None):
        for f in self.findings.get("findings", []):
            if f["property"] == self.prop and f["signature"] == sig:
                if sig not in [k[0] for k in self.known_hits]:
                    self.known_hits.append((sig, f["what"]))
                return
        self.violations.append((sig, msg, idx, payload))

    def finish(self):
        for sig, what in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(no sample recorded)"], observed=self.stats)
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive_cases"] = [str(x)[:500] for x in self.inconclusive[:10]]
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s; observed %s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), wall,
            json.dumps(self.stats, sort_keys=True)))
        if self.violations:
            rd = os.path.join(BUILD, "replays")
            os.makedirs(rd, exist_ok=True)
            shown = set()
            for i, (sig, msg, idx, payload) in enumerate(self.violations):
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(rp, "w") as f:
                    json.dump(dict(property=self.prop, signature=sig, message=msg, case=idx, payload=payload,
                                   seed=self.seed, tier=self.tier,
                                   how="VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' python3 /verif/check.py %s" % (
                                       self.seed, self.tier, idx, self.prop)), f, indent=1, default=str)
                if sig not in shown or len(shown) < 3:
                    if sig not in shown:
                        print("--- %s [%s] %s" % (sig, idx, msg[:3000]))
                    shown.add(sig)
                if i < 10:
                    print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            self._cleanup()
            sys.exit(1)
        if self.inconclusive:
            for idx, w in self.inconclusive[:5]:
                print("INCONCLUSIVE %s: %s" % (idx, w[:3000]))
            # a few undecided cases leave the rest standing; many mean the run observed too little
            if len(self.inconclusive) > 2 or self.evals == 0:
                self._cleanup()
                sys.exit(2)
        if self.evals == 0 or len(self.distinct) < 1:
            print("INCONCLUSIVE: nothing was observed")
            self._cleanup()
            sys.exit(2)
        self._cleanup()
        sys.exit(0)


class ParseFilter:
    """Asks the third-party parser alone whether it ever returns on a text.

    The server parses a text as if it ended with a newline and survives panics of
    the parser, so only texts on which the parser loops are set aside."""

    def __init__(self, binary):
        self.binary = binary
        self.p = None
        self.cache = {}

    def ok(self, text):
        import base64
        b = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
        if not b.endswith(b"\n"):
            b += b"\n"
        k = hashlib.sha1(b).digest()
        if k in self.cache:
            return self.cache[k]
        for _ in range(3):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL)
            try:
                self.p.stdin.write(base64.b64encode(b) + b"\n")
                self.p.stdin.flush()
                r = self.p.stdout.readline().decode().strip()
            except BrokenPipeError:
                r = ""
            if r:
                if r == "loop":
                    self.p.kill()
                    self.p.wait()
                    self.p = None
                self.cache[k] = r in ("ok", "panic")
                return self.cache[k]
            self.p.kill()
            self.p.wait()
            self.p = None
        return False

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None
