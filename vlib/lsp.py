"""A strict LSP client that drives the real phpintel binary over stdio.

Everything the server writes is parsed by an independent, strict reader: any
framing error, any message that is not valid JSON-RPC, any reply that answers
nothing or answers twice is recorded in `anomalies`.
"""
import json
import os
import signal
import subprocess
import threading
import time
from collections import deque


class ServerDied(Exception):
    def __init__(self, what, stderr=""):
        super().__init__(what)
        self.what = what
        self.stderr = stderr


class Hang(Exception):
    """The server is provably stuck (deadlock or runaway on a tiny input)."""


class Inconclusive(Exception):
    pass


class RPCError(Exception):
    def __init__(self, err):
        super().__init__(str(err))
        self.err = err
        self.code = err.get("code") if isinstance(err, dict) else None


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        fields = s[s.rindex(")") + 2:].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


def _rss_mb(pid):
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6
    except Exception:
        return None


class Server:
    # CPU seconds one small request may burn before it is called a runaway
    RUNAWAY_CPU = 60.0
    RUNAWAY_RSS_MB = 3500.0
    WATCHDOG_WALL = 240.0
    cpu_scale = 1.0

    def __init__(self, binary, home, args=(), env=None, handlers=None, cwd=None):
        e = dict(os.environ)
        e["HOME"] = home
        e.pop("UPDATE_SNAPSHOTS", None)
        e["GOTRACEBACK"] = "all"
        if env:
            e.update(env)
        self.home = home
        self.errpath = os.path.join(home, "stderr.log")
        self.errf = open(self.errpath, "wb")
        self.p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e, cwd=cwd or home, start_new_session=True)
        self.cv = threading.Condition()
        self.wlock = threading.Lock()
        self.next_id = 1
        self.replies = {}          # id key -> message
        self.outstanding = {}      # id key -> method
        self.answered = set()
        self.anomalies = []
        self.diags = {}            # uri -> list of published diagnostics lists
        self.diag_seq = []         # (n, uri, diagnostics)
        self.server_requests = []
        self.notifications = []
        self.handlers = handlers or {}
        self.eof = False
        self.n_in = 0
        self.n_out = 0
        self.reader = threading.Thread(target=self._read, daemon=True)
        self.reader.start()

    # -- plumbing ---------------------------------------------------------
    def _anomaly(self, what):
        with self.cv:
            if len(self.anomalies) < 50:
                self.anomalies.append(what)
            self.cv.notify_all()

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                headers = {}
                first = True
                while True:
                    line = f.readline()
                    if line == b"":
                        if not first:
                            self._anomaly("stream ended inside a header")
                        return
                    first = False
                    if not line.endswith(b"\r\n"):
                        self._anomaly("header line without CRLF: %r" % line[:200])
                        return
                    if line == b"\r\n":
                        break
                    if b":" not in line:
                        self._anomaly("bad header line %r" % line[:200])
                        return
                    k, v = line[:-2].split(b":", 1)
                    headers[k.strip().lower()] = v.strip()
                try:
                    n = int(headers[b"content-length"])
                except Exception:
                    self._anomaly("missing or bad Content-Length: %r" % headers)
                    return
                body = f.read(n)
                if len(body) != n:
                    self._anomaly("stream ended inside a body (%d of %d bytes)" % (len(body), n))
                    return
                self.n_in += 1
                try:
                    msg = json.loads(body.decode("utf-8"))
                except Exception as ex:
                    self._anomaly("body is not UTF-8 JSON (%s): %r" % (ex, body[:200]))
                    continue
                self._dispatch(msg)
        except Exception as ex:  # pragma: no cover
            self._anomaly("reader failed: %r" % ex)
        finally:
            with self.cv:
                self.eof = True
                self.cv.notify_all()

    @staticmethod
    def idkey(i):
        return json.dumps(i)

    def _dispatch(self, msg):
        if not isinstance(msg, dict) or msg.get("jsonrpc") != "2.0":
            self._anomaly("not a JSON-RPC 2.0 object: %.200r" % (msg,))
            return
        if "method" in msg:
            if "id" in msg and msg["id"] is not None:
                with self.cv:
                    self.server_requests.append(msg)
                    self.cv.notify_all()
                h = self.handlers.get(msg["method"])
                if h == "ignore":
                    return
                try:
                    res = h(msg.get("params")) if h else None
                    self.send({"jsonrpc": "2.0", "id": msg["id"], "result": res})
                except RPCError as ex:
                    self.send({"jsonrpc": "2.0", "id": msg["id"], "error": ex.err})
                except Exception:
                    pass
                return
            with self.cv:
                if msg["method"] == "textDocument/publishDiagnostics":
                    pr = msg.get("params") or {}
                    self.diags.setdefault(pr.get("uri"), []).append(pr.get("diagnostics"))
                    self.diag_seq.append((len(self.diag_seq), pr.get("uri"), pr.get("diagnostics")))
                else:
                    self.notifications.append(msg)
                self.cv.notify_all()
            return
        if "id" not in msg:
            self._anomaly("message without method and id: %.200r" % (msg,))
            return
        k = self.idkey(msg["id"])
        with self.cv:
            if k not in self.outstanding:
                what = "second reply" if k in self.answered else "reply to nothing"
                if len(self.anomalies) < 50:
                    self.anomalies.append("%s for id %s: %.200r" % (what, k, msg))
            else:
                if ("result" in msg) == ("error" in msg and msg["error"] is not None):
                    self.anomalies.append("reply must carry exactly one of result/error: %.200r" % (msg,))
                del self.outstanding[k]
                self.answered.add(k)
                self.replies[k] = msg
            self.cv.notify_all()

    def send(self, obj):
        self.send_raw(json.dumps(obj).encode("utf-8"))

    def send_raw(self, body, header=None):
        if header is None:
            header = b"Content-Length: %d\r\n\r\n" % len(body)
        with self.wlock:
            try:
                self.p.stdin.write(header + body)
                self.p.stdin.flush()
                self.n_out += 1
            except (BrokenPipeError, ValueError, OSError):
                pass

    # -- calls -------------------------------------------------------------
    def notify(self, method, params=None):
        m = {"jsonrpc": "2.0", "method": method}
        if params is not None:
            m["params"] = params
        self.send(m)

    def start(self, method, params=None, id=None, raw=None):
        if id is None:
            id = self.next_id
            self.next_id += 1
        k = self.idkey(id)
        with self.cv:
            self.outstanding[k] = method
        m = {"jsonrpc": "2.0", "id": id, "method": method}
        if params is not None:
            m["params"] = params
        self.send(m if raw is None else raw)
        return k

    def died(self):
        """Wait briefly for the process to be reaped and describe its end."""
        try:
            rc = self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            rc = None
        return ServerDied("server exited (rc=%s)" % rc, self.stderr_tail())

    def wait(self, k, method="?"):
        t0 = time.time()
        cpu0 = _cpu(self.p.pid)
        nextcheck = 5.0
        while True:
            with self.cv:
                if k in self.replies:
                    return self.replies.pop(k)
                if self.eof:
                    pass
                else:
                    self.cv.wait(timeout=1.0)
                    if k in self.replies:
                        return self.replies.pop(k)
                if self.eof and k not in self.replies:
                    dead = True
                else:
                    dead = False
            if dead:
                raise self.died()
            el = time.time() - t0
            if el > nextcheck:
                nextcheck += 2.0
                cpu = _cpu(self.p.pid)
                rss = _rss_mb(self.p.pid)
                if rss is not None and rss > self.RUNAWAY_RSS_MB:
                    self.kill()
                    raise Hang("%s: memory grew past %d MB without an answer" % (method, self.RUNAWAY_RSS_MB))
                if cpu is not None and cpu0 is not None and cpu - cpu0 > self.RUNAWAY_CPU * self.cpu_scale:
                    dump = self.dump()
                    raise Hang("%s: burned %.0f s of CPU without an answer\n%s" % (method, cpu - cpu0, dump))
                if el > 20 and cpu is not None and self._idle(10.0):
                    with self.cv:
                        if k in self.replies:
                            return self.replies.pop(k)
                    dump = self.dump()
                    raise Hang("%s: never answered; the server is idle\n%s" % (method, dump))
            if el > self.WATCHDOG_WALL * self.cpu_scale:
                self.kill()
                raise Inconclusive("%s: no answer within the watchdog" % method)

    def _idle(self, span):
        """True when every thread of the server sleeps and it uses no CPU over `span` s.

        A server that is merely starved on a loaded machine has a runnable thread."""
        a = _cpu(self.p.pid)
        # (by samples: the whole machine may have stood still for a while)
        for _ in range(int(span / 0.2)):
            try:
                for t in os.listdir("/proc/%d/task" % self.p.pid):
                    with open("/proc/%d/task/%s/stat" % (self.p.pid, t)) as f:
                        s = f.read()
                    if s[s.rindex(")") + 2] in "RD":
                        return False
            except Exception:
                return False
            with self.cv:
                if self.eof:
                    return False
            time.sleep(0.2)
        b = _cpu(self.p.pid)
        return a is not None and b is not None and b - a < 0.3

    def _sched(self):
        tot = 0
        for t in os.listdir("/proc/%d/task" % self.p.pid):
            base = "/proc/%d/task/%s/" % (self.p.pid, t)
            with open(base + "stat") as f:
                st = f.read()
            if st[st.rindex(")") + 2] in "RD":
                return None
            with open(base + "schedstat") as f:
                tot += int(f.read().split()[0])
        return tot

    def quiesce(self, span=0.03, rounds=2, wall=180.0):
        """Return once every thread of the server sleeps and stays asleep.

        State based: a server that still has work has a runnable thread, however
        loaded the machine is."""
        end = time.time() + wall * self.cpu_scale
        good = 0
        last = None
        cpu0 = _cpu(self.p.pid)
        n = 0
        while time.time() < end:
            if self.eof:
                raise self.died()
            n += 1
            if n % 64 == 0 and cpu0 is not None:
                cpu, rss = _cpu(self.p.pid), _rss_mb(self.p.pid)
                if rss is not None and rss > self.RUNAWAY_RSS_MB:
                    self.kill()
                    raise Hang("background work: memory grew past %d MB" % self.RUNAWAY_RSS_MB)
                if cpu is not None and cpu - cpu0 > self.RUNAWAY_CPU * self.cpu_scale:
                    raise Hang("background work burned %.0f s of CPU without ending\n%s" % (cpu - cpu0, self.dump()))
            try:
                cur = self._sched()
            except (FileNotFoundError, ProcessLookupError, ValueError):
                cur = None
            if cur is not None and last is not None and cur - last < 500000:
                good += 1
                if good >= rounds:
                    return
            else:
                good = 0
            last = cur
            time.sleep(span)
        raise Inconclusive("the server never became idle")

    def call(self, method, params=None, raw_reply=False, id=None):
        k = self.start(method, params, id=id)
        msg = self.wait(k, method)
        if raw_reply:
            return msg
        if msg.get("error") is not None:
            raise RPCError(msg["error"])
        return msg.get("result")

    def wait_for(self, pred, what="condition", wall=None):
        """Wait until pred() holds (checked whenever something arrives)."""
        t0 = time.time()
        while True:
            with self.cv:
                if pred():
                    return True
                if self.eof:
                    break
                self.cv.wait(timeout=0.5)
            if time.time() - t0 > (wall or self.WATCHDOG_WALL):
                return False
        if pred():
            return True
        raise self.died()

    # -- life cycle ----------------------------------------------------------
    def stderr_tail(self, n=6000):
        try:
            self.errf.flush()
            with open(self.errpath, "rb") as f:
                b = f.read()
            i = b.find(b"panic:")
            j = b.find(b"fatal error:")
            c = [x for x in (i, j) if x >= 0]
            if c:
                return b[min(c):min(c) + n].decode("utf-8", "replace")
            return b[-n:].decode("utf-8", "replace")
        except Exception:
            return ""

    def stderr_all(self):
        with open(self.errpath, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def dump(self):
        try:
            self.p.send_signal(signal.SIGQUIT)
            self.p.wait(timeout=20)
        except Exception:
            self.kill()
        b = self.stderr_all()
        i = b.find("SIGQUIT")
        return b[i:i + 8000] if i >= 0 else b[-4000:]

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        try:
            self.p.wait(timeout=30)
        except Exception:
            pass

    def close_stdin(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass

    def stop(self):
        """shutdown + EOF; returns exit code."""
        try:
            self.call("shutdown")
        except (ServerDied, RPCError):
            pass
        self.close_stdin()
        try:
            rc = self.p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = None
        self.reader.join(timeout=10)
        self.errf.close()
        try:
            self.p.stdout.close()
        except Exception:
            pass
        return rc

    def abandon(self):
        self.kill()
        self.close_stdin()
        self.reader.join(timeout=10)
        self.errf.close()
        try:
            self.p.stdout.close()
        except Exception:
            pass
