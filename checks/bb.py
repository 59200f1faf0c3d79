"""Black-box drivers: the real binary, its editors and its peers as separate processes."""
import json
import os
import queue
import random
import signal
import socket
import subprocess
import threading
import time

from common import Inconclusive, Violated, log, scratch, clean_env

BIN = None      # set by need_daemon()
VPEER = None    # set by need_peer()
SHIM = None


def need_daemon():
    global BIN
    import common
    BIN = common.build_daemon()
    return BIN


def need_peer():
    global VPEER
    import common
    VPEER = os.path.join(common.build_crate("peer"), "vpeer")
    return VPEER


_ports_used = set()


def free_port():
    """A port nobody listens on. Not from the ephemeral range, so that it stays free."""
    for _ in range(200):
        p = random.SystemRandom().randrange(12000, 32000)
        if p in _ports_used:
            continue
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p))
        except OSError:
            continue
        finally:
            s.close()
        _ports_used.add(p)
        return p
    raise Inconclusive("no free port")


def uri(path):
    """Like the plugins do it: nothing is escaped."""
    return "file://" + path


# --- processes ---------------------------------------------------------------------------------

def proc_activity(pid):
    """(cpu ticks used so far, some thread is running or waiting for the disk)."""
    ticks, busy = 0, False
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                rest = f.read().rsplit(")", 1)[1].split()
            ticks += int(rest[11]) + int(rest[12])
            busy |= rest[0] in "RD"
    except OSError:
        return None
    return ticks, busy


class Idle:
    """Tells for how long a set of processes has been doing nothing. A process that waits for the
    processor counts as busy, so that an overloaded machine never looks like a stuck program."""

    def __init__(self, pids):
        self.pids = pids
        self.last = None
        self.since = time.time()

    def poll(self):
        now = time.time()
        cur = [proc_activity(p) for p in self.pids]
        busy = any(c is not None and c[1] for c in cur)
        ticks = [c[0] if c else None for c in cur]
        if busy or ticks != self.last:
            self.since = now
            self.last = ticks
        return now - self.since


# No waiting goes on after this, whatever its own limit.
deadline = [float("inf")]


def wait_for(pred, procs, idle_s=6.0, limit_s=150.0, tick=0.05, what="condition"):
    """True as soon as pred() holds. False if it does not although all processes have been idle for
    idle_s, so nothing more is going to happen. Inconclusive if they are still busy after limit_s.
    Test peers do not count, asking them makes them busy; the time they take to answer does not
    count as idle time either."""
    idle = Idle([p.pid for p in procs if p is not None and not isinstance(p, Peer)])
    t0 = time.time()
    while True:
        t1 = time.time()
        if pred():
            return True
        idle.since += max(0, time.time() - t1 - 0.05)
        quiet = idle.poll()
        if quiet > idle_s:
            return bool(pred())
        if time.time() - t0 > limit_s:
            raise Inconclusive(f"still busy after {limit_s} s waiting for {what}")
        if time.time() > deadline[0]:
            raise Inconclusive(f"no time left, still busy after {time.time() - t0:.0f} s waiting for {what}")
        time.sleep(tick)


_running = []


class Daemon:
    """One `ethersync daemon` process on one project directory."""

    def __init__(self, world, name, directory, port=None, peer=None, secret=None, init=False, extra=(),
                 env=None, write_config=True, user=None, wrap=None, wait=True, socket_name=None, binary=None):
        self.world = world
        self.name = name
        self.dir = directory
        self.port = port
        self.log_path = os.path.join(world.root, f"{name}.log")
        self.socket_name = socket_name or f"sock-{name}"
        self.socket = os.path.join(world.run, self.socket_name)
        os.makedirs(os.path.join(directory, ".ethersync"), exist_ok=True)
        if secret is not None and write_config:
            with open(os.path.join(directory, ".ethersync/config"), "w") as f:
                f.write(f"secret = {secret}\n")
        cmd = list(wrap or []) + [binary or BIN, "daemon", directory, "--socket-name", self.socket_name]
        if port is not None:
            cmd += ["--port", str(port)]
        if peer is not None:
            cmd += ["--peer", peer]
        if init:
            cmd += ["--init"]
        cmd += list(extra)
        e = clean_env(XDG_RUNTIME_DIR=world.run, RUST_BACKTRACE="0", NO_COLOR="1", USER="verif", HOME=world.home)
        e.pop("ETHERSYNC_SOCKET", None)
        e.update(env or {})
        try:
            os.unlink(self.socket)
        except OSError:
            pass
        self.log = open(self.log_path, "ab")
        kw = {}
        if user is not None:
            kw = {"user": user, "group": user, "extra_groups": []}
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=e,
                                  cwd=world.root, **kw)
        self.pid = self.p.pid
        _running.append(self.p)
        world.procs.append(self)
        if wait:
            self.wait_ready()

    def wait_ready(self, limit=60):
        t0 = time.time()
        while True:
            if self.p.poll() is not None:
                return False
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.socket)
                s.close()
                if self.port is None or self.listening():
                    return True
            except OSError:
                s.close()
            if time.time() - t0 > limit:
                raise Inconclusive(f"daemon {self.name} did not get ready in {limit} s: {self.tail()}")
            time.sleep(0.01)

    def listening(self):
        want = f"{self.port:04X}"
        try:
            with open(f"/proc/{self.pid}/net/tcp") as f:
                for line in f:
                    w = line.split()
                    if w[3] == "0A" and w[1].endswith(":" + want):
                        return True
        except OSError:
            pass
        return False

    def addr(self):
        return f"/ip4/127.0.0.1/tcp/{self.port}"

    def alive(self):
        return self.p.poll() is None

    def tail(self, n=1500):
        try:
            with open(self.log_path, "rb") as f:
                return f.read()[-n:].decode("utf-8", "replace")
        except OSError:
            return ""

    def check_alive(self, prop="crash"):
        if not self.alive():
            raise Violated(prop, f"daemon {self.name} ended with status {self.p.returncode}: {self.tail()}")

    def stop(self, sig=signal.SIGINT, limit=30):
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try:
                self.p.wait(limit)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                if sig != signal.SIGKILL:
                    raise Inconclusive(f"daemon {self.name} did not end within {limit} s")
        self.log.close()

    def kill(self):
        self.stop(signal.SIGKILL)


class Editor:
    """A well-behaved editor: follows the documented protocol, keeps one text per open file."""

    def __init__(self, daemon, name="editor"):
        self.daemon = daemon
        self.name = name
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(30)
        self.s.connect(daemon.socket)
        self.s.settimeout(None)
        self.lock = threading.RLock()
        self.next_id = 1
        self.responses = {}
        self.order = []
        self.files = {}     # path -> {"text", "editor_rev", "daemon_rev"}
        self.cursors = {}
        self.applied = 0
        self.ignored = 0
        self.unexpected = []
        self.closed = False
        self.cond = threading.Condition(self.lock)
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        buf = b""
        while True:
            try:
                d = self.s.recv(1 << 16)
            except OSError:
                d = b""
            if not d:
                break
            buf += d
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                with self.cond:
                    try:
                        self._handle(json.loads(line))
                    except Exception as e:      # noqa: BLE001
                        self.unexpected.append(f"{e!r} for {line[:300]!r}")
                    self.cond.notify_all()
        with self.cond:
            self.closed = True
            self.cond.notify_all()

    def path_of(self, u):
        p = u[len("file://"):]
        base = os.path.realpath(self.daemon.dir) + "/"
        return p[len(base):] if p.startswith(base) else p

    def _handle(self, m):
        if "method" not in m:
            self.order.append(m.get("id"))
            self.responses.setdefault(m.get("id"), []).append(m)
            return
        p = m["params"]
        if m["method"] == "edit":
            path = self.path_of(p["uri"])
            f = self.files.get(path)
            if f is None:
                self.unexpected.append(f"edit for a file that is not open: {path}")
                return
            if p["revision"] != f["editor_rev"]:
                self.ignored += 1
                return
            f["text"] = apply_delta(f["text"], p["delta"])
            f["daemon_rev"] += 1
            self.applied += 1
        elif m["method"] == "cursor":
            self.cursors[p["userid"]] = p
        else:
            self.unexpected.append(f"unknown method {m['method']}")

    def send_raw(self, data):
        self.s.sendall(data)

    def request_nowait(self, method, params):
        with self.lock:
            i = self.next_id
            self.next_id += 1
            self.send_raw(json.dumps({"jsonrpc": "2.0", "id": i, "method": method, "params": params}).encode() + b"\n")
            return i

    def wait_response(self, i, limit=150):
        """None if the connection was closed instead."""
        idle = Idle([self.daemon.pid])
        t0 = time.time()
        while True:
            with self.cond:
                self.cond.wait_for(lambda: i in self.responses or self.closed, 0.3)
                if i in self.responses:
                    return self.responses[i][0]
                if self.closed:
                    return None
            if idle.poll() > 6:
                raise Violated("no-answer", f"daemon {self.daemon.name} does not answer request {i} although it has nothing else to do", [self.daemon.tail()])
            if time.time() - t0 > limit:
                raise Inconclusive(f"no response from {self.daemon.name} for {limit} s")

    def request(self, method, params, limit=150):
        return self.wait_response(self.request_nowait(method, params), limit)

    def uri(self, path):
        return uri(os.path.join(os.path.realpath(self.daemon.dir), path))

    def open(self, path, text=None):
        """text: what the editor has, default is what is on disk."""
        if text is None:
            try:
                with open(os.path.join(self.daemon.dir, path), encoding="utf-8", newline="") as f:
                    text = f.read()
            except OSError:
                text = ""
        with self.lock:
            self.files[path] = {"text": text, "editor_rev": 0, "daemon_rev": 0}
            i = self.request_nowait("open", {"uri": self.uri(path)})
        r = self.wait_response(i)
        if r is None or "error" in r:
            with self.lock:
                self.files.pop(path, None)
        return r

    def close_file(self, path):
        r = self.request("close", {"uri": self.uri(path)})
        with self.lock:
            self.files.pop(path, None)
        return r

    def edit(self, path, start, end, replacement, wait=True):
        """Offsets in characters."""
        with self.lock:
            f = self.files[path]
            before = f["text"]
            delta = [{"range": {"start": position(before, start), "end": position(before, end)},
                      "replacement": replacement}]
            f["text"] = before[:start] + replacement + before[end:]
            rev = f["daemon_rev"]
            f["editor_rev"] += 1
            i = self.request_nowait("edit", {"uri": self.uri(path), "revision": rev, "delta": delta})
        return self.wait_response(i) if wait else i

    def cursor(self, path, ranges):
        return self.request("cursor", {"uri": self.uri(path), "ranges": ranges})

    def text(self, path):
        with self.lock:
            return self.files[path]["text"]

    def disconnect(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


def position(text, offset):
    before = text[:offset]
    line = before.count("\n")
    return {"line": line, "character": offset - (before.rfind("\n") + 1)}


def offset_of(text, pos):
    lines = text.split("\n")
    if pos["line"] >= len(lines) or pos["character"] > len(lines[pos["line"]]):
        raise ValueError(f"position {pos} is outside of the text")
    return sum(len(x) + 1 for x in lines[:pos["line"]]) + pos["character"]


def apply_delta(text, delta):
    """All ranges refer to the text before the message."""
    edits = []
    for n, d in enumerate(delta):
        a, b = offset_of(text, d["range"]["start"]), offset_of(text, d["range"]["end"])
        if b < a:
            raise ValueError(f"range {d['range']} is reversed")
        edits.append((a, b, n, d["replacement"]))
    for a, b, _, r in sorted(edits, key=lambda e: (e[0], e[1], e[2]), reverse=True):
        text = text[:a] + r + text[b:]
    return text


class Peer:
    """Controls a vpeer process."""

    def __init__(self, world, secret=None, no_psk=False):
        self.world = world
        e = clean_env()
        if secret is not None:
            e["VPEER_SECRET"] = secret
        if no_psk:
            e["VPEER_NO_PSK"] = "1"
        self.p = subprocess.Popen([VPEER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(world.root, f"vpeer-{len(world.procs)}.log"), "wb"), env=e)
        self.pid = self.p.pid
        _running.append(self.p)
        world.procs.append(self)
        self.answers = queue.Queue()
        self.events = []
        self.cond = threading.Condition()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    ASYNC = {"listening", "connected", "disconnected", "dial_error", "incoming_error", "stream", "stream_error",
             "closed", "reopen", "decode_error", "apply_error"}

    def _read(self):
        for line in self.p.stdout:
            m = json.loads(line)
            if m["ev"] in self.ASYNC:
                with self.cond:
                    self.events.append(m)
                    self.cond.notify_all()
            else:
                self.answers.put(m)

    def cmd(self, op, limit=60, **kw):
        kw["op"] = op
        try:
            self.p.stdin.write(json.dumps(kw).encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            raise Inconclusive("the test peer ended")
        if op == "dial":
            return None
        try:
            m = self.answers.get(timeout=limit)
        except queue.Empty:
            raise Inconclusive(f"the test peer did not answer {op}")
        return m

    def seen(self, *names):
        with self.cond:
            return [e for e in self.events if e["ev"] in names]

    def dial(self, addr):
        self.p.stdin.write(json.dumps({"op": "dial", "addr": addr}).encode() + b"\n")
        self.p.stdin.flush()
        try:
            self.answers.get(timeout=30)
        except queue.Empty:
            raise Inconclusive("the test peer did not answer dial")

    def wait_event(self, names, limit=60, count=1):
        with self.cond:
            self.cond.wait_for(lambda: len([e for e in self.events if e["ev"] in names]) >= count, limit)
            got = [e for e in self.events if e["ev"] in names]
        if len(got) < count:
            raise Inconclusive(f"the test peer saw none of {names} in {limit} s: {self.events[-5:]}")
        return got[-1]

    def connect(self, daemon, open_stream=True, limit=60):
        """Connects to a listening daemon; raises if that is refused."""
        n = len(self.seen("connected", "dial_error"))
        self.dial(daemon.addr())
        e = self.wait_event(("connected", "dial_error"), limit, n + 1)
        if e["ev"] == "dial_error":
            return e
        if open_stream:
            n = len(self.seen("stream", "stream_error"))
            self.cmd("open")
            e = self.wait_event(("stream", "stream_error"), limit, n + 1)
        return e

    def dump(self):
        d = self.cmd("dump")
        if d.get("ev") != "dump":
            raise Inconclusive(f"unexpected answer {d}")
        return d

    def files(self):
        return self.dump()["files"]

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class World:
    """A scratch directory with its processes. Use as a context manager."""

    def __init__(self):
        self.root = scratch()
        self.run = os.path.join(self.root, "run")
        self.home = os.path.join(self.root, "home")
        os.mkdir(self.run, 0o700)
        os.mkdir(self.home, 0o700)
        os.chmod(self.root, 0o755)
        self.procs = []
        self.editors = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        import shutil
        for p in self.procs:
            if p.p.poll() is None:
                p.p.kill()
                p.p.wait()
            # The pipes are closed with the last reference.
            if p.p in _running:
                _running.remove(p.p)
            if isinstance(p, Daemon):
                p.log.close()
        for e in self.editors:
            e.disconnect()
        assert self.root.startswith("/tmp/verif-")
        shutil.rmtree(self.root, ignore_errors=True)

    def project(self, name, files=None):
        d = os.path.join(self.root, name)
        os.makedirs(os.path.join(d, ".ethersync"), exist_ok=True)
        write_files(d, files or {})
        return d

    def daemon(self, name, directory, **kw):
        return Daemon(self, name, directory, **kw)

    def editor(self, daemon, name="editor"):
        e = Editor(daemon, name)
        self.editors.append(e)
        return e

    def peer(self, **kw):
        return Peer(self, **kw)

    def wait(self, pred, procs=None, **kw):
        ps = procs if procs is not None else [p for p in self.procs if p.p.poll() is None]
        return wait_for(pred, ps, **kw)


def write_files(d, files):
    for name, content in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())


def read_dir(d, skip=(".ethersync", ".git")):
    """Relative path -> bytes of all regular files."""
    res = {}
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in skip]
        for f in files:
            p = os.path.join(base, f)
            if os.path.islink(p):
                continue
            try:
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, d)] = fh.read()
            except OSError:
                pass
    return res


def text_files(d):
    res = {}
    for k, v in read_dir(d).items():
        try:
            res[k] = v.decode("utf-8")
        except UnicodeDecodeError:
            pass
    return res


def kill_all():
    for p in _running:
        if p.poll() is None:
            p.kill()
            p.wait()


_sentinel = [0]


def settle(world, src, dsts, limit_s=150.0, idle_s=8.0):
    """Writes a new file in src's directory and waits until it is in the directory of every
    destination, which shows that what happened before has been passed on. The file is rewritten
    now and then, because watching a directory starts some time after the daemon does."""
    _sentinel[0] += 1
    name = f"sentinel-{_sentinel[0]}"
    path = os.path.join(src.dir, name)
    content = [f"{name}\n"]

    def put():
        with open(path, "w") as f:
            f.write(content[0])
    put()
    last = [time.time()]

    def arrived():
        for d in dsts:
            if isinstance(d, Peer):
                if name not in d.files():
                    return False
            elif not os.path.exists(os.path.join(d.dir, name)):
                return False
        return True

    def check():
        if arrived():
            return True
        if time.time() - last[0] > 3:
            last[0] = time.time()
            content[0] += "again\n"
            put()
        return False
    t0 = time.time()
    while time.time() - t0 < limit_s and time.time() < deadline[0]:
        if check():
            return name
        for p in [src] + list(dsts):
            if not p.alive():
                return None
        time.sleep(0.05)
    raise Inconclusive(f"sentinel of {src.name} did not arrive in {limit_s} s")
