"""C15: peers with equal and with slightly different secrets."""
import os
import random
import socket
import threading
import time

import bb
from common import Inconclusive, Violated

ALPHABET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&()*+,-./:<=>?@[]^_{|}~äß€日"
DEFAULT = "default-passphrase"


def random_secret(rng):
    n = rng.choice([1, 2, 5, 8, 12, 16, 20, 31, 32, 33, 40, 63, 64, 65, 100, 128, 130, 300, 1000])
    s = "".join(rng.choice(ALPHABET if rng.random() < 0.3 else ALPHABET[:62]) for _ in range(n))
    if n > 4 and rng.random() < 0.3:
        k = rng.randrange(1, n - 1)
        s = s[:k] + " " + s[k + 1:]
    return s.strip() or "x"


def variants(rng, s):
    """Secrets that differ from s, mostly a little."""
    out = []
    def add(v, how):
        # What a config file can express.
        if v != s and v.strip() == v and v:
            out.append((v, how))
    k = rng.randrange(len(s))
    add(s[:-1], "last character missing")
    add(s[1:], "first character missing")
    add(s + rng.choice(ALPHABET[:62]), "one more character")
    add(s + s, "twice")
    add(s[:k] + rng.choice(ALPHABET[:62]) + s[k + 1:], "one other character")
    add(s[:-1] + ("a" if s[-1] != "a" else "b"), "other last character")
    add(("a" if s[0] != "a" else "b") + s[1:], "other first character")
    add(s.swapcase(), "other case")
    add(s[:k] + s[k].swapcase() + s[k + 1:], "one character in the other case")
    add(s.lower(), "lower case")
    add(s[:k] + " " + s[k:], "additional space")
    add(s.replace(" ", ""), "no spaces")
    for n in (8, 16, 32, 64):
        if len(s) > n:
            add(s[:n], f"first {n} characters")
            add(s[:n] + "x" + s[n + 1:], f"differs after {n} characters")
            add(s[:n] + s[n:][::-1], f"other order after {n} characters")
    add("".join(sorted(s)), "sorted")
    add(s[::-1], "reversed")
    add(DEFAULT, "default")
    add("x", "x")
    rng.shuffle(out)
    # Those about the end of long secrets are few, so prefer them.
    out.sort(key=lambda x: not x[1].startswith(("first", "differs", "other order")) or rng.random() < 0.5)
    return out


class Proxy:
    """Passes bytes on, and remembers them."""

    def __init__(self, port, to):
        self.data = bytearray()
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", port))
        self.s.listen(8)
        self.to = to
        self.port = port
        threading.Thread(target=self.loop, daemon=True).start()

    def addr(self):
        return f"/ip4/127.0.0.1/tcp/{self.port}"

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                d = socket.create_connection(("127.0.0.1", self.to))
            except OSError:
                c.close()
                continue
            for a, b in ((c, d), (d, c)):
                threading.Thread(target=self.pump, args=(a, b), daemon=True).start()

    def pump(self, a, b):
        while True:
            try:
                x = a.recv(65536)
            except OSError:
                x = b""
            if not x:
                break
            self.data.extend(x)
            try:
                b.sendall(x)
            except OSError:
                break
        for s in (a, b):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def close(self):
        self.s.close()


def secrets(run):
    rng = run.rng
    with bb.World() as w:
        mode = rng.choice(["random"] * 5 + ["default", "none"])
        secret = random_secret(rng) if mode == "random" else DEFAULT
        needle = "needle-" + "".join(rng.choice("abcdefghij") for _ in range(30))
        files = {"f": f"{needle}\n", needle + ".txt": "x\n"}
        d = w.project("a", files)
        A = w.daemon("A", d, port=bb.free_port(), secret=None if mode == "none" else secret)
        A.check_alive()
        run.log(f"secret of the daemon: {secret!r} ({mode})")
        wrong = variants(rng, secret)[:rng.randrange(3, 6)]
        bad = []
        for v, how in wrong:
            p = w.peer(secret=v)
            p.cmd("new", path="evil", text="evil")
            p.dial(A.addr())
            bad.append((p, f"{v!r} ({how})", "to the daemon"))
            run.did([secret, v])
        if rng.random() < 0.4:
            p = w.peer(no_psk=True)
            p.cmd("new", path="evil", text="evil")
            p.dial(A.addr())
            bad.append((p, "none at all", "to the daemon"))
            run.did("no secret")
        # The other direction: the daemon connects to somebody with another secret.
        reverse = None
        if rng.random() < 0.7:
            v, how = rng.choice(variants(rng, secret))
            q = w.peer(secret=v)
            q.cmd("new", path="evil", text="evil")
            port = bb.free_port()
            q.cmd("listen", port=port)
            q.wait_event(("listening",), 30)
            b = w.project("b", {"g": needle + "\n"})
            B = w.daemon("B", b, secret=None if mode == "none" else secret, peer=f"/ip4/127.0.0.1/tcp/{port}")
            reverse = (B, b)
            bad.append((q, f"{v!r} ({how})", "from the daemon"))
            run.did(["reverse", secret, v])
        # Two daemons.
        pair = None
        if rng.random() < 0.5:
            v, how = rng.choice(variants(rng, secret))
            c = w.project("c", {"own": "own\n"})
            C = w.daemon("C", c, secret=v, peer=A.addr())
            pair = (C, c, f"{v!r} ({how})")
            run.did(["daemon", secret, v])
        # Somebody who does not even speak the protocol.
        raw = []
        for _ in range(rng.randrange(0, 3)):
            s = socket.create_connection(("127.0.0.1", A.port))
            s.settimeout(0.5)
            try:
                s.sendall(rng.choice([b"GET / HTTP/1.0\r\n\r\n", bytes(rng.randrange(256) for _ in range(rng.choice([1, 23, 24, 25, 300]))), b""]))
            except OSError:
                pass
            raw.append(s)
        # Meanwhile, those with the same secret can connect, both ways.
        proxy = Proxy(bb.free_port(), A.port)
        try:
            good = w.peer(secret=secret)
            n = len(good.seen("connected", "dial_error"))
            good.dial(proxy.addr())
            e = good.wait_event(("connected", "dial_error"), 60, n + 1)
            if e["ev"] != "connected":
                raise Violated("refused", f"a peer with the equal secret {secret!r} can not connect: {e}", [A.tail()])
            good.cmd("open")
            if not w.wait(lambda: good.files() == files, what="sync"):
                raise Violated("refused", f"a peer with the equal secret {secret!r} does not get the content: {good.files()}", [A.tail()])
            run.count("equal secrets connected")
            good.cmd("new", path="good", text=needle)
            if not w.wait(lambda: os.path.exists(os.path.join(d, "good")), what="change"):
                raise Violated("refused", "a change of a peer with the equal secret does not arrive", [A.tail()])
            if needle.encode() in bytes(proxy.data):
                raise Violated("plain", "project content is readable on the wire", [A.tail()])
            run.count("bytes on the wire searched", len(proxy.data))
            if rng.random() < 0.5:
                e2 = w.project("e", {})
                E = w.daemon("E", e2, secret=None if mode == "none" else secret, peer=A.addr())
                if not w.wait(lambda: bb.text_files(e2).get("f") == files["f"], what="daemons with equal secrets"):
                    raise Violated("refused", f"two daemons with the secret {secret!r} do not sync", [A.tail(), E.tail()])
                run.count("equal secrets connected")
            # Attempts with wrong secrets take their time. Those that have not failed by then are still not connected.
            t0 = time.time()
            while time.time() - t0 < 11.5 and not all(p.seen("dial_error", "incoming_error", "connected", "stream") for p, _, _ in bad):
                time.sleep(0.1)
            for p, v, way in bad:
                got = p.seen("connected", "stream")
                if got:
                    raise Violated("accepted", f"secret {secret!r}: a peer with {v} connected {way}: {got}", [A.tail()])
                if p.files():
                    if set(p.files()) - {"evil"} or p.cmd("find", needle=needle)["found"]:
                        raise Violated("leaked", f"a peer with {v} knows {p.files()}")
                run.count("different secrets refused" if p.seen("dial_error", "incoming_error") else "different secrets without connection")
            for s in raw:
                got = b""
                try:
                    while True:
                        x = s.recv(4096)
                        if not x:
                            break
                        got += x
                except OSError:
                    pass
                s.close()
                if needle.encode() in got:
                    raise Violated("plain", "project content is readable on the wire")
                run.count("garbage sent")
            later = w.peer(secret=secret)
            e = later.connect(A)
            if e["ev"] != "stream" or not w.wait(lambda: "good" in later.files(), what="sync"):
                raise Violated("refused", f"after failed attempts, a peer with the equal secret can not connect: {e}", [A.tail()])
            A.check_alive()
            now = bb.text_files(d)
            if now != dict(files, good=needle) or later.files() != now:
                raise Violated("changed", f"project content has changed to {now}, shared is {later.files()}")
            if reverse:
                reverse[0].check_alive()
                if "evil" in bb.text_files(reverse[1]):
                    raise Violated("changed", "a peer with another secret changed the project of a daemon that connected to it")
            if pair:
                if bb.text_files(pair[1]) != {"own": "own\n"}:
                    raise Violated("accepted", f"a daemon with the secret {pair[2]} got content of one with {secret!r}", [pair[0].tail()])
                run.count("pairs of daemons with different secrets")
        finally:
            proxy.close()
