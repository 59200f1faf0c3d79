"""C14: fragmentation, large changes, both directions at once, silent, slow and short-lived peers."""
import os
import signal
import socket
import threading
import time

import bb
import bb_secret
from common import Inconclusive, Violated

SECRET = "s"


class Chopper(bb_secret.Proxy):
    """A proxy that cuts the bytes into pieces, and can hold them back for a while."""

    def __init__(self, port, to, size, delay):
        self.size, self.delay = size, delay
        self.held = threading.Event()
        self.held.set()
        self.turns = 0          # how often the direction changed
        self.last = None
        super().__init__(port, to)

    def pump(self, a, b):
        try:
            b.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except OSError:
            pass
        n = 0
        while True:
            try:
                x = a.recv(65536)
            except OSError:
                x = b""
            if not x:
                break
            if self.last is not a:
                self.last = a
                self.turns += 1
            while x:
                self.held.wait(30)
                k = self.size if n < 3000 else 4096      # not forever
                n += 1
                try:
                    b.sendall(x[:k])
                except OSError:
                    x = b""
                    break
                x = x[k:]
                if self.delay and n < 3000:
                    time.sleep(self.delay)
        for s in (a, b):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass


class Progress:
    """Notices when messages keep going back and forth, and nothing changes any more."""

    def __init__(self, what, state, counters):
        self.what, self.state, self.counters = what, state, counters
        self.seen = None
        self.base = []

    def check(self):
        now = self.state()
        if now != self.seen:
            self.seen = now
            self.base = [c() for _, c, _ in self.counters]
            return
        for (name, c, limit), base in zip(self.counters, self.base):
            if c() - base > limit:
                raise Violated("livelock", f"{self.what}: {c() - base} {name} without any change")


def text_of(rng, size, label):
    unit = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzäöü€日本 \n") for _ in range(997))
    return f"{label}\n" + (unit * (size // len(unit) + 1))[:size] + f"\n{label}/\n"


def transport(run):
    rng = run.rng
    with bb.World() as w:
        small = rng.random() < 0.6
        sizes = [0, 100, 1000, 5000] if small else [100, 5000, 10000, 20000]
        hfiles = {f"h{i}": text_of(rng, rng.choice(sizes), f"<h{i}>") for i in range(rng.randrange(1, 6))}
        h = w.project("h", hfiles)
        H = w.daemon("H", h, port=bb.free_port(), secret=SECRET)
        H.check_alive()
        disturbing, closing = [], []
        proxies = []
        stalled = []
        count = [0]

        def disturb():
            kind = rng.choice(["raw", "raw half", "connected", "not reading", "not reading", "churn", "churn", "stream closed", "half a frame"])
            run.log("disturbing peer:", kind)
            run.count("disturbing peers")
            run.did(kind)
            if kind.startswith("raw"):
                s = socket.create_connection(("127.0.0.1", H.port))
                if kind == "raw half":
                    s.sendall(os.urandom(rng.choice([1, 12, 23])))
                closing.append(s)
                return
            p = w.peer(secret=SECRET)
            p.cmd("auto", on=rng.random() < 0.7)
            e = p.connect(H, open_stream=kind != "connected")
            if e["ev"] not in ("stream", "connected"):
                raise Violated("refused", f"a peer can not connect: {e}", [H.tail()])
            if kind == "not reading":
                p.cmd("read", on=False)
                stalled.append(p)
            elif kind == "churn":
                time.sleep(rng.choice([0, 0.01, 0.1]))
                if rng.random() < 0.5:
                    p.cmd("disconnect")
                else:
                    p.p.kill()
            elif kind == "stream closed":
                p.cmd("close")
            elif kind == "half a frame":
                p.cmd("raw", hex=rng.choice(["00", "000000", "0000ffff00", "7fffffff"]))
                disturbing.append(p)

        for _ in range(rng.randrange(0, 3)):
            disturb()
        # Those that have to get everything: a daemon and a test peer, maybe over bad connections.
        G = w.peer(secret=SECRET)
        frag = (rng.choice([1, 1, 2, 3, 5, 7, 64, 1000]), rng.choice([0, 0, 100, 1000])) if rng.random() < 0.6 else None
        if frag:
            G.cmd("frag", size=frag[0], delay_us=frag[1])
            run.did(["frag", frag])
            run.count("peers that cut frames")
        e = G.connect(H)
        if e["ev"] != "stream":
            raise Violated("refused", f"a peer can not connect: {e}", [H.tail()])
        j = w.project("j")
        chop = None
        addr = H.addr()
        proxy = Chopper(bb.free_port(), H.port, 1 << 16, 0)
        proxies.append(proxy)
        addr = proxy.addr()
        if rng.random() < 0.6:
            chop = proxy
            chop.size, chop.delay = rng.choice([1, 3, 10, 100, 1000, 1460]), rng.choice([0, 0, 0.0002, 0.002])
            run.did(["chop", chop.size, chop.delay])
            run.count("daemons behind a cutting proxy")
        J = w.daemon("J", j, secret=SECRET, peer=addr)
        run.log(f"host has {[(k, len(v)) for k, v in hfiles.items()]}, frames cut {frag}, connection cut {chop and (chop.size, chop.delay)}")
        expected = dict(hfiles)

        def wait_all(what, **kw):
            progress = Progress(what, lambda: (bb.text_files(h), bb.text_files(j), G.dump()["heads"]),
                                [("changes of direction between the daemons", lambda: proxy.turns, 600),
                                 ("messages for a peer", lambda: G.dump()["messages_in"], 400)])

            def same():
                if bb.text_files(h) == expected and bb.text_files(j) == expected and G.files() == expected:
                    return True
                progress.check()
                return False
            ok = w.wait(same, what=what, idle_s=8, limit_s=kw.get("limit_s", 200))
            H.check_alive()
            J.check_alive()
            if not ok:
                def sizes(f):
                    return {k: len(f[k]) if f[k] != expected.get(k) else "ok" for k in f}
                raise Violated("incomplete", f"{what}: expected {dict((k, len(v)) for k, v in expected.items())}; directories of host {sizes(bb.text_files(h))} "
                                             f"and joiner {sizes(bb.text_files(j))}, peer has {sizes(G.files())}", [H.tail(), J.tail()])
            run.count("files compared", 3 * len(expected))
            run.count("bytes compared", 3 * sum(map(len, expected.values())))
        wait_all("first sync")
        bb.settle(w, H, [J])
        expected = dict(bb.text_files(h))
        wait_all("first change")
        for step in range(rng.randrange(1, 4)):
            if rng.random() < 0.5:
                disturb()
            kind = rng.choice(["burst", "burst", "both", "large", "small"])
            run.log("step", kind)
            run.did(kind)
            hold = chop and rng.random() < 0.4
            if hold:
                chop.held.clear()
            stop = not hold and kind != "both" and rng.random() < 0.2
            if stop:
                run.log("the joiner is stopped for a while")
                run.count("stopped daemons")
                J.p.send_signal(signal.SIGSTOP)
            new = {}

            def put(where, name, text):
                new[name] = text
                if where is G:
                    G.cmd("new", path=name, text=text)
                else:
                    bb.write_files(where.dir, {name: text})
            if kind == "burst":
                # Many messages of some size, one after the other.
                src = rng.choice([H, H, J, G])
                if stop:
                    src = H
                for i in range(rng.choice([10, 40, 130])):
                    put(src, f"burst{step}-{i}", text_of(rng, rng.choice([10, 3000, 6000]), f"<b{step}-{i}>"))
                    time.sleep(rng.choice([0, 0, 0.002, 0.01]))
            elif kind == "both":
                for i in range(rng.randrange(1, 4)):
                    for src in (H, J, G):
                        put(src, f"both{step}-{i}-{src.name if src is not G else 'G'}", text_of(rng, rng.choice(sizes) * 2, f"<c{step}-{i}>"))
            elif kind == "large":
                put(rng.choice([H, G] if stop else [H, J, G]), f"large{step}", text_of(rng, rng.choice([30000, 50000, 70000]), f"<l{step}>"))
            else:
                for i in range(5):
                    put(rng.choice([H, G] if stop else [H, J, G]), f"small{step}-{i}", text_of(rng, rng.choice([0, 10]), f"<s{step}-{i}>"))
            if hold:
                time.sleep(rng.choice([0.2, 1.0]))
                chop.held.set()
            if stop:
                time.sleep(rng.choice([0.5, 2.0]))
                J.p.send_signal(signal.SIGCONT)
            expected.update(new)
            wait_all(f"step {step} ({kind})")
        # Those that were slow get everything as well, once they go on.
        for p in stalled:
            if not p.alive():
                continue
            p.cmd("auto", on=True)
            p.cmd("read", on=True)
            p.cmd("sync")
            progress = Progress("slow peer", lambda: p.dump()["heads"], [("messages for a peer", lambda: p.dump()["messages_in"], 400)])
            if not w.wait(lambda: p.files() == expected or progress.check(), what="slow peer", idle_s=8):
                d = p.dump()
                raise Violated("incomplete", f"a peer that did not read for a while has {len(d['files'])} of {len(expected)} files, connected: {d['connected']}", [H.tail()])
            run.count("slow peers that caught up")
        # And somebody new.
        N = w.peer(secret=SECRET)
        e = N.connect(H)
        if e["ev"] != "stream" or not w.wait(lambda: N.files() == expected, what="new peer", idle_s=8):
            raise Violated("refused", f"in the end, a new peer does not get everything: {e}", [H.tail()])
        for x in closing:
            x.close()
        for x in proxies:
            x.close()


def crowd(run):
    """Many peers that connect at the same time all get everything."""
    rng = run.rng
    with bb.World() as w:
        files = {f"f{i}": text_of(rng, rng.choice([0, 10, 1000]), f"<{i}>") for i in range(rng.randrange(1, 5))}
        h = w.project("h", files)
        H = w.daemon("H", h, port=bb.free_port(), secret=SECRET)
        n = rng.choice([2, 3, 5, 8])
        daemons = rng.random() < 0.5
        run.log(f"{n} {'daemons' if daemons else 'peers'} connect at once")
        run.did([n, daemons, sorted(map(len, files.values()))])
        if daemons:
            js = [w.daemon(f"J{i}", w.project(f"j{i}"), secret=SECRET, peer=H.addr(), wait=False) for i in range(n)]
            ok = w.wait(lambda: all(bb.text_files(J.dir) == files for J in js), what="daemons", idle_s=8)
            state = [bb.text_files(J.dir) == files for J in js]
        else:
            ps = [w.peer(secret=SECRET) for _ in range(n)]
            for p in ps:
                p.dial(H.addr())
            for p in ps:
                e = p.wait_event(("connected", "dial_error"), 60)
                if e["ev"] != "connected":
                    raise Violated("refused", f"one of {n} peers can not connect: {e}", [H.tail()])
            for p in ps:
                p.cmd("open")
            ok = None
            for attempt in range(3):
                ok = w.wait(lambda: all(p.files() == files for p in ps), what="peers", idle_s=3)
                if ok:
                    break
                # Streams that were dropped because of their number are opened again, like daemons do it.
                for p in ps:
                    if p.files() != files:
                        p.cmd("open")
            state = [p.files() == files for p in ps]
        H.check_alive()
        if not ok:
            raise Violated("incomplete", f"not everybody got everything: {state}", [H.tail(3000)])
        run.count("peers at once", n)
        if daemons:
            # Changes of each reach all others.
            for J in js:
                bb.write_files(J.dir, {f"from-{J.name}": J.name})
            want = dict(files, **{f"from-{J.name}": J.name for J in js})
            # Watching starts a moment after the first sync.
            def same():
                return bb.text_files(h) == want and all(bb.text_files(J.dir) == want for J in js)
            if not w.wait(same, what="changes", idle_s=4):
                for J in js:
                    with open(os.path.join(J.dir, f"from-{J.name}"), "a") as f:
                        f.write("!")
                    want[f"from-{J.name}"] += "!"
                if not w.wait(same, what="changes", idle_s=8):
                    raise Violated("incomplete", f"changes do not reach everybody: host has {sorted(bb.text_files(h))}, daemons "
                                                 f"{[len(bb.text_files(J.dir)) for J in js]} of {len(want)} files", [H.tail(3000)])
            run.count("changes that reached everybody", n)
