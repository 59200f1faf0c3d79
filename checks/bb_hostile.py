"""C12, C13: editors and peers that misbehave, next to ones that must not notice."""
import json
import os
import socket
import threading
import time

import bb
from common import Inconclusive, Violated

SECRET = "s"
KEPT = {"g": "kept g\n", "sub/k": "kept k\nä€👩‍🚀\n", "empty": ""}


class Witnesses:
    """A daemon with two editors, a joined daemon and a peer, who exchange changes of the file f all the time."""

    def __init__(self, run, w, joiner=True):
        self.run, self.w, self.rng = run, w, run.rng
        self.h = w.project("h", dict(KEPT, f="f\n", h="hostile\nlines\nhere\n"))
        self.H = w.daemon("H", self.h, port=bb.free_port(), secret=SECRET)
        self.H.check_alive()
        self.G = w.peer(secret=SECRET)
        self.G.connect(self.H)
        self.J = None
        if joiner:
            self.j = w.project("j")
            self.J = w.daemon("J", self.j, secret=SECRET, peer=self.H.addr())
        self.E1 = w.editor(self.H, "E1")
        self.E2 = w.editor(self.H, "E2")
        self.label = 0
        self.written = []
        if not w.wait(lambda: "f" in self.G.files() and (not joiner or "f" in bb.text_files(self.j)), what="first sync"):
            raise Inconclusive("no first sync")
        for e in (self.E1, self.E2):
            r = e.open("f")
            if not r or "error" in r:
                raise Violated("open", f"an ordinary editor can not open a file: {r}", [self.H.tail()])

    def new_label(self, kind):
        self.label += 1
        t = f"<{kind}{self.label}>"
        self.written.append(t)
        return t

    def exchange(self, what):
        """Everybody makes a change, and everybody gets all changes."""
        for kind, e in (("a", self.E1), ("b", self.E2)):
            t = self.new_label(kind)
            n = len(e.text("f"))
            r = e.edit("f", self.rng.choice([0, n]), 0, t) if False else None
            pos = self.rng.choice([0, n])
            r = e.edit("f", pos, pos, t)
            if r is None:
                self.H.check_alive()
                raise Violated("disconnected", f"after {what}: an ordinary editor lost its connection", [self.H.tail()])
            if "error" in r:
                raise Violated("refused", f"after {what}: an ordinary editor's edit was refused: {r}", [self.H.tail()])
        t = self.new_label("g")
        self.G.cmd("splice", path="f", pos=0, text=t, **{"del": 0})

        def same():
            a = self.E1.text("f")
            return (all(a.count(t) == 1 for t in self.written) and self.E2.text("f") == a and self.G.files().get("f") == a
                    and (not self.J or bb.text_files(self.j).get("f") == a))
        ok = self.w.wait(same, what="exchange", idle_s=6)
        self.check(what)
        if not ok:
            raise Violated("disturbed", f"after {what}: editors have {self.E1.text('f')!r} and {self.E2.text('f')!r}, the peer has {self.G.files().get('f')!r}, "
                                        f"the other daemon has {self.J and bb.text_files(self.j).get('f')!r}, expected were {self.written}", [self.H.tail()])
        self.run.count("exchanges")

    def check(self, what):
        self.H.check_alive()
        if self.J:
            self.J.check_alive()
        for where, files in (("directory", bb.text_files(self.h)), ("peer", self.G.files())) + ((("other directory", bb.text_files(self.j)),) if self.J else ()):
            for k, v in KEPT.items():
                if files.get(k) != v:
                    raise Violated("corrupted", f"after {what}: {where} has {files.get(k)!r} in {k} instead of {v!r}", [self.H.tail()])
        self.run.count("files compared", 3 * len(KEPT))
        if self.E1.unexpected or self.E2.unexpected:
            raise Violated("disturbed", f"after {what}: editors got {self.E1.unexpected or self.E2.unexpected}", [self.H.tail()])


# --- editors -------------------------------------------------------------------------------------

def weird_value(rng, depth=0):
    k = rng.randrange(14)
    if k < 3 and depth < 3:
        return [weird_value(rng, depth + 1) for _ in range(rng.randrange(3))]
    if k < 5 and depth < 3:
        return {rng.choice(["uri", "line", "x", "", "range", "start"]): weird_value(rng, depth + 1) for _ in range(rng.randrange(3))}
    return rng.choice([None, True, False, 0, -1, 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 1.5, 1e300, "", "x", "\x00", "file:///", "퟿", "a" * 5000])


def weird_uri(rng, d):
    return rng.choice([
        "", "file://", "file:///", "file:", "http://x/y", "f", "/f", "../f", "file://f", f"file://{d}", f"file://{d}/", f"file://{d}/../h/f",
        f"file://{d}/sub", f"file://{d}/nope/x", f"file://{d}/.ethersync/key", f"file://{d}/.ethersync/doc", f"file://{d}/.git/config",
        f"file://{d}/\x00", f"file://{d}/" + "a" * 300, f"file://{d}/" + "x/" * 3000, f"file://{d}/f/x", f"file://{d}//h", f"file://{d}/./h",
        "file:///etc/passwd", f"file://{d}/new file", f"file://{d}/\n", f"file://{d}/%00", "FILE:///x", "file:///😀", f"file://{d}x/y",
    ])


def weird_pos(rng):
    n = rng.choice([0, 0, 1, 2, 3, 10, 1000, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
    m = rng.choice([0, 0, 1, 2, 3, 10, 1000, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
    return {"line": n, "character": m}


def request(rng, d, n, own):
    """Requests that look right but are not, and some that are."""
    method = rng.choice(["open", "close", "edit", "edit", "edit", "edit", "cursor", "cursor", "nope", ""])
    # f belongs to the others: it is never opened by a hostile editor, so its edits have to be refused.
    target = rng.choice([f"file://{d}/{own}"] * 4 + [f"file://{d}/f", weird_uri(rng, d)])
    if method in ("open", "close") and target == f"file://{d}/f":
        target = f"file://{d}/{own}"
    params = {"uri": target}
    if method == "edit":
        params["revision"] = rng.choice([0, 0, 0, 1, 2, 5, 100, 2 ** 32, 2 ** 64 - 1])
        delta = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 40])):
            if rng.random() < 0.5:
                a, b = weird_pos(rng), weird_pos(rng)
            else:
                a = b = {"line": rng.randrange(3), "character": rng.randrange(4)}
            delta.append({"range": {"start": a, "end": b}, "replacement": rng.choice(["", "x", "\n", "ä€👩‍🚀", "\r\n", "\x00", "z" * 3000])})
        params["delta"] = delta
    if method == "cursor":
        params["ranges"] = [{"start": weird_pos(rng), "end": weird_pos(rng)} for _ in range(rng.choice([0, 1, 1, 3, 200]))]
    if rng.random() < 0.25:
        params[rng.choice(["uri", "revision", "delta", "ranges", "extra"])] = weird_value(rng)
    if rng.random() < 0.1:
        params = weird_value(rng)
    m = {"jsonrpc": "2.0", "id": n, "method": method, "params": params}
    if rng.random() < 0.2:
        m.pop(rng.choice(["jsonrpc", "id", "method", "params"]))
    if rng.random() < 0.1:
        m[rng.choice(["jsonrpc", "id", "method", "params", "result", "error"])] = weird_value(rng)
    return json.dumps(m, ensure_ascii=rng.random() < 0.7).encode("utf-8", "surrogatepass")


def bad_line(rng, d, n, own):
    k = rng.random()
    if k < 0.6:
        return request(rng, d, n, own)
    if k < 0.7:
        x = bytearray(request(rng, d, n, own))
        # f must not become the target of an open by accident.
        for _ in range(rng.randrange(1, 5)):
            if x and f"{d}/f".encode() not in x:
                x[rng.randrange(len(x))] = rng.choice(b"{}[]\",:0x \\\x00\x7f")
        x = bytes(x)
        return x if b"open" not in x else b"{}"
    return rng.choice([
        b"", b" ", b"{}", b"[]", b"null", b"0", b"\"x\"", b"{", b"}", b"[" * 20000, b"{\"a\":" * 5000, b"x" * 200000, b"\x00" * 100, b"\r",
        b"{\"jsonrpc\":\"2.0\"}", b"{\"jsonrpc\":\"2.0\",\"id\":1}", b"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"success\"}",
        b"{\"jsonrpc\":\"2.0\",\"id\":1,\"id\":2,\"method\":\"open\",\"params\":{\"uri\":\"x\",\"uri\":\"y\"}}",
        b"[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"nope\"}]", b"\xef\xbb\xbf{}", "ä€👩‍🚀".encode(), b"\xff\xfe\xfd", b"\xc3", b"\xed\xa0\x80",
        b"Content-Length: 2", b"GET / HTTP/1.1", json.dumps({"jsonrpc": "2.0", "id": n, "method": "edit", "params": [1, 2]}).encode(),
        b"{\"jsonrpc\":\"2.0\",\"id\":" + b"9" * 400 + b",\"method\":\"open\",\"params\":{}}",
    ])


class Hostile:
    def __init__(self, run, w, wit, n):
        self.rng, self.run, self.wit = run.rng, run, wit
        self.own = "h" if n == 0 else f"h{n}"
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(wit.H.socket)
        self.s.settimeout(20)
        self.got = 0
        self.t = threading.Thread(target=self.drain, daemon=True)
        self.t.start()

    def drain(self):
        # It reads: see stalled_editor for one that does not.
        while True:
            try:
                x = self.s.recv(1 << 16)
            except socket.timeout:
                continue
            except OSError:
                return
            if not x:
                return
            self.got += len(x)

    def act(self):
        rng = self.rng
        d = os.path.realpath(self.wit.h)
        kind = rng.choice(["lines", "lines", "lines", "valid", "partial", "burst"])
        try:
            if kind == "valid":
                for m, p in (("open", {}), ("edit", {"revision": 0, "delta": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "v"}]}),
                             ("cursor", {"ranges": [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}]})):
                    p["uri"] = f"file://{d}/{self.own}"
                    self.s.sendall(json.dumps({"jsonrpc": "2.0", "id": rng.randrange(1 << 30), "method": m, "params": p}).encode() + b"\n")
            elif kind == "partial":
                x = bad_line(rng, d, rng.randrange(1 << 30), self.own)
                self.s.sendall(x[:rng.randrange(len(x) + 1)])
                # What follows continues that line.
                self.s.sendall(b"\n" if rng.random() < 0.5 else b"")
            else:
                n = rng.randrange(1, 8) if kind == "lines" else rng.randrange(50, 200)
                lines = [bad_line(rng, d, rng.randrange(1 << 30), self.own) for _ in range(n)]
                if kind == "burst":
                    lines = [x[:3000] for x in lines]
                for x in lines:
                    self.s.sendall(x.replace(b"\n", b"") + b"\n")
                    self.run.count("hostile lines")
            self.run.did([kind, rng.random()])
        except OSError:
            return False        # it was disconnected, that's fine
        return True

    def end(self):
        how = self.rng.choice(["close", "close", "half", "reset", "stay"])
        self.run.log("hostile editor ends:", how)
        try:
            if how == "half":
                self.s.shutdown(socket.SHUT_WR)
            elif how == "reset":
                self.s.shutdown(socket.SHUT_RD)
                self.s.close()
            elif how == "close":
                self.s.shutdown(socket.SHUT_RDWR)
                self.s.close()
        except OSError:
            pass


def hostile_editors(run):
    rng = run.rng
    with bb.World() as w:
        wit = Witnesses(run, w, joiner=rng.random() < 0.3)
        wit.exchange("start")
        for n in range(rng.randrange(1, 4)):
            hs = [Hostile(run, w, wit, k) for k in range(rng.choice([1, 1, 2, 5]))]
            if rng.random() < 0.1:
                # A crowd that only comes and goes.
                crowd = []
                for _ in range(60):
                    s = socket.socket(socket.AF_UNIX)
                    s.connect(wit.H.socket)
                    crowd.append(s)
                for s in crowd:
                    if rng.random() < 0.5:
                        s.close()
                run.count("short connections", 60)
            for step in range(rng.randrange(1, 5)):
                for x in hs:
                    x.act()
                if rng.random() < 0.4:
                    wit.exchange(f"hostile step {n}.{step}")
            for x in hs:
                x.end()
            run.log(f"round {n}: {len(hs)} hostile editors")
            wit.exchange(f"hostile round {n}")
        # New editors are still served.
        e = w.editor(wit.H, "E3")
        r = e.open("g")
        if not r or "error" in r:
            raise Violated("refused", f"in the end, an ordinary editor can not open a file: {r}", [wit.H.tail()])
        wit.exchange("everything")


def stalled_editor(run):
    """An editor that opens a file and then stops reading what it is sent."""
    rng = run.rng
    with bb.World() as w:
        wit = Witnesses(run, w, joiner=False)
        wit.exchange("start")
        s = socket.socket(socket.AF_UNIX)
        s.connect(wit.H.socket)
        d = os.path.realpath(wit.h)
        s.sendall(json.dumps({"jsonrpc": "2.0", "id": 1, "method": "open", "params": {"uri": f"file://{d}/h"}}).encode() + b"\n")
        run.did(["stalled", rng.random()])
        for n in range(12):
            wit.G.cmd("splice", path="h", pos=0, text="x" * 20000 + "\n", **{"del": 0})
        run.log("an editor does not read while 240 kB of changes of its file arrive")
        try:
            wit.exchange("an editor stopped reading")
        except Violated as v:
            raise Violated("not-reading", v.detail, v.trace)
        s.close()


# --- peers ---------------------------------------------------------------------------------------

ODD_KEYS = ["", "/", ".", "..", "../x", "/abs", "a//b", "a/", "./a", "a/./b", "a/../b", "\x00", "a\x00b", "x" * 300, "d/" * 200 + "x", "f/below", "g/below", "sub",
            "new\nline", "ä€👩‍🚀", " ", "~", "x~", ".ethersync/doc", ".ethersync/key", ".git/config", ".ethersync", ".git", "con", "-", "*", "$HOME", "a" * 255, "empty/x",
            "evil", "evil2", "evil/deep/er", "file:///x", "﻿", "sub/evil", "h"]


def scalar(rng):
    return rng.choice([None, True, 0, -1, 2 ** 40, 1.5, "", "text", "x" * 2000, {"counter": 3}, {"timestamp": 5}, {"bytes": "00ff"}])


def hostile_change(run, P, k):
    """Something a daemon would never write. Never touches f and the files in KEPT."""
    rng = run.rng
    key = rng.choice(ODD_KEYS)
    kind = rng.choice(["file", "file", "conflict", "scalar file", "object file", "nested", "text ops", "state", "state", "odd state", "root", "mark", "blocks",
                       "retype", "delete", "churn"])
    run.count(f"change: {kind}")
    run.log("hostile change:", kind, repr(key)[:60])
    run.did([kind, key])
    c = lambda op, **kw: P.cmd(op, **kw)
    mine = f"evil{k}"
    if kind == "file":
        c("new", path=key, text=rng.choice(["", "evil\n", "\x00", "\r\n ", "ä" * 1000]))
    elif kind == "conflict":
        c("conflict", path=key, text="one\n", other="two\n")
        if rng.random() < 0.5:
            c("remove", path=key)
    elif kind == "scalar file":
        c("am", path=["files"], act="put", key=key, value=scalar(rng))
    elif kind == "object file":
        c("am", path=["files"], act="put_object", key=key, value=rng.choice(["map", "list", "table"]))
    elif kind == "nested":
        c("am", path=["files"], act="put_object", key=mine, value="map")
        c("am", path=["files", mine], act="put_object", key="inner", value="text")
        c("am", path=["files", mine, "inner"], act="splice", key=0, value="deep")
        c("am", path=["files", mine], act="put", key="x", value=scalar(rng))
    elif kind == "text ops":
        c("new", path=mine, text="some text\n")
        for _ in range(3):
            c("splice", path=mine, pos=rng.randrange(5), text=rng.choice(["", "y", "\n", "👩‍🚀"]), **{"del": rng.randrange(3)})
        c("am", path=["files", mine], act="put", key=rng.randrange(3), value=scalar(rng))
        c("am", path=["files", mine], act="insert", key=rng.randrange(3), value=scalar(rng))
        c("am", path=["files", mine], act="delete", key=0)
    elif kind == "mark":
        c("new", path=mine, text="some text\n")
        c("am", path=["files", mine], act="mark", key=1, end=3)
    elif kind == "blocks":
        c("new", path=mine, text="some text\n")
        c("am", path=["files", mine], act="insert_object", key=2, value=rng.choice(["map", "text", "list"]))
    elif kind == "state":
        cur = {"cursor_id": rng.choice(["", "x", "evil", "0", "ä"]), "name": rng.choice([None, "n", "x" * 1000]),
               "file_path": rng.choice(["f", "g", "nope", "../x", "/etc/passwd", "", ".ethersync/key", "a\x00"]),
               "ranges": [{"start": weird_pos(rng), "end": weird_pos(rng)} for _ in range(rng.randrange(3))]}
        if rng.random() < 0.3:
            cur[rng.choice(list(cur))] = weird_value(rng)
        if rng.random() < 0.2:
            cur.pop(rng.choice(list(cur)))
        c("am", path=["states"], act="put_object", key=mine, value="text")
        c("am", path=["states", mine], act="splice", key=0, value=json.dumps(cur))
        if rng.random() < 0.3:
            c("am", path=["states", mine], act="splice", key=rng.choice([0, 1, 5]), value=rng.choice(["{", "}", "x"]), **{"del": rng.choice([0, 1])})
    elif kind == "odd state":
        if rng.random() < 0.5:
            c("am", path=["states"], act="put", key=rng.choice(["", mine]), value=scalar(rng))
        else:
            c("am", path=["states"], act="put_object", key=mine, value=rng.choice(["map", "list", "text"]))
            c("am", path=["states", mine], act="put", key=rng.choice(["x", 0]), value=scalar(rng))
    elif kind == "root":
        c("am", path=[], act=rng.choice(["put"]), key=rng.choice(["other", "", "Files", "cursors"]), value=scalar(rng))
        c("am", path=[], act="put_object", key=f"o{k}", value=rng.choice(["map", "list", "text", "table"]))
        c("am", path=[f"o{k}"], act="put", key="x", value=scalar(rng))
        c("am", path=[f"o{k}"], act="splice", key=0, value="text")
        c("am", path=[f"o{k}"], act="insert", key=0, value=1)
    elif kind == "retype":
        c("new", path=mine, text="text\n")
        c("am", path=["files"], act="put", key=mine, value=scalar(rng))
        c("am", path=["files"], act="put_object", key=mine, value=rng.choice(["map", "text", "list"]))
        c("am", path=["files"], act="put", key=mine, value={"counter": 1})
        c("am", path=["files"], act="increment", key=mine, value=1)
    elif kind == "delete":
        c("new", path=key, text="short-lived\n")
        c("remove", path=key)
        c("am", path=["states"], act="delete", key=mine)
    elif kind == "churn":
        for _ in range(20):
            c("new", path=mine, text="x")
            c("remove", path=mine)


def hostile_bytes(run, P):
    rng = run.rng
    kind = rng.choice(["mutate"] * 6 + ["raw", "frame", "huge", "zero", "half"])
    run.count(f"bytes: {kind}")
    run.log("hostile bytes:", kind)
    run.did([kind, rng.random()])
    if kind == "mutate":
        P.cmd("auto", on=False)
        P.cmd("new", path=f"mut{rng.randrange(9)}", text="mutated " + "x" * rng.randrange(400))
        for _ in range(rng.randrange(1, 4)):
            P.cmd("mutate", seed=rng.randrange(1 << 30))
        P.cmd("auto", on=True)
    elif kind == "raw":
        P.cmd("raw", hex=bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 4, 5, 100, 5000]))).hex())
    elif kind == "frame":
        P.cmd("frame", hex=bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 100, 3000]))).hex())
    elif kind == "huge":
        P.cmd("raw", hex=rng.choice(["ffffffff", "7fffffff00", "80000000ff"]))
    elif kind == "zero":
        P.cmd("raw", hex="00000000" * rng.choice([1, 5, 2000]))
    else:
        P.cmd("raw", hex="0000ffff" + "42" * 100)


def hostile_peers(run):
    rng = run.rng
    with bb.World() as w:
        wit = Witnesses(run, w, joiner=rng.random() < 0.6)
        wit.exchange("start")
        for n in range(rng.randrange(1, 4)):
            P = w.peer(secret=SECRET)
            e = P.connect(wit.H)
            if e["ev"] != "stream":
                raise Violated("refused", f"a peer can not connect: {e}", [wit.H.tail()])
            # It knows the project before it starts.
            if not w.wait(lambda: "f" in P.files(), what="sync of the hostile peer"):
                raise Violated("refused", "a peer does not get the content", [wit.H.tail()])
            batch = rng.random() < 0.3
            if batch:
                P.cmd("auto", on=False)
            for k in range(rng.randrange(1, 8)):
                hostile_change(run, P, f"{n}-{k}")
                if rng.random() < 0.15:
                    wit.exchange(f"hostile change {n}.{k}")
            if batch:
                P.cmd("auto", on=True)
                P.cmd("sync")
            if rng.random() < 0.7:
                # Let it arrive before the connection gets unusable.
                wit.exchange(f"hostile changes {n}")
                if rng.random() < 0.6:
                    hostile_bytes(run, P)
            how = rng.choice(["stay", "disconnect", "kill"])
            if how == "disconnect":
                P.cmd("disconnect")
            elif how == "kill":
                P.p.kill()
            wit.exchange(f"hostile round {n}")
        # What was shared is also what the next start has to cope with.
        if rng.random() < 0.5:
            wit.E1.close_file("f")
            wit.E2.close_file("f")
            before = wit.G.files().get("f")
            if not w.wait(lambda: bb.text_files(wit.h).get("f") == before, what="f on disk"):
                raise Violated("disturbed", "f is not written when it is closed", [wit.H.tail()])
            wit.H.stop()
            wit.G.cmd("disconnect")
            wit.E1.disconnect()
            wit.E2.disconnect()
            wit.H = w.daemon("H2", wit.h, port=wit.H.port, secret=SECRET)
            if not wit.H.alive():
                raise Violated("no-restart", f"the daemon does not start any more: {wit.H.tail()}")
            wit.G.connect(wit.H)
            wit.J = None
            wit.E1, wit.E2 = w.editor(wit.H, "E1"), w.editor(wit.H, "E2")
            for e in (wit.E1, wit.E2):
                r = e.open("f")
                if not r or "error" in r:
                    raise Violated("no-restart", f"after the restart, an editor can not open a file: {r}", [wit.H.tail()])
            wit.exchange("the restart")
            run.count("restarts with hostile content")
        elif rng.random() < 0.4:
            # The worst at the end: the whole structure goes away.
            P = w.peer(secret=SECRET)
            P.connect(wit.H)
            w.wait(lambda: "f" in P.files(), what="sync of the hostile peer")
            kind = rng.choice(["files scalar", "files text", "files gone", "states gone", "states scalar", "both gone", "files list"])
            run.log("hostile structure:", kind)
            run.did(kind)
            run.count("structures destroyed")
            for name in ("files", "states"):
                if kind.startswith(name) or kind.startswith("both"):
                    if kind.endswith("gone"):
                        P.cmd("am", path=[], act="delete", key=name)
                    elif kind.endswith("scalar"):
                        P.cmd("am", path=[], act="put", key=name, value=scalar(rng))
                    else:
                        P.cmd("am", path=[], act="put_object", key=name, value=kind.split()[1])
            e = w.editor(wit.H, "E4")
            r = e.open("afterwards")
            wit.H.check_alive()
            if r and "error" not in r:
                e.edit("afterwards", 0, 0, "still here")
                e.cursor("afterwards", [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}])
            e.disconnect()
            bb.write_files(wit.h, {"outside": "written\n"})
            P.cmd("new", path="later", text="x")
            time.sleep(0.3)
            w.wait(lambda: False, what="idle", idle_s=1.0)
            wit.H.check_alive()
            if wit.J:
                wit.J.check_alive()
