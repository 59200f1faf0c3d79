"""Requests and cursors of editors that are connected to real daemons."""
import json
import os
import socket
import time

import bb
import bb_transport
from common import Inconclusive, Violated

WORDS = ["a", "foo", " ", "\n", "ä", "日本", "👩‍🚀", "\t", "\"", "\\", "\x01", "\x7f", " "]


class Raw:
    """An editor that writes whatever it is told to, and records all answers in order."""

    def __init__(self, daemon):
        self.e = bb.Editor(daemon, "raw")
        self.expected = []      # (what, allowed ids, ok)

    def answers(self):
        with self.e.lock:
            return list(self.e.order)


def send(rng, raw, data):
    """Lines in one or several pieces."""
    if rng.random() < 0.6 or len(data) < 2:
        raw.e.send_raw(data)
        return
    cuts = sorted(rng.randrange(1, len(data)) for _ in range(rng.choice([1, 2, 5, 30])))
    last = 0
    for c in cuts + [len(data)]:
        if c > last:
            raw.e.send_raw(data[last:c])
            last = c
            if rng.random() < 0.2:
                time.sleep(rng.choice([0.0005, 0.005]))


GARBAGE = ["", " ", "{}", "[]", "null", "1", "\"x\"", "{", "}", "{\"jsonrpc\":\"2.0\"}", "{\"id\":7}", "hello", "{\"jsonrpc\":\"2.0\",\"id\":%d}",
           "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"explode\",\"params\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"open\"}",
           "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"open\",\"params\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"open\",\"params\":[]}",
           "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"edit\",\"params\":{\"uri\":\"file:///x\"}}", "Content-Length: 3", "﻿", "{\"id\":%d,\"method\":\"open\",\"params\":{\"uri\":7}}",
           "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"edit\",\"params\":{\"uri\":\"file:///x\",\"revision\":-1,\"delta\":[]}}", "[" * 300]


def requests(run):
    rng = run.rng
    with bb.World() as w:
        files = {"f": "one\ntwo\nthree\n", "g": "", "sub/h": "ä\n👩‍🚀", ".hidden": "x\n"}
        d = w.project("a", files)
        daemon = w.daemon("A", d, port=bb.free_port(), secret="s")
        leaf = w.peer(secret="s")
        if leaf.connect(daemon)["ev"] != "stream":
            raise Inconclusive("the test peer cannot connect")
        viewer = w.editor(daemon, "viewer")
        view = rng.choice([None, "f", "g", "sub/h"])
        if view and "error" in (viewer.open(view) or {"error": 1}):
            raise Inconclusive("the other editor cannot open a file")
        raw = Raw(daemon)
        texts = dict(files)
        disk = dict(files)
        opened = {}
        used = set()

        def new_id():
            while True:
                i = rng.choice([rng.randrange(0, 50), rng.randrange(0, 1 << 16), rng.randrange(1 << 15, 1 << 17), rng.randrange(0, 1 << 32),
                                rng.randrange(1 << 31, 1 << 33), rng.randrange(1 << 52, 1 << 53), (1 << 53) - 1, 0, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32])
                if i not in used:
                    used.add(i)
                    return i

        def word():
            return "".join(rng.choice(WORDS) for _ in range(rng.randrange(0, 5)))

        def request(method, params, ok, note=False):
            m = {"jsonrpc": "2.0", "method": method, "params": params}
            if not note:
                m["id"] = new_id()
                raw.expected.append((f"{method} {str(params)[-150:]}", {m["id"]}, ok))
            items = list(m.items())
            rng.shuffle(items)
            line = json.dumps(dict(items), ensure_ascii=rng.random() < 0.5)
            run.log(("note " if note else "") + line[:250] + (f" ({len(line)} characters)" if len(line) > 250 else ""))
            run.did((method, ok, note, len(line)))
            return line.encode() + b"\n"

        def uri(n):
            return "file://" + os.path.join(os.path.realpath(d), n)

        for _ in range(rng.choice([1, 2, 4])):
            data = b""
            for _ in range(rng.choice([1, 5, 20, 60])):
                k = rng.random()
                note = rng.random() < 0.15
                names = sorted(files)
                if k < 0.12:
                    n = rng.choice(names)
                    if n in opened:
                        continue
                    data += request("open", {"uri": uri(n)}, True, note)
                    opened[n] = 0
                elif k < 0.5:
                    if not opened:
                        continue
                    n = rng.choice(sorted(opened))
                    t = texts[n]
                    a = rng.randrange(len(t) + 1)
                    b = min(len(t), a + rng.choice([0, 0, 1, 3]))
                    r = word()
                    if rng.random() < 0.02 and len(t) < 3000:
                        # Control characters need six characters each.
                        r = "\x01" * rng.choice([2000, 12000, 15000])
                        run.count("lines of more than 64 KiB" if len(r) > 11000 else "lines of more than 8 KiB")
                    data += request("edit", {"uri": uri(n), "revision": 0, "delta": [
                        {"range": {"start": bb.position(t, a), "end": bb.position(t, b)}, "replacement": r}]}, True, note)
                    texts[n] = t[:a] + r + t[b:]
                    run.count("edits")
                elif k < 0.6:
                    n = rng.choice(names)
                    lines = texts[n].split("\n")
                    far = rng.choice([{"line": len(lines) + rng.choice([0, 1, 1000]), "character": rng.choice([1, 5])},
                                      {"line": len(lines) - 1, "character": len(lines[-1]) + rng.choice([1, 2, 100000])},
                                      {"line": 0, "character": len(lines[0]) + rng.choice([2, 3, 1 << 31])}])
                    start = rng.choice([{"line": 0, "character": 0}, far])
                    data += request("edit", {"uri": uri(n), "revision": 0, "delta": [{"range": {"start": start, "end": far}, "replacement": word()}]}, False, note)
                    run.count("edits outside of the text or of files not open")
                elif k < 0.66:
                    n = rng.choice([x for x in names if x not in opened] or ["nothing"])
                    data += request("edit", {"uri": uri(n), "revision": 0, "delta": [
                        {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "no"}]}, False, note)
                    run.count("edits of files not open")
                elif k < 0.7 and opened:
                    n = rng.choice(sorted(opened))
                    data += request("edit", {"uri": uri(n), "revision": rng.choice([1, 2, 1000, 1 << 40]), "delta": []}, False, note)
                    run.count("edits with an impossible revision")
                elif k < 0.76:
                    u = rng.choice(["http://example.org/f", "f", "", "file://relative", "file:///etc/hostname", "file:///nowhere/f", uri("../b/f"), "file://" + os.path.dirname(os.path.realpath(d)), uri("sub"),
                                    uri("missing/f")])
                    data += request("open", {"uri": u}, False, note)
                    run.count("files that cannot be opened")
                elif k < 0.84:
                    n = rng.choice(names)
                    data += request("cursor", {"uri": uri(n), "ranges": [{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": rng.randrange(3)}}]}, True, note)
                elif k < 0.88 and set(opened) - {view}:
                    # What the other editor has open would be outdated on disk when opened again.
                    n = rng.choice(sorted(set(opened) - {view}))
                    data += request("close", {"uri": uri(n)}, True, note)
                    opened.pop(n)
                    disk[n] = texts[n]
                else:
                    g = rng.choice(GARBAGE)
                    i = new_id()
                    if "%d" in g:
                        g = g % i
                    raw.expected.append((g[:100], {None, i} if str(i) in g else {None}, False))
                    data += g.encode() + b"\n"
                    run.log(f"garbage {g[:100]!r}")
                    run.count("lines that are no requests")
                if rng.random() < 0.3:
                    send(rng, raw, data)
                    data = b""
            send(rng, raw, data)
            bb.wait_for(lambda: len(raw.answers()) >= len(raw.expected) or raw.e.closed, [daemon], what="answers")
            daemon.check_alive("crash")
            if raw.e.closed:
                raise Violated("closed", "the daemon closed the connection of an editor that only sent lines of text", [daemon.tail()])
            got = raw.answers()
            for k, (what, ids, ok) in enumerate(raw.expected):
                if k >= len(got):
                    raise Violated("missing", f"answer {k} of {len(raw.expected)} is missing, to {what}; the last ones are {got[-5:]}", [daemon.tail()])
                if got[k] not in ids:
                    raise Violated("order", f"answer {k} has the id {got[k]}, but belongs to {what} with id {ids}; answers {got[max(0, k - 3):k + 4]}, expected {[sorted(map(str, e[1])) for e in raw.expected[max(0, k - 3):k + 4]]}", [daemon.tail()])
            # Which answer was it? Those without an id all look alike.
            seen = {}
            for k, (what, ids, ok) in enumerate(raw.expected):
                i = got[k]
                m = raw.e.responses[i][seen.get(i, 0)]
                seen[i] = seen.get(i, 0) + 1
                if ("error" in m) == ok or ("result" in m) != ok or m.get("jsonrpc") != "2.0":
                    raise Violated("kind", f"{what} should {'succeed' if ok else 'be refused'}, the answer is {m}", [daemon.tail()])
            if len(got) > len(raw.expected):
                raise Violated("extra", f"there are {len(got)} answers to {len(raw.expected)} requests, the last one is {got[-1]}", [daemon.tail()])
            run.count("answers compared", len(got))
            s = bb.settle(w, daemon, [leaf])
            if s is None:
                daemon.check_alive("crash")
                raise Inconclusive("a process ended")

            def fine():
                have = {n: t for n, t in leaf.files().items() if not n.startswith("sentinel")}
                if view and viewer.text(view) != texts[view]:
                    return False
                return have == texts and {n: t for n, t in bb.text_files(d).items() if n not in opened and n != view and not n.startswith("sentinel")} == {n: t for n, t in disk.items() if n not in opened and n != view}
            if not w.wait(fine, what="content"):
                have = {n: t for n, t in leaf.files().items() if not n.startswith("sentinel")}
                raise Violated("effect", f"shared is {str(have)[:800]}, should be {str(texts)[:800]}; on disk {str(bb.text_files(d))[:600]}; "
                                         f"another editor shows {view}: {str(viewer.text(view))[:300] if view else None!r}", [daemon.tail()])
            if len(raw.answers()) > len(raw.expected):
                raise Violated("extra", f"there are {len(raw.answers())} answers to {len(raw.expected)} requests", [daemon.tail()])
            run.count("contents compared")


class Author:
    def __init__(self, side, editor):
        self.side, self.e = side, editor
        self.sent = []          # (file, ranges) in order
        self.gone = False
        self.since = {}         # author -> number of their updates before this one was there
        self.messages = []      # cursor messages in order


def cursors(run):
    rng = run.rng
    with bb.World() as w:
        files = {"f": "one\ntwo\n", "sub/g": "x", "with space": "", "h%20": "ä"}
        da, db = w.project("a", files), w.project("b")
        port = bb.free_port()
        a = w.daemon("A", da, port=port, secret="s")
        proxy = bb_transport.Chopper(bb.free_port(), port, 1 << 16, 0)
        try:
            b = w.daemon("B", db, port=bb.free_port(), peer=proxy.addr(), secret="s")
            for x, y in ((a, b), (b, a)):
                if bb.settle(w, x, [y]) is None:
                    for z in (a, b):
                        z.check_alive("crash")
            run_cursors(run, w, rng, a, b, proxy, sorted(files))
        finally:
            proxy.close()


def run_cursors(run, w, rng, a, b, proxy, names):
    authors = []
    counter = [0]

    def arrive():
        side = rng.choice([a, b])
        e = w.editor(side, f"e{len(authors)}")
        x = Author(side, e)
        old = e._handle

        def handle(m):
            if m.get("method") == "cursor":
                x.messages.append(m["params"])
            old(m)
        e._handle = handle
        # From its first answer on, the daemon knows it.
        r = e.open(rng.choice(names))
        if r is None or "error" in r:
            side.check_alive("crash")
            raise Inconclusive(f"a file could not be opened: {r}")
        x.since = {id(o): len(o.sent) for o in authors}
        authors.append(x)
        run.log(f"editor {len(authors) - 1} arrives at {side.name}")
        run.did(("arrive", side.name))
        run.count("editors")

    def update(x):
        counter[0] += 1
        ranges = []
        for k in range(rng.choice([1, 1, 1, 2, 5])):
            # The number makes it recognizable.
            p = {"line": counter[0], "character": rng.choice([0, 1, 7, 100000])}
            q = rng.choice([p, {"line": counter[0] + 1 + k, "character": 3}, {"line": 0, "character": 2}])
            ranges.append({"start": p, "end": q})
        name = rng.choice(names)
        params = {"uri": x.e.uri(name), "ranges": ranges}
        if rng.random() < 0.5:
            r = x.e.request("cursor", params)
            if r is None or "error" in r:
                x.side.check_alive("crash")
                raise Violated("cursor", f"a cursor update was refused: {r}", [x.side.tail()])
        else:
            with x.e.lock:
                x.e.send_raw(json.dumps({"jsonrpc": "2.0", "method": "cursor", "params": params}).encode() + b"\n")
        x.sent.append((name, ranges))
        run.did(("cursor", authors.index(x), name, len(ranges)))
        run.log(f"editor {authors.index(x)}: cursor {name} {ranges}")
        run.count("cursor updates")

    def leave(x):
        how = rng.choice(["close", "half", "partial", "reset"])
        x.gone = True
        run.log(f"editor {authors.index(x)} leaves ({how})")
        run.did(("leave", authors.index(x), how))
        run.count("editors left")
        s = x.e.s
        try:
            if how == "partial":
                s.sendall(b"{\"jsonrpc\": \"2.0\", \"method\": \"cur")
            if how == "half":
                s.shutdown(socket.SHUT_WR)
            elif how == "reset":
                # Wakes up our own thread that reads, otherwise closing has no effect.
                s.shutdown(socket.SHUT_RD)
                s.close()
            else:
                s.shutdown(socket.SHUT_RDWR)
                s.close()
        except OSError:
            pass

    def here():
        return [x for x in authors if not x.gone]

    for _ in range(rng.choice([2, 3, 4])):
        arrive()
    held = False
    for _ in range(rng.choice([5, 15, 40])):
        k = rng.random()
        if k < 0.06 and len(here()) < 6:
            arrive()
        elif k < 0.14 and len(here()) > 1:
            x = rng.choice(here())
            # What it sent has to arrive before its end does.
            leave(x)
        elif k < 0.2:
            held = not held
            (proxy.held.clear if held else proxy.held.set)()
            run.log("the connection is held back" if held else "the connection continues")
        elif here():
            update(rng.choice(here()))
    proxy.held.set()

    def token(m):
        return m["ranges"][0]["start"]["line"] if m["ranges"] else None

    by_token = {r[1][0]["start"]["line"]: (x, k) for x in authors for k, r in enumerate(x.sent)}

    def problems():
        ids = {}
        res = []
        for n, x in enumerate(authors):
            if x.gone:
                continue
            last = {}
            with x.e.lock:
                messages = list(x.messages)
            for m in messages:
                t = token(m)
                if t is None:
                    last[m["userid"]] = m
                    continue
                if t not in by_token:
                    return [("cursor", f"editor {n} got a cursor nobody sent: {m}")], True
                y, k = by_token[t]
                if y is x:
                    return [("own", f"editor {n} got its own cursor back: {m}")], True
                if y.sent[k][1] != m["ranges"] or m["uri"] != x.e.uri(y.sent[k][0]):
                    return [("cursor", f"editor {n} got {m}, but {y.sent[k]} was sent")], True
                if ids.setdefault(m["userid"], y) is not y:
                    return [("shared-id", f"two editors have the user id {m['userid']}")], True
                last[m["userid"]] = m
            for y in authors:
                if y is x or not y.sent or id(y) in x.since and x.since[id(y)] >= len(y.sent) and not any(ids.get(u) is y for u in last):
                    continue
                uids = [u for u in last if ids.get(u) is y]
                if len(uids) > 1:
                    return [("several-ids", f"editor {authors.index(y)} appears as {uids}")], True
                view = last[uids[0]] if uids else None
                if y.gone:
                    if view is not None and view["ranges"]:
                        res.append(("stays", f"editor {n} still sees the cursor of editor {authors.index(y)}, who left: {view}"))
                elif view is None or view["ranges"] != y.sent[-1][1]:
                    res.append(("latest", f"editor {n} sees {view} as the cursor of editor {authors.index(y)}, which is {y.sent[-1]}"))
                # On the same computer, nothing is left out.
                if y.side is x.side:
                    seen = [by_token[token(m)][1] for m in messages if m["ranges"] and by_token[token(m)][0] is y]
                    # It can also get what was still on its way when it arrived.
                    want = list(range(min(seen + [x.since.get(id(y), 0)]), len(y.sent)))
                    if seen != want and not y.gone:
                        res.append(("missed", f"editor {n} got the updates {seen} of editor {authors.index(y)}, should be {want}"))
        return res, False
    for x, y in ((a, b), (b, a)):
        if bb.settle(w, x, [y]) is None:
            for z in (a, b):
                z.check_alive("crash")
            raise Inconclusive("a daemon ended")
    state = [None]

    def fine():
        state[0] = problems()
        return not state[0][0] or state[0][1]
    w.wait(fine, what="cursors")
    for z in (a, b):
        z.check_alive("crash")
    if state[0][0]:
        k, d = state[0][0][0]
        raise Violated(k, d, [a.tail(), b.tail()])
    run.count("views compared", len(here()) * (len(authors) - 1))
    run.count("cursor messages received", sum(len(x.messages) for x in authors))
    for x in authors:
        if x.e.unexpected:
            raise Violated("cursor", f"{x.e.unexpected[:2]}")
