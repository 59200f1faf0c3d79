"""C19: `ethersync client` between an editor's pipes and a socket that both belong to the test."""
import json
import os
import select
import socket
import subprocess
import threading
import time

import bb
from common import Inconclusive, Violated, clean_env

CHARS = ["a", "Z", " ", "0", "\"", "\\", "{", "}", ":", "Content-Length: 7", "Content-Length: ", "ä", "ß", "€", " ", "\u0085",
         " ", "日本", "👩‍🚀", "𝄞", "é", "﻿", "\x7f", "\\r\\n\\r\\n", "\\n\\n"]


def message(rng, n):
    """A single line, mostly JSON."""
    size = rng.choice([0, 1, 3, 10, 30, 100, 300, 1000, 4090, 8190, 8192, 20000, 70000, 200000]) if rng.random() < 0.7 else rng.randrange(0, 600)
    if size > 2000:
        unit = "".join(rng.choice(CHARS) for _ in range(40))
        text = (unit * (size // len(unit) + 1))[:size]
    else:
        text = "".join(rng.choice(CHARS) for _ in range(size))
    kind = rng.random()
    if kind < 0.6:
        return json.dumps({"jsonrpc": "2.0", "id": n, "method": "x", "params": text}, ensure_ascii=rng.random() < 0.2)
    if kind < 0.9:
        return f"<{n}>" + text + f"<{n}/>"
    return "{}" if kind < 0.95 else f"{n}"


def cut(rng, data):
    """The same bytes in pieces: whole, small, single bytes, or at the most awkward places."""
    how = rng.choice(["whole", "whole", "some", "many", "bytes", "awkward"])
    if how == "bytes" and len(data) > 3000:
        how = "many"
    if how == "whole":
        return how, [data]
    if how == "bytes":
        return how, [data[i:i + 1] for i in range(len(data))]
    if how == "awkward":
        marks = []
        i = 0
        while len(marks) < 200:
            i = data.find(b"\n", i)
            if i < 0:
                break
            marks += [i, i + 1]
            i += 1
        points = sorted(set(marks))
    else:
        points = sorted(rng.randrange(0, len(data) + 1) for _ in range(rng.randrange(1, 6) if how == "some" else rng.randrange(6, 200)))
    res, last = [], 0
    for p in points + [len(data)]:
        if p > last:
            res.append(data[last:p])
            last = p
    return how, res


class Proc:
    def __init__(self, p):
        self.p, self.pid = p, p.pid


def client(run):
    rng = run.rng
    with bb.World() as w:
        name = "mock"
        path = os.path.join(w.run, name)
        lst = socket.socket(socket.AF_UNIX)
        env = clean_env(XDG_RUNTIME_DIR=w.run, RUST_BACKTRACE="0", NO_COLOR="1", USER="verif", HOME=w.home)
        env.pop("ETHERSYNC_SOCKET", None)
        cmd = [bb.BIN, "client"]
        if rng.random() < 0.5:
            cmd += ["--socket-name", name]
        else:
            env["ETHERSYNC_SOCKET"] = name
        lst.bind(path)
        lst.listen(1)
        lst.settimeout(60)
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, bufsize=0)
        bb._running.append(p)
        proc = Proc(p)
        w.procs.append(proc)
        try:
            conn, _ = lst.accept()
        except socket.timeout:
            raise Inconclusive("the client did not connect") if p.poll() is None else Violated("no-connection", f"the client ended: {p.stderr.read()[:500]!r}")
        conn.settimeout(None)

        up = [message(rng, i) for i in range(rng.choice([0, 1, 2, 5, 20, 60]))]
        down = [message(rng, 1000 + i) for i in range(rng.choice([0, 1, 2, 5, 20, 60]))]
        if not up and not down:
            up = [message(rng, 0)]
        frames = []
        for m in up:
            b = m.encode()
            style = rng.choice(["plain", "plain", "plain", "type after", "type before"])
            if style == "plain":
                h = f"Content-Length: {len(b)}\r\n\r\n"
            elif style == "type after":
                h = f"Content-Length: {len(b)}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"
            else:
                h = f"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {len(b)}\r\n\r\n"
            frames.append(h.encode() + b)
        newlines = rng.random() < 0.1
        if newlines:
            # For manual testing. Not valid according to the specification, so not mixed with valid headers.
            frames = [f"Content-Length: {len(m.encode())}\n\n".encode() + m.encode() for m in up]
        how_up, up_pieces = cut(rng, b"".join(frames))
        how_down, down_pieces = cut(rng, "".join(m + "\n" for m in down).encode())
        delay = rng.choice([0, 0, 0, 0.0005, 0.003])
        slow = rng.choice([0, 0, 0.02])
        end = rng.choice(["stdin", "socket", "socket half", "stdin partial"])
        run.log(f"{len(up)} messages to the socket ({how_up}, {len(up_pieces)} pieces), {len(down)} from it ({how_down}, {len(down_pieces)} pieces), end: {end}")
        run.did([len(up), len(down), how_up, len(up_pieces), how_down, len(down_pieces), end, sum(map(len, up)), sum(map(len, down))])

        got_up, got_down = bytearray(), bytearray()
        eof = {"up": False, "down": False}

        def reader(read, buf, key):
            while True:
                if slow:
                    time.sleep(slow)
                try:
                    d = read(65536)
                except OSError:
                    d = b""
                if not d:
                    break
                buf.extend(d)
            eof[key] = True

        def writer(write, pieces):
            n = 0
            for x in pieces:
                try:
                    write(x)
                except OSError:
                    return
                n += 1
                if delay and n < 400:
                    time.sleep(delay)

        def write_all(x):
            v = memoryview(x)
            while v:
                v = v[p.stdin.write(v):]
        threads = [threading.Thread(target=reader, args=(conn.recv, got_up, "up"), daemon=True),
                   threading.Thread(target=reader, args=(lambda n: os.read(p.stdout.fileno(), n), got_down, "down"), daemon=True)]
        writers = [threading.Thread(target=writer, args=(write_all, up_pieces), daemon=True),
                   threading.Thread(target=writer, args=(conn.sendall, down_pieces), daemon=True)]
        for t in threads + writers:
            t.start()
        expect_up = "".join(m + "\n" for m in up).encode()
        expect_down = b"".join(b"Content-Length: %d\r\n\r\n" % len(m.encode()) + m.encode() for m in down)
        # Which direction has to be complete although it is closed right after writing?
        early = rng.random() < 0.6

        def ready(f, event):
            q = select.poll()
            q.register(f, event)
            return bool(q.poll(0))

        def wait(pred, idle_s, what):
            """Like wait_for, but it is not the client's fault when the test does not get to read or write."""
            for _ in range(8):
                if bb.wait_for(pred, [proc], idle_s=idle_s, what=what):
                    return True
                mine = [(writers[0], p.stdin, select.POLLOUT), (writers[1], conn, select.POLLOUT),
                        (threads[0], conn, select.POLLIN), (threads[1], p.stdout, select.POLLIN)]
                if not any(t.is_alive() and not f_closed(f) and ready(f, e) for t, f, e in mine):
                    # What was read just now may be what was missing.
                    time.sleep(0.5)
                    return bool(pred())
            raise Inconclusive("the test itself does not get to read and write")

        def f_closed(f):
            return f.fileno() < 0
        if not early:
            if not wait(lambda: len(got_up) >= len(expect_up) and len(got_down) >= len(expect_down), 4 + slow * 10, "messages"):
                if any(t.is_alive() for t in writers):
                    raise Violated("stuck", "the client does not take the messages it is given")
            run.count("closed after everything had arrived")
        else:
            which = 0 if end.startswith("stdin") else 1
            if not wait(lambda: not writers[which].is_alive(), 8, "writing"):
                raise Violated("stuck", "the client does not take the messages it is given")
            run.count("closed right after writing")
        if end == "stdin partial":
            rest = b"Content-Len" if newlines else rng.choice([b"Content-Len", b"Content-Length: 10\r\n\r\n{\"a\"", b"Content-Length: 4\r\n", b"\xff\xfe"])
            try:
                write_all(rest)
            except OSError:
                pass
        if end.startswith("stdin"):
            p.stdin.close()
        elif end == "socket":
            # Without this, unread data would make it a reset.
            if early:
                conn.shutdown(socket.SHUT_WR)
            else:
                conn.shutdown(socket.SHUT_RDWR)
        else:
            conn.shutdown(socket.SHUT_WR)
        if not wait(lambda: p.poll() is not None, 5, "exit"):
            raise Violated("no-exit", f"the client keeps running after its {end} was closed")
        if not bb.wait_for(lambda: eof["up"] and eof["down"], [], idle_s=20, what="end of both streams"):
            raise Inconclusive("streams not closed after exit")

        def compare(what, expected, got, complete):
            g = bytes(got)
            if not expected.startswith(g) or (complete and g != expected):
                k = next((i for i, (x, y) in enumerate(zip(expected, g)) if x != y), min(len(expected), len(g)))
                raise Violated("changed", f"{what}: after {k} bytes expected {expected[k:k + 60]!r} but got {g[k:k + 60]!r} "
                                          f"({len(expected)} bytes expected, {len(g)} arrived)")
            run.count(f"messages {what} compared", g.count(b"\n") if what.startswith("to") else len(down) if complete else 0)
            run.count(f"bytes {what} compared", len(g))
        compare("to the socket", expect_up, got_up, not early or end.startswith("stdin"))
        # When stdin closes, what is on its way to stdout can be cut off.
        compare("to stdout", expect_down, got_down, not early or end.startswith("socket"))
