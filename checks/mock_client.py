#!/usr/bin/env python3
"""Stand-in for `ethersync client`: stdin/stdout with Content-Length headers on one side, lines on a socket on the other."""
import os
import socket
import sys
import threading

assert sys.argv[1:] == ["client"], sys.argv
s = socket.socket(socket.AF_UNIX)
s.connect(os.environ["VERIF_MOCK_SOCKET"])


def down():
    buf = b""
    while True:
        d = s.recv(1 << 16)
        if not d:
            os._exit(0)
        buf += d
        while b"\n" in buf:
            line, buf = buf.split(b"\n", 1)
            os.write(1, b"Content-Length: %d\r\n\r\n" % len(line) + line)


threading.Thread(target=down, daemon=True).start()
stdin = sys.stdin.buffer
while True:
    n = None
    while True:
        h = stdin.readline()
        if not h:
            os._exit(0)
        h = h.strip()
        if not h:
            break
        k, v = h.split(b":", 1)
        if k.strip().lower() == b"content-length":
            n = int(v)
    body = stdin.read(n)
    assert b"\n" not in body
    s.sendall(body + b"\n")
