"""Drives a real Neovim (over its msgpack-RPC interface) with the plugin of /repo, connected to a scripted daemon."""
import json
import os
import shutil
import socket
import struct
import subprocess
import sys
import threading
import time

import bb
from common import Inconclusive, Violated, clean_env

HERE = os.path.dirname(os.path.abspath(__file__))
PLUGIN = "/repo/vim-plugin"


# --- msgpack, as much of it as Neovim needs ------------------------------------------------------

def pack(v):
    if v is None:
        return b"\xc0"
    if v is True:
        return b"\xc3"
    if v is False:
        return b"\xc2"
    if isinstance(v, int):
        if 0 <= v < 128:
            return bytes([v])
        return b"\xd3" + struct.pack(">q", v)
    if isinstance(v, float):
        return b"\xcb" + struct.pack(">d", v)
    if isinstance(v, str):
        v = v.encode("utf-8", "surrogateescape")
        return b"\xdb" + struct.pack(">I", len(v)) + v
    if isinstance(v, (list, tuple)):
        return b"\xdd" + struct.pack(">I", len(v)) + b"".join(map(pack, v))
    if isinstance(v, dict):
        return b"\xdf" + struct.pack(">I", len(v)) + b"".join(pack(k) + pack(x) for k, x in v.items())
    raise TypeError(v)


class Unpacker:
    def __init__(self, stream):
        self.f = stream

    def read(self, n):
        d = self.f.read(n)
        if len(d) != n:
            raise EOFError
        return d

    def get(self):
        t = self.read(1)[0]
        if t < 0x80:
            return t
        if t < 0x90:
            return self.map(t & 15)
        if t < 0xa0:
            return self.array(t & 15)
        if t < 0xc0:
            return self.str(t & 31)
        if t >= 0xe0:
            return t - 256
        if t == 0xc0:
            return None
        if t in (0xc2, 0xc3):
            return t == 0xc3
        if t in (0xc4, 0xd9):
            return self.str(self.read(1)[0])
        if t in (0xc5, 0xda):
            return self.str(struct.unpack(">H", self.read(2))[0])
        if t in (0xc6, 0xdb):
            return self.str(struct.unpack(">I", self.read(4))[0])
        if t in (0xc7, 0xc8, 0xc9):
            n = int.from_bytes(self.read({0xc7: 1, 0xc8: 2, 0xc9: 4}[t]), "big")
            return ("ext", self.read(1)[0], self.read(n))
        if 0xd4 <= t <= 0xd8:
            return ("ext", self.read(1)[0], self.read(1 << (t - 0xd4)))
        fmt = {0xca: ">f", 0xcb: ">d", 0xcc: ">B", 0xcd: ">H", 0xce: ">I", 0xcf: ">Q", 0xd0: ">b", 0xd1: ">h", 0xd2: ">i", 0xd3: ">q"}
        if t in fmt:
            return struct.unpack(fmt[t], self.read(struct.calcsize(fmt[t])))[0]
        if t == 0xdc:
            return self.array(struct.unpack(">H", self.read(2))[0])
        if t == 0xdd:
            return self.array(struct.unpack(">I", self.read(4))[0])
        if t == 0xde:
            return self.map(struct.unpack(">H", self.read(2))[0])
        if t == 0xdf:
            return self.map(struct.unpack(">I", self.read(4))[0])
        raise ValueError(hex(t))

    def str(self, n):
        return self.read(n).decode("utf-8", "surrogateescape")

    def array(self, n):
        return [self.get() for _ in range(n)]

    def map(self, n):
        r = {}
        for _ in range(n):
            k = self.get()
            r[k] = self.get()
        return r


class NvimError(Exception):
    pass


# --- the scripted daemon -------------------------------------------------------------------------

class MockDaemon:
    """What is behind the plugin's `ethersync client`: records every message, answers when told to."""

    def __init__(self, path):
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(path)
        self.l.listen(8)
        self.cond = threading.Condition()
        self.inbox = []         # messages of the plugin, in order
        self.conn = None
        self.synced = 0
        self.closed = False
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        try:
            c, _ = self.l.accept()
        except OSError:
            return
        with self.cond:
            self.conn = c
            self.cond.notify_all()
        buf = b""
        while True:
            try:
                d = c.recv(1 << 16)
            except OSError:
                d = b""
            if not d:
                with self.cond:
                    self.closed = True
                    self.cond.notify_all()
                return
            buf += d
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                try:
                    m = json.loads(line)
                except ValueError:
                    m = {"unreadable": line.decode("utf-8", "surrogateescape")}
                with self.cond:
                    if m.get("method") == "verif/sync":
                        self.synced = m["params"]["n"]
                    else:
                        self.inbox.append(m)
                    self.cond.notify_all()

    def send(self, m):
        self.conn.sendall(json.dumps(m, ensure_ascii=False).encode() + b"\n")

    def close(self):
        self.l.close()
        if self.conn:
            self.conn.close()


# The plugin's connection is made through vim.lsp.rpc. Wrapping it gives a barrier in both directions.
BARRIER = r"""
_G.verif = { got = 0 }
local start = vim.lsp.rpc.start
vim.lsp.rpc.start = function(...)
  local args = { ... }
  for _, a in ipairs(args) do
    if type(a) == "table" and a.notification then
      local inner = a.notification
      a.notification = function(method, params)
        if method == "verif/sync" then
          _G.verif.got = params.n
        else
          inner(method, params)
        end
      end
    end
  end
  local client = start(unpack(args))
  _G.verif.client = client
  return client
end
-- Some commands leave a buffer with something that is not UTF-8, at least for a moment.
local function valid(s)
  local i = 1
  while i <= #s do
    local c = s:byte(i)
    local n = c < 0x80 and 0 or c >= 0xc2 and c < 0xe0 and 1 or c >= 0xe0 and c < 0xf0 and 2 or c >= 0xf0 and c < 0xf5 and 3
    if not n then return false end
    for k = 1, n do
      local d = s:byte(i + k)
      if not d or d < 0x80 or d >= 0xc0 then return false end
      if k == 1 and (c == 0xe0 and d < 0xa0 or c == 0xed and d >= 0xa0 or c == 0xf0 and d < 0x90 or c == 0xf4 and d >= 0x90) then return false end
    end
    i = i + n + 1
  end
  return true
end
vim.api.nvim_create_autocmd("BufRead", { callback = function(ev)
  vim.api.nvim_buf_attach(ev.buf, false, { on_lines = function()
    for _, line in ipairs(vim.api.nvim_buf_get_lines(ev.buf, 0, -1, true)) do
      if not valid(line) then _G.verif.not_text = true end
    end
  end })
end })
"""


class Nvim:
    def __init__(self, world, files, settings=""):
        self.w = world
        self.dir = world.project("p", files)
        bindir = os.path.join(world.root, "bin")
        os.makedirs(bindir, exist_ok=True)
        sock = os.path.join(world.root, "mock.sock")
        self.daemon = MockDaemon(sock)
        exe = os.path.join(bindir, "ethersync")
        shutil.copy(os.path.join(HERE, "mock_client.py"), exe)
        os.chmod(exe, 0o755)
        env = clean_env(XDG_RUNTIME_DIR=world.run, HOME=world.home, XDG_CONFIG_HOME=world.home, XDG_DATA_HOME=world.home,
                        XDG_STATE_HOME=world.home, XDG_CACHE_HOME=world.home, VERIF_MOCK_SOCKET=sock, LANG="C.UTF-8", LC_ALL="C.UTF-8")
        env["PATH"] = bindir + ":" + env["PATH"]
        env.pop("NVIM", None)
        self.err = open(os.path.join(world.root, "nvim.err"), "wb")
        self.p = subprocess.Popen(["nvim", "--clean", "-n", "-i", "NONE", "--embed", "--headless",
                                   "--cmd", f"set rtp^={PLUGIN}"] + (["--cmd", settings] if settings else []),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.dir)
        self.pid = self.p.pid
        bb._running.append(self.p)
        world.procs.append(self)
        self.msgid = 0
        self.n = 0
        self.answers = {}
        self.cond = threading.Condition()
        self.ended = False
        threading.Thread(target=self._read, daemon=True).start()
        self.lua(BARRIER)

    def _read(self):
        u = Unpacker(self.p.stdout)
        try:
            while True:
                m = u.get()
                if m[0] == 1:
                    with self.cond:
                        self.answers[m[1]] = m
                        self.cond.notify_all()
        except (EOFError, ValueError, OSError):
            with self.cond:
                self.ended = True
                self.cond.notify_all()

    def call(self, method, *args, limit=10):
        self.msgid += 1
        i = self.msgid
        try:
            self.p.stdin.write(pack([0, i, method, list(args)]))
            self.p.stdin.flush()
        except (OSError, ValueError):
            raise Inconclusive("Neovim ended")
        with self.cond:
            self.cond.wait_for(lambda: i in self.answers or self.ended, limit)
            if i not in self.answers:
                raise Inconclusive("Neovim ended" if self.ended else f"Neovim does not answer {method}")
            m = self.answers.pop(i)
        if m[2] is not None:
            raise NvimError(str(m[2]))
        return m[3]

    def lua(self, code, *args):
        return self.call("nvim_exec_lua", code, list(args))

    def keys(self, keys):
        """As if typed, and handled completely."""
        self.lua("vim.api.nvim_feedkeys(vim.api.nvim_replace_termcodes(..., true, false, true), 'tx', false)", keys)

    def command(self, c):
        self.call("nvim_command", c)

    def sent(self):
        """What the plugin has sent up to now."""
        self.n += 1
        if not self.lua("if not _G.verif.client then return false end _G.verif.client.notify('verif/sync', { n = ... }) return true", self.n):
            return []
        d = self.daemon
        with d.cond:
            if not d.cond.wait_for(lambda: d.synced >= self.n or d.closed, 30) or d.closed:
                raise Inconclusive("the plugin's messages do not arrive")
            r, d.inbox = d.inbox, []
        return r

    def deliver(self, *messages):
        """Sends to the plugin and waits until it was handled."""
        self.n += 1
        for m in messages:
            self.daemon.send(m)
        self.daemon.send({"jsonrpc": "2.0", "method": "verif/sync", "params": {"n": self.n}})
        if not self.lua("local n = ... return vim.wait(20000, function() return _G.verif.got >= n end, 1)", self.n):
            raise Inconclusive("Neovim does not handle messages")

    def content(self, path):
        """(lines, whether the last one is ended)"""
        r = self.lua("""
            local b = -1
            for _, x in ipairs(vim.api.nvim_list_bufs()) do
                if vim.api.nvim_buf_get_name(x) == ... then b = x end
            end
            if b < 0 or not vim.api.nvim_buf_is_loaded(b) then return false end
            return { vim.api.nvim_buf_get_lines(b, 0, -1, true), vim.bo[b].eol, vim.bo[b].fileformat }
        """, os.path.join(self.dir, path))
        if not r:
            return None
        return "\n".join(r[0]) + ("\n" if r[1] else "")

    def switch(self, path):
        self.lua("""
            for _, b in ipairs(vim.api.nvim_list_bufs()) do
                if vim.api.nvim_buf_get_name(b) == ... then vim.api.nvim_set_current_buf(b) end
            end
        """, os.path.join(self.dir, path))

    def messages(self):
        return self.lua("return vim.fn.execute('messages')")

    def alive(self):
        return self.p.poll() is None
