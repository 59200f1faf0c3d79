"""Cursors in Neovim (C23): what the plugin reports after every movement, and where it shows those of others."""
import os
import time

import bb
import bb_nvim
import nvim
from common import Violated

MOVES = ["h", "j", "k", "l", "w", "b", "e", "ge", "0", "$", "^", "gg", "G", "fa", "W", "B", "E", "g_", "3l", "2j", "5h", "}", "{"]
STATE = """
    local m = vim.api.nvim_get_mode()
    local c = vim.api.nvim_win_get_cursor(0)
    local v = vim.fn.getpos('v')
    return { m.mode, m.blocking, c[1], c[2], v[2], v[3], vim.api.nvim_buf_get_name(0), vim.api.nvim_buf_get_lines(0, 0, -1, true), vim.b.changedtick }
"""
# Everything that is visibly marked in a buffer, whoever did it.
MARKS = """
    for _, b in ipairs(vim.api.nvim_list_bufs()) do
        if vim.api.nvim_buf_get_name(b) == ... and vim.api.nvim_buf_is_loaded(b) then
            local r = {}
            for _, ns in pairs(vim.api.nvim_get_namespaces()) do
                for _, e in ipairs(vim.api.nvim_buf_get_extmarks(b, ns, 0, -1, { details = true })) do
                    local name = ''
                    for _, t in ipairs(e[4].virt_text or {}) do name = name .. t[1] end
                    table.insert(r, { e[2], e[3], e[4].end_row or e[2], e[4].end_col or e[3], name })
                end
            end
            return { r, vim.api.nvim_buf_get_lines(b, 0, -1, true), vim.api.nvim_buf_get_changedtick(b) }
        end
    end
    return false
"""


def chars_before(line, col):
    """Number of characters in the first bytes of a line. Bytes in the middle of a character count for the whole of it."""
    b = line.encode("utf-8", "surrogateescape")
    n = 0
    for c in line:
        k = len(c.encode("utf-8", "surrogateescape"))
        if col <= 0:
            break
        col -= k
        n += 1
    return n if b else 0


def char_at(line, col):
    """The character that a byte belongs to."""
    n = 0
    for c in line:
        k = len(c.encode("utf-8", "surrogateescape"))
        if col < k:
            return n
        col -= k
        n += 1
    return n


def expected_report(state):
    """None if the documentation leaves it open."""
    mode, _, row, col, vrow, vcol, _, lines, _ = state
    here = (row - 1, char_at(lines[row - 1], col))
    anchor = (vrow - 1, char_at(lines[vrow - 1], vcol - 1))
    if mode in "vV" and len(lines[vrow - 1][:anchor[1]].encode("utf-8", "surrogateescape")) != vcol - 1 and vcol - 1 < len(lines[vrow - 1].encode("utf-8", "surrogateescape")):
        return None         # inside of a character, after the text changed under an old selection
    if mode == "v":
        if anchor <= here:
            return anchor, (here[0], here[1] + 1)
        return (anchor[0], anchor[1] + 1), here
    if mode == "V":
        if anchor <= here:
            return (anchor[0], 0), (here[0], len(lines[here[0]]))
        return (anchor[0], len(lines[anchor[0]])), (here[0], 0)
    if mode[0] in "niR":
        return here, here
    return None


class Cursors:
    def __init__(self, run, s):
        self.run, self.rng, self.s, self.n = run, run.rng, s, s.n
        self.visual = {}        # file -> version of the text when something was selected
        self.users = {}         # id -> (file, ranges, name, version of the text) or (file, None) if they can be anywhere in it

    def state(self):
        return self.n.lua(STATE)

    def rel(self, state):
        # There is also the empty buffer without a name.
        return os.path.relpath(state[6], self.n.dir) if state[6] else None

    def clamp(self, lines, p):
        return p[0], min(p[1], len(lines[p[0]]))

    def move(self):
        rng = self.rng
        before = self.state()
        k = rng.random()
        if before[0][0] in "iR":
            keys = rng.choice(["<Esc>", "<Esc>", "<Left>", "<Right>", "<Up>", "<Down>", "<Home>", "<End>", "a", "ä", "🥕", "<CR>", "<BS>", "日本", "<Del>"])
        elif before[0][0] in "vV\x16":
            keys = rng.choice(["<Esc>", "o", rng.choice(MOVES), rng.choice(MOVES), rng.choice(MOVES), "v", "V", "iw", "d"])
        elif k < 0.6:
            keys = rng.choice(MOVES)
        elif k < 0.85:
            keys = rng.choice(["v", "V", "v", "gv", "vo", "viw", "v$"])
        else:
            keys = rng.choice(["i", "a", "A", "I", "o", "O", "R", "x", "dd", "p", "yy", "u", "J"])
        if keys == "gv" and self.visual.get(self.rel(before)) != before[8]:
            keys = "v"          # an old selection in a changed text may begin inside of a character
        self.run.log("keys", keys)
        self.run.did(keys)
        self.n.call("nvim_input", keys.replace("<lt>", "<"))
        name = self.rel(before)
        last = [None, None]

        def fine():
            st = self.state()
            if st[1]:
                return False        # in the middle of a command
            self.s.handle()
            last[0] = st
            cur = self.rel(st)
            want = expected_report(st)
            if st[:7] == before[:7] or want is None or cur not in self.s.files:
                last[1] = None
                # Nothing moved, or it has not been handled yet.
                return st[:7] != before[:7] or self.settled()
            if keys.endswith("iw") and st[2:4] == before[2:4]:
                # Only the other end of the selection moved. Neovim tells nobody about that.
                last[1] = None
                return self.settled()
            last[1] = want
            got = self.s.reported.get(cur)
            return got is not None and self.same(st[7], got, want)
        self.settled_count = 0
        ok = self.s_wait(fine)
        if not ok and last[1] is not None:
            st = last[0]
            raise Violated("report", f"after {keys} in mode {st[0]} with the cursor at {st[2:4]} and the selection from {st[4:6]} in {st[7]!r}, "
                                     f"{self.s.reported.get(name)} was reported instead of {last[1]}", [self.n.messages()[-1500:]])
        if last[0] and last[0][0] in "vV":
            self.visual[self.rel(last[0])] = last[0][8]
        if last[1] is not None:
            self.run.count(f"reports compared in mode {last[0][0][0]}")
        if last[0] and last[0][7:] != before[7:]:
            self.forget(name)
        self.s.compare("content", f"after {keys}")

    def settled(self):
        self.settled_count += 1
        return self.settled_count > 3

    def s_wait(self, fine):
        """Asking makes Neovim go round its main loop. When nothing has changed for many rounds, nothing will."""
        last, rounds = None, 0
        while rounds < 150:
            if fine():
                return True
            now = (self.state(), str(self.s.reported))
            if now == last:
                rounds += 1
            else:
                last, rounds = now, 0
            time.sleep(0.01)
        return False

    def same(self, lines, got, want):
        if len(got) != 1:
            return False
        g = [(got[0][k]["line"], got[0][k]["character"]) for k in ("start", "end")]
        if any(not 0 <= p[0] < len(lines) for p in g):
            return False
        # The end of a line may be denoted by a number that is too large.
        return [self.clamp(lines, p) for p in g] == [self.clamp(lines, p) for p in want]

    def forget(self, name):
        """Marks move with the text, however Neovim sees fit."""
        for u, x in self.users.items():
            if x[0] == name:
                self.users[u] = (name, None)

    def position(self, text):
        rng = self.rng
        p = bb.position(text, rng.choice([rng.randrange(len(text) + 1), rng.randrange(len(text) + 1), len(text)]))
        return p

    def others(self):
        """Somebody else's cursor arrives."""
        rng = self.rng
        names = sorted(self.s.files) + (["not open"] if rng.random() < 0.2 else [])
        if not names:
            return
        name = rng.choice(names)
        user = rng.choice(["id-1", "id-2", "id-3"])
        text = self.s.files[name].text if name in self.s.files else "one\ntwo\n"
        ranges = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            a, b = self.position(text), self.position(text)
            if rng.random() < 0.5:
                b = a
            ranges.append({"start": a, "end": b})
        odd = rng.random() < 0.1
        if odd:
            ranges = [{"start": {"line": rng.choice([0, 1, 500]), "character": rng.choice([0, 77, 10 ** 6])}, "end": {"line": rng.choice([0, 1000]), "character": 3}}]
        who = rng.choice([user + " name", user + " ä", None])
        p = {"userid": user, "uri": self.s.uri(name), "ranges": ranges}
        if who:
            p["name"] = who
        self.run.log("cursor of", user, name, ranges)
        self.run.did([user, name, ranges])
        r = name in self.s.files and self.n.lua(MARKS, os.path.join(self.n.dir, name))
        self.n.deliver({"jsonrpc": "2.0", "method": "cursor", "params": p})
        self.s.handle()
        self.users[user] = (name, None) if odd else (name, ranges, who, r[2]) if r else (name, [], None, None)
        self.run.count("cursors of others")
        if odd:
            self.run.count("cursors outside of the text")
        self.shown(f"after the cursor of {user} in {name}: {ranges}")

    def shown(self, what):
        for name in self.s.files:
            r = self.n.lua(MARKS, os.path.join(self.n.dir, name))
            if not r:
                continue
            marks, lines, tick = r
            for u, x in self.users.items():
                if x[0] == name and x[1] is not None and x[3] != tick:
                    self.users[u] = (name, None)    # marks move with the text, however Neovim sees fit
            have = []
            for r0, c0, r1, c1, who in marks:
                a = (r0, char_at(lines[r0], c0)) if r0 < len(lines) else (r0, 0)
                b = (r1, chars_before(lines[r1], c1)) if r1 < len(lines) else (r1, 0)
                have.append((a, b, who))
            # Those with names first, their marks can not be mistaken for others.
            # Those with an extent before those without, which may be drawn in several ways.
            for named, extent in ((True, True), (True, False), (False, True), (False, False)):
                for user, x, i, g in [(u, x, i, g) for u, x in self.users.items() if x[0] == name and x[1] is not None for i, g in enumerate(x[1])]:
                    if named != bool(i == 0 and x[2]) or extent != (g["start"] != g["end"]):
                        continue
                    a, b = sorted((g[k]["line"], g[k]["character"]) for k in ("start", "end"))
                    if max(a[0], b[0]) >= len(lines):
                        continue        # after the last newline, Neovim has no line
                    if a == b:
                        n = len(lines[a[0]])
                        options = [(a, (a[0], a[1] + 1))] if a[1] < n else [((a[0], n - 1), a)] if n else [(a, a), (a, (a[0] + 1, 0))]
                    else:
                        options = [(a, b)]
                    label = x[2] if i == 0 else None
                    hit = next((h for h in have if (h[0], h[1]) in options and (not label or label in h[2])), None)
                    if hit is None:
                        raise Violated("shown", f"{what}: the cursor of {user} ({label}) in {name} at {g} is not shown, text {lines!r}, there are {have}", [self.n.messages()[-1500:]])
                    have.remove(hit)
                    self.run.count("shown cursors compared")
            if have and (name, None) not in self.users.values():
                # Ranges behind the end can also be shown.
                extra = [h for h in have if not any(x[0] == name and any(max(g["start"]["line"], g["end"]["line"]) >= len(lines) for g in x[1] or ()) for x in self.users.values())]
                if extra:
                    raise Violated("shown", f"{what}: in {name}, {extra} are marked for nobody, users are {self.users}", [self.n.messages()[-1500:]])

    def leave_mode(self):
        for _ in range(5):
            if self.state()[0] == "n":
                return
            self.n.call("nvim_input", "<Esc>")
            self.s_wait(lambda: not self.state()[1])


def neovim_cursors(run):
    try:
        session(run)
    except bb_nvim.NotText:
        run.count("sessions that ended with a buffer that is not UTF-8")


def session(run):
    rng = run.rng
    with bb.World() as w:
        s = bb_nvim.Session(run, w)
        s.open(*s.disk)
        c = Cursors(run, s)
        for _ in range(rng.choice([5, 15, 30])):
            k = rng.random()
            if k < 0.55:
                c.move()
            elif k < 0.85:
                c.others()
            else:
                c.leave_mode()
                s.handle()
                if k < 0.9:
                    name = rng.choice(sorted(s.files)) if s.files else None
                    s.remote()
                    for n in s.files:
                        c.forget(n)
                elif k < 0.94:
                    before = set(s.files)
                    s.close()
                    for n in before - set(s.files):
                        c.forget(n)
                elif k < 0.97:
                    closed = [n for n in s.disk if n not in s.files and "\r" not in s.disk[n]]
                    if closed:
                        s.open(rng.choice(closed))
                elif len(s.files) > 1:
                    name = rng.choice(sorted(s.files))
                    run.log("switch to", name)
                    s.n.switch(name)
                    s.handle()
