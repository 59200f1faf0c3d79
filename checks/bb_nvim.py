"""The Neovim plugin (C20): real Neovim, real plugin, keys typed at random, a scripted daemon on the other end."""
import os

import bb
import nvim
from common import Inconclusive, Violated

CHARS = ["a", "b", "x", "y", " ", "  ", "foo", "bar", "1", "42", ".", ",", "(", ")", "-", "_", "ä", "ß", "é", "é", "日本", "🥕", "👩‍🚀",
         "​", " ", "ﬀ", "א", "~", "{", "}", "\"", "'", "\\", "#", " ", "\u0085", "\U0001d11e"]
MOTIONS = ["h", "j", "k", "l", "w", "b", "e", "ge", "0", "$", "^", "gg", "G", "fa", "tx", "Fo", "{", "}", "(", ")", "%", "W", "B", "E", "g_", "+", "-", "H", "L", "M", "|"]
OBJECTS = ["iw", "aw", "ip", "ap", "is", "as", "i(", "a(", "iW", "a\""]
COUNT = ["", "", "", "", "2", "3", "7"]


# Neovim shows these, too, but they cannot be typed that easily.
REMOTE_CHARS = CHARS + ["\r", "\r\n", "\t", "\f", "\u2028", "\u2029", "\v", "\x1b", "%"]


def word(rng, n=4, chars=CHARS):
    return "".join(rng.choice(chars) for _ in range(rng.randrange(0, n)))


def keytext(rng, n=4):
    return word(rng, n).replace("<", "<lt>").replace("|", "<Bar>")


def insert_keys(rng):
    r = ""
    for _ in range(rng.randrange(0, 5)):
        r += rng.choice([keytext(rng), keytext(rng), keytext(rng), "<CR>", "<CR>", "<BS>", "<BS><BS>", "<C-w>", "<C-u>", "<Del>", "<Tab>", "<C-h>", "<Left>", "<Right>",
                         "<Up>", "<Down>", "<Home>", "<End>", "<C-o>x", "<C-o>dd", "<C-o>u", "<C-o>p", "<C-r>\"", "<C-v>u00e9", "<C-v>U01F600", "<C-e>", "<C-y>", "<C-t>",
                         "<C-d>", "<C-a>", "<C-n>", "<C-p>", "<C-g>u", "<C-o>O", "<C-k>a:", "<C-j>"])
    return r + "<Esc>"


def motion(rng):
    return rng.choice(COUNT) + rng.choice(MOTIONS)


def pattern(rng):
    return rng.choice(["a", "o", ".", "$", "^", "\\s", "x*", "\\n", "[a-z]\\+", "^$", "ä", "foo", "\\w", "^.*$", "b\\n", "\\n\\n", "\\_s\\+"])


def line_range(rng):
    return rng.choice(["", "%", "1,2", ".,$", "1", "$", "2,$", ".,.+1", "0,$"[2:]])


def normal_keys(rng):
    k = rng.randrange(16)
    c = rng.choice(COUNT)
    if k == 0:
        return motion(rng)
    if k <= 3:
        return motion(rng) + c + rng.choice("iIaAoO") + insert_keys(rng)
    if k == 4:
        return motion(rng) + c + rng.choice(["x", "X", "dd", "D", "J", "gJ", "~", "p", "P", "yyp", "yyP", "yy", "Y", "gp", "gP", ">>", "<lt><lt>", "g~~", "gUU", "guu", "]p",
                                             "xp", "ddp", "ddkP", "<C-a>", "<C-x>", ".", "&", "g&", "==", "\"ayy", "\"ap", "\"add", "ylp", "yiwP", "g??"])
    if k == 5:
        return motion(rng) + c + rng.choice(["d", "y", ">", "<lt>", "gU", "gu", "g~", "!", "gq", "g?", "="]).replace("!", "d") + rng.choice([motion(rng), rng.choice(OBJECTS)])
    if k == 6:
        return motion(rng) + c + "c" + rng.choice([motion(rng), rng.choice(OBJECTS), "c"]) + insert_keys(rng)
    if k == 7:
        return motion(rng) + c + rng.choice(["s", "S", "C", "R"]) + insert_keys(rng)
    if k == 8:
        return motion(rng) + c + "r" + rng.choice(["z", "ä", "🥕", "<CR>", " "])
    if k <= 10:
        op = rng.choice(["d", "x", "y", "p", "P", "J", "gJ", "u", "U", "~", ">", "<lt>", "rz", "r🥕", "gq", "X", "D", "Y", "<C-a>", "g<C-a>", "r<CR>", "o" + motion(rng) + "d", "gvd"])
        if rng.random() < 0.3:
            op = rng.choice(["c", "s", "S", "C", "I", "A", "R"]) + insert_keys(rng)
        return motion(rng) + rng.choice(["v", "V", "<C-v>"]) + motion(rng) + rng.choice(["", motion(rng)]) + op + "<Esc>"
    if k == 11:
        return c + rng.choice(["u", "u", "<C-r>", "U", "g-", "g+"])
    if k == 12:
        return ":silent! " + line_range(rng) + rng.choice(["d", "d 2", "m0", "m$", "t0", "t.", "t$", "m1", "j", "j!", "sort", "sort!", "sort u", ">", "<lt>", "y", "put", "put!",
                                                   "normal Ax", "normal xp", "normal! O", "left 4", "right 20", "center 30", "retab", "norm dd", "norm J", "co0",
                                                   "k a", "undo", "redo", "earlier 1", "later 1"]) + "<CR>"
    if k == 13:
        return ":silent! " + line_range(rng) + rng.choice(["s", "g", "v"]).replace("s", "s/" + pattern(rng) + "/" + rng.choice(["", "z", "\\r", "ä", "&&", "x\\ry", "\\0\\r", "🥕"]) + "/" + rng.choice(["", "g", "ge"])) \
            .replace("g/", "g/") + "<CR>"
    if k == 14:
        return ":silent! " + rng.choice(["", "%", "1,2"]) + rng.choice(["g", "v"]) + "/" + pattern(rng) + "/" + rng.choice(["d", "m0", "t.", "normal Ay", "s/a/b/e", "j", "normal x", "put", ">", "s/$/\\r/"]) + "<CR>"
    return "qa" + normal_keys(rng) + normal_keys(rng) + "q" + c + "@a" if rng.random() < 0.5 else rng.choice([".", "2.", "@@", "gv" + "d", "<C-r>", "ZZ"[:0] + "gi" + insert_keys(rng)])


def random_text(rng):
    lines = [word(rng, 7) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))]
    if not lines:
        return ""
    return "\n".join(lines) + rng.choice(["\n", "\n", ""])


def random_delta(rng, text):
    """Replacements in ascending order that do not overlap, as the daemon sends them."""
    n = rng.choice([1, 1, 1, 1, 2, 3])
    cuts = sorted(rng.choice([rng.randrange(len(text) + 1), len(text), 0, len(text)]) if rng.random() < 0.3 else rng.randrange(len(text) + 1) for _ in range(2 * n))
    delta = []
    last = -1
    for i in range(n):
        a, b = cuts[2 * i], cuts[2 * i + 1]
        if rng.random() < 0.4:
            b = a
        if a <= last:
            continue
        r = "".join(rng.choice([word(rng, 3, REMOTE_CHARS), "\n", "", "\n\n", word(rng, 3, REMOTE_CHARS) + "\n"]) for _ in range(rng.randrange(0, 3)))
        if a == b and not r:
            continue
        last = b
        if a < b and r and rng.random() < 0.5:
            # The daemon describes a replacement in two parts.
            delta.append({"range": {"start": bb.position(text, a), "end": bb.position(text, a)}, "replacement": r})
            r = ""
        delta.append({"range": {"start": bb.position(text, a), "end": bb.position(text, b)}, "replacement": r})
    return delta


class File:
    def __init__(self, text):
        self.text = text
        self.editor_rev = 0
        self.daemon_rev = 0


class NotText(Exception):
    """A buffer holds something that is not text any more."""


class Session:
    def __init__(self, run, w):
        self.run, self.rng = run, run.rng
        self.files = {}
        self.reported = {}      # last cursor per file
        self.was_refused = set()
        self.opened_before = set()
        names = self.rng.sample(["f", "g.txt", "sub/h", "with space", "ünï.md", "50%", "x%20y", "a+b#c", "d,e=f"], self.rng.choice([1, 1, 2, 3]))
        self.disk = {n: random_text(self.rng) for n in names}
        self.settings = self.rng.choice(["", "", "", "set autoindent", "set expandtab shiftwidth=2", "set nofixendofline", "set textwidth=20", "set virtualedit=all", "set autowriteall", "set noautoread"])
        self.settings = (self.settings + " | " if self.settings else "") + "set hidden"
        self.n = nvim.Nvim(w, dict(self.disk, refused="this is\nignored\n"), self.settings)
        run.log(f"files {self.disk!r} {self.settings}")

    def uri(self, name):
        return "file://" + os.path.join(self.n.dir, name)

    def name_of(self, u):
        for name in self.disk:
            if u == self.uri(name):
                return name
        self.fail("uri", f"the plugin talks about {u}")

    def fail(self, sig, what):
        if self.n.lua("return _G.verif.not_text"):
            raise NotText()
        raise Violated(sig, what, [self.n.messages()[-1500:]])

    def path(self, name):
        return "".join("\\" + c if c in " %#" else c for c in os.path.join(self.n.dir, name))

    def open(self, *names):
        """Several files are opened before the daemon answers."""
        self.run.log("open", *names)
        for name in names:
            if name in self.disk or self.rng.random() < 0.5:
                self.disk.setdefault(name, "")
                self.n.command("edit " + self.path(name))
            else:
                self.disk[name] = ""
                self.n.keys(":split " + self.path(name) + "<CR>")
            if name in self.opened_before and self.rng.random() < 0.4:
                # From the time before it was closed, so nobody expects that it is applied.
                self.run.log("an old edit arrives")
                self.n.deliver({"jsonrpc": "2.0", "method": "edit", "params": {"uri": self.uri(name), "revision": 0, "delta": random_delta(self.rng, self.disk[name])}})
        self.handle()
        self.opened_before |= set(names)
        for name in names:
            if name not in self.files:
                self.fail("protocol", f"{name} was not announced")
        self.compare("open", f"after opening {names}")

    def close(self):
        if not self.files:
            return
        name = self.rng.choice(sorted(self.files))
        how = self.rng.choice(["bdelete! ", "bwipeout! "])
        self.run.log(how, name)
        self.n.command(how + self.path(name))
        self.handle()
        if name in self.files:
            self.fail("protocol", f"the end of {name} ({how}) was not announced")
        if self.rng.random() < 0.4:
            # This one was on its way already.
            self.n.deliver({"jsonrpc": "2.0", "method": "edit", "params": {"uri": self.uri(name), "revision": 0, "delta": random_delta(self.rng, self.disk[name])}})
            self.handle()
        self.run.count("files closed")
        self.compare("close", f"after closing {name}")

    def reload(self):
        """The daemon never touches the file while it is open; here, another program wrote the same content to it."""
        # Neovim may take files with carriage returns for those of another system.
        names = [n for n in sorted(self.files) if "\r" not in self.files[n].text]
        if not names:
            return
        name = self.rng.choice(names)
        self.run.log("reload", name)
        self.n.switch(name)
        bb.write_files(self.n.dir, {name: self.files[name].text})
        self.disk[name] = self.files[name].text
        self.n.command("edit!")
        self.handle()
        self.run.count("files reloaded")
        self.compare("reload", f"after reloading {name}")

    def handle(self):
        """Everything the plugin has sent."""
        edits = 0
        answers = []
        refused = set()
        for m in self.n.sent():
            if "unreadable" in m:
                if self.n.lua("return _G.verif.not_text"):
                    raise NotText()
                self.fail("unreadable", f"the plugin sent something that is not JSON in UTF-8: {m['unreadable']!r}, all buffers are valid: {[self.n.content(n) for n in self.files]}")
            p = m.get("params", {})
            if m.get("method") != "cursor":
                self.run.log("  message", m)
            if p["uri"] in ("file://", self.uri("refused")):
                # Not in the project, or ignored. Edits from before the answer are fine.
                if m["method"] == "open":
                    answers.append({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -1, "message": "refused"}})
                    self.was_refused.discard(p["uri"])
                elif p["uri"] in self.was_refused and m["method"] != "cursor":
                    self.fail("refused", f"the daemon refused to open the file, but {m} is sent")
                elif "id" in m:
                    answers.append({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -1, "message": "not open"}})
                refused.add(p["uri"])
                continue
            name = self.name_of(p["uri"])
            if m["method"] == "open":
                if name in self.files:
                    self.fail("protocol", f"{name} is opened again without having been closed")
                self.files[name] = File(self.disk[name])
            elif m["method"] == "close":
                if name not in self.files:
                    self.fail("protocol", f"{name} is closed without having been opened")
                # From now on, the file follows the shared content again.
                self.disk[name] = self.files[name].text
                bb.write_files(self.n.dir, {name: self.disk[name]})
                del self.files[name]
            elif m["method"] == "edit":
                f = self.files.get(name)
                if f is None:
                    self.fail("protocol", f"an edit for {name}, which is not open")
                self.run.log("  reported", name, p["revision"], p["delta"])
                if p["revision"] != f.daemon_rev:
                    self.fail("revision", f"an edit was sent with revision {p['revision']} after {f.daemon_rev} edits of the daemon")
                before = f.text
                try:
                    f.text = bb.apply_delta(f.text, p["delta"])
                except (ValueError, KeyError, TypeError) as e:
                    self.fail("reported", f"the reported edit {p['delta']} does not fit to {before!r}: {e}")
                f.editor_rev += 1
                edits += 1
                self.run.count("edits reported")
            elif m["method"] == "cursor":
                self.reported[name] = p["ranges"]
                self.run.count("cursors reported")
            else:
                self.fail("protocol", f"unknown message {m}")
            if "id" in m:
                answers.append({"jsonrpc": "2.0", "id": m["id"], "result": "success"})
        if answers:
            self.n.deliver(*answers)
            self.was_refused |= refused
            # Answers can lead to further messages, but not to edits.
            if any(a for a in answers):
                edits += self.handle()
        return edits

    def compare(self, sig, what):
        for name, f in self.files.items():
            c = self.n.content(name)
            self.run.count("buffers compared")
            if c != f.text:
                self.fail(sig, f"{what}: {name} shows {c!r}, but the reported content is {f.text!r}")

    def local(self):
        keys = normal_keys(self.rng)
        self.run.log("keys", keys)
        try:
            self.n.keys(keys)
        except nvim.NvimError as e:
            self.run.log("  error", str(e)[:200])
        self.run.did(keys)
        self.handle()
        self.run.count("key sequences")
        self.compare("local", f"after {keys}")

    def remote(self):
        if not self.files:
            return
        name = self.rng.choice(sorted(self.files))
        f = self.files[name]
        delta = random_delta(self.rng, f.text)
        if not delta:
            return
        stale = self.rng.random() < 0.2
        rev = f.editor_rev if not stale else self.rng.choice([r for r in (f.editor_rev - 1, f.editor_rev + 1, 0, f.editor_rev + 7) if r >= 0 and r != f.editor_rev])
        self.run.log("daemon edits", name, "revision", rev, "of", f.editor_rev, delta)
        self.run.did([rev, delta])
        if not stale:
            f.text = bb.apply_delta(f.text, delta)
            f.daemon_rev += 1
        self.n.deliver({"jsonrpc": "2.0", "method": "edit", "params": {"uri": self.uri(name), "revision": rev, "delta": delta}})
        n = self.handle()
        self.run.count("outdated edits delivered" if stale else "edits delivered")
        if n:
            self.fail("echo", f"the daemon's edit {delta} was reported back")
        self.compare("stale" if stale else "remote", f"after the daemon's edit {delta} of {name} with revision {rev} of {f.editor_rev}")


def neovim(run):
    try:
        session(run)
    except NotText:
        run.count("sessions that ended with a buffer that is not UTF-8")


def session(run):
    with bb.World() as w:
        s = Session(run, w)
        rng = run.rng
        if rng.random() < 0.5:
            s.open(*s.disk)
        else:
            for name in list(s.disk):
                s.open(name)
        for _ in range(rng.choice([5, 15, 30])):
            k = rng.random()
            if k < 0.55:
                s.local()
            elif k < 0.9 or not s.files:
                s.remote()
            elif k < 0.915:
                s.close()
            elif k < 0.93:
                closed = [n for n in s.disk if n not in s.files and "\r" not in s.disk[n]] + [f"new {len(s.disk)}"]
                s.open(*rng.sample(closed, rng.randrange(1, min(2, len(closed)) + 1)))
            elif k < 0.94:
                s.reload()
            elif k < 0.945:
                run.log("open refused")
                s.n.command("edit! " + s.path("refused"))
                for _ in range(rng.randrange(0, 4)):
                    s.local()
            elif k < 0.955:
                run.log("write")
                s.n.command("silent! write!")
                s.handle()
                s.compare("write", "after writing")
            elif len(s.files) > 1:
                name = rng.choice(sorted(s.files))
                run.log("switch to", name)
                s.n.switch(name)
                s.handle()
                s.compare("switch", f"after switching to {name}")
