"""Whole networks of real daemons: editors and other programs on both sides of a connection that is held back now and then."""
import os
import re
import time

import bb
import bb_transport
from common import Inconclusive, Violated

# Every label is one character of its own, so comparing two versions of a text cannot mix them up.
TOKEN = re.compile("[\U000f0000-\U000ffffd]")
PLAIN = ["a", "b ", " ", "\n", "\n", "\n\n", ".", "ä", "foo"]
NASTY = PLAIN + ["\r", "\r\n", "\t", " ", "\u0085", "\v", "\f", "é", "👩‍🚀", "𝄞", "\U0010ffff", "﻿", "\x00", "\x1b", "א", "ﬀ", "​", "\x7f"]


class Side:
    def __init__(self, name, directory):
        self.name, self.dir = name, directory
        self.daemon = self.leaf = None
        self.editors = []
        self.disk_at_open = {}
        self.written = set()

    def open_files(self):
        return {p for e in self.editors for p in e.files}


class Net:
    def __init__(self, run, w, kinds, nasty=False, big=False, many=False):
        self.run, self.rng, self.w, self.kinds = run, run.rng, w, kinds
        self.chars = NASTY if nasty else PLAIN
        self.next = 0
        self.live = {}          # label -> file
        self.deleted = set()
        self.dead_files = set()
        self.before = {}        # file -> labels in order, when all was quiet
        self.pending = []       # (editor, request)
        self.removed = set()    # (side, file) that the other side deleted
        names = ["f", "g.txt", "sub/h", "sub/deep/i", "with space", "ünï", "d/" * self.rng.choice([5, 12, 30]) + "j", "x" * 200 + ".txt"]
        if many:
            names += [f"many/{i}" for i in range(25)]
        self.rng.shuffle(names)
        if not many:
            names = names[:self.rng.choice([1, 2, 4])]
        files = {}
        for n in names:
            size = self.rng.choice([0, 1, 3, 12])
            if big and len(files) < 2:
                size = self.rng.choice([700, 1500])
            text = ""
            for _ in range(size):
                text += self.filler() + self.label("x", n)
            if size:
                text += self.rng.choice(["\n", "\n", ""])
            files[n] = text
        run.log({n: (t if len(t) < 200 else f"{len(t)} characters") for n, t in files.items()})
        self.A = Side("A", w.project("a", files))
        self.B = Side("B", w.project("b"))
        self.port = bb.free_port()
        self.proxy = bb_transport.Chopper(bb.free_port(), self.port, 1 << 16, 0)
        self.start(self.A)
        self.start(self.B)

    def start(self, side):
        if side is self.A:
            side.daemon = self.w.daemon("A", side.dir, port=self.port, secret="s")
        else:
            side.daemon = self.w.daemon("B", side.dir, port=bb.free_port(), peer=self.proxy.addr(), secret="s")
        if not side.daemon.alive():
            raise Violated("crash", f"daemon {side.name} does not start", [side.daemon.tail()])
        side.leaf = self.w.peer(secret="s")
        e = side.leaf.connect(side.daemon)
        if e["ev"] != "stream":
            raise Inconclusive(f"the test peer cannot connect to {side.name}: {e}")

    def filler(self):
        return "".join(self.rng.choice(self.chars) for _ in range(self.rng.randrange(0, 4)))

    def label(self, who, path):
        self.next += 1
        t = chr(0xf0000 + self.next)
        self.live[t] = path
        return t

    # --- changes ---

    def change(self, side, path, text):
        """(start, end, replacement) of a random change."""
        rng = self.rng
        k = rng.random()
        tokens = list(TOKEN.finditer(text))
        if k < 0.25 and tokens:
            m = rng.choice(tokens)
            self.deleted.add(m.group())
            return m.start(), m.end(), ""
        i = rng.randrange(len(text) + 1) if rng.random() < 0.8 else rng.choice([0, len(text)])
        if k < 0.35:
            # Filler in front of it, if there is any.
            j = i
            while j > 0 and not TOKEN.match(text[j - 1]) and i - j < 3:
                j -= 1
            if j < i:
                return j, i, self.label(side.name, path) if rng.random() < 0.5 else ""
        return i, i, self.filler() + self.label(side.name, path) + self.filler()

    def edit(self, side):
        es = [e for e in side.editors if e.files]
        if not es:
            return False
        e = self.rng.choice(es)
        with e.lock:
            path = self.rng.choice(sorted(e.files))
            a, b, t = self.change(side, path, e.files[path]["text"])
            self.run.did((side.name, e.name, path, a, b, t))
            self.run.log(f"{side.name}/{e.name} edits {path}: {a} {b} {t!r}")
            self.pending.append((e, e.edit(path, a, b, t, wait=False)))
        self.run.count("editor edits")
        return True

    def external(self, side, only=None):
        texts = bb.text_files(side.dir)
        # One change at a time, so that there is only one way to describe it.
        names = [n for n in texts if n not in side.open_files() and not n.startswith("sentinel") and n not in side.written and (only is None or n in only)]
        k = self.rng.random()
        if k < 0.12 or not names:
            name = self.rng.choice(["", "", "sub/", "d/" * self.rng.choice([7, 20])]) + f"new-{side.name}{self.next}"
            t = self.filler() + self.label(side.name, name) + "\n"
            bb.write_files(side.dir, {name: t})
            self.run.log(f"{side.name}: new file {name} {t!r}")
        else:
            name = self.rng.choice(names)
            t = texts[name]
            a, b, r = self.change(side, name, t)
            t = t[:a] + r + t[b:]
            side.written.add(name)
            p = os.path.join(side.dir, name)
            if self.rng.random() < 0.5 and self.proxy.held.is_set():
                # The daemon may see this as two changes, which only matters to those who change the same file.
                with open(p, "wb") as f:
                    f.write(t.encode())
            else:
                tmp = os.path.join(side.dir, ".ethersync", "tmp-of-somebody")
                with open(tmp, "wb") as f:
                    f.write(t.encode())
                os.replace(tmp, p)
            self.run.log(f"{side.name}: {name} is now {t[:300]!r}")
        self.run.did((side.name, "external", name))
        self.run.count("changes by other programs")

    def editors(self, side):
        """Opening, closing, arriving and leaving."""
        rng = self.rng
        k = rng.random()
        if not side.editors or k < 0.15 and len(side.editors) < 3:
            e = self.w.editor(side.daemon, f"e{self.next}-{len(side.editors)}")
            side.editors.append(e)
            self.run.log(f"{side.name}: editor {e.name} arrives")
        e = rng.choice(side.editors)
        texts = bb.text_files(side.dir)
        if k < 0.7 or not e.files:
            names = [n for n in texts if n not in e.files and not n.startswith("sentinel")]
            # A second editor takes over what the first one has, plugins read the file from disk. Here, only files
            # whose content on disk is the current one are opened.
            names = [n for n in names if n not in side.open_files()]
            if not names:
                return
            name = rng.choice(sorted(names))
            before = texts[name]
            r = e.open(name, before)
            if r is None or "error" in r:
                raise Violated("refused", f"{side.name}: opening {name} is refused: {r}", [side.daemon.tail()])
            side.disk_at_open[name] = before
            self.run.log(f"{side.name}/{e.name} opens {name}")
            self.run.count("files opened")
        elif k < 0.9:
            name = rng.choice(sorted(e.files))
            self.answers()
            e.close_file(name)
            side.disk_at_open.pop(name, None)
            self.run.log(f"{side.name}/{e.name} closes {name}")
            self.run.count("files closed")
        else:
            self.answers()
            e.disconnect()
            side.editors.remove(e)
            for n in e.files:
                side.disk_at_open.pop(n, None)
            self.written(side, {n: f["text"] for n, f in e.files.items() if n not in side.open_files()})
            self.run.log(f"{side.name}/{e.name} leaves with {sorted(e.files)}")
            self.run.count("editors left")
        self.run.did((side.name, "editors", k))

    def answers(self):
        for e, i in self.pending:
            r = e.wait_response(i)
            if r is None or "error" in r:
                raise Violated("refused", f"an edit was refused: {r}", [e.daemon.tail()])
        self.pending = []

    # --- when all is quiet ---

    def problems(self):
        """What is not as it should be, as (kind, description)."""
        res = []
        fa, fb = self.A.leaf.files(), self.B.leaf.files()
        if fa != fb:
            res.append(("convergence", "A and B differ: " + difference(fa, fb)))
        for side, shared in ((self.A, fa), (self.B, fb)):
            disk = bb.text_files(side.dir)
            opened = side.open_files()
            for e in side.editors:
                if e.unexpected:
                    res.append(("editor", f"{side.name}/{e.name} got {e.unexpected[:2]}"))
                for n, f in e.files.items():
                    if n in shared and f["text"] != shared[n] and (side.name, n) not in self.removed:
                        res.append(("editor", f"{side.name}/{e.name} shows {difference({n: f['text']}, {n: shared.get(n)})} (first is the editor, second is shared)"))
            for n in opened:
                if n in side.disk_at_open and disk.get(n) != side.disk_at_open[n]:
                    res.append(("ownership", f"{side.name}: {n} was written although it is open: {difference({n: side.disk_at_open[n]}, {n: disk.get(n)})}"))
            want = {n: t for n, t in shared.items() if n not in opened}
            have = {n: t for n, t in disk.items() if n not in opened}
            if want != have:
                res.append(("disk", f"{side.name}: files differ from what is shared: {difference(have, want)}"))
        return res, fa

    def local_quiet(self, side):
        """Everything that happened on this side so far is known to its daemon."""
        self.answers()
        if bb.settle(self.w, side.daemon, [side.leaf]) is None:
            side.daemon.check_alive("crash")
        side.written.clear()

    def quiet(self, what):
        self.answers()
        for src, dsts in ((self.A, (self.A.leaf, self.B.leaf, self.B)), (self.B, (self.B.leaf, self.A.leaf, self.A))):
            s = bb.settle(self.w, src.daemon, [d.daemon if isinstance(d, Side) else d for d in dsts])
            if s is None:
                for x in (self.A, self.B):
                    x.daemon.check_alive("crash")
                raise Inconclusive("a test peer ended")
        state = [None]

        def fine():
            state[0] = self.problems()
            return not state[0][0]
        self.w.wait(fine, what=what)
        res, shared = state[0]
        for x in (self.A, self.B):
            x.daemon.check_alive("crash")
        res += self.check_labels(shared)
        self.A.written.clear()
        self.B.written.clear()
        self.run.count("quiet points compared")
        mine = [r for r in res if r[0] in self.kinds]
        if mine:
            raise Violated(mine[0][0], f"{what}: " + "; ".join(f"{k}: {d}" for k, d in mine)[:3000], [self.A.daemon.tail(), self.B.daemon.tail()])
        if res:
            self.run.count("other problems: " + ", ".join(sorted({r[0] for r in res})))
            return False
        return True

    def check_labels(self, shared):
        res = []
        where = {}
        for n, t in shared.items():
            order = TOKEN.findall(t)
            for x in order:
                where.setdefault(x, []).append(n)
            known = self.before.get(n, [])
            kept = [x for x in order if x in set(known)]
            expected = [x for x in known if x in set(order)]
            if kept != expected and len(set(order)) == len(order):
                res.append(("reordered", f"{n}: {expected} became {kept}"))
            self.before[n] = order
        for x, path in self.live.items():
            found = where.get(x, [])
            if x in self.deleted:
                if found:
                    res.append(("undeleted", f"{x} was deleted, but is in {found}: {context(shared, x)}"))
            elif not found:
                res.append(("lost", f"{x} of {path} is gone: {shared.get(path, '(file is gone)')[:300]!r}"))
            elif len(found) > 1:
                res.append(("doubled", f"{x} is there {len(found)} times, in {found}: {context(shared, x)}"))
            elif found[0] != path:
                res.append(("misplaced", f"{x} of {path} is in {found[0]}"))
        self.run.count("labels checked", len(self.live))
        return res

    def hold(self):
        self.proxy.held.clear()
        self.run.log("the connection is held back")

    def resume(self):
        self.proxy.held.set()
        self.run.log("the connection continues")

    def editors_leave(self, side):
        given_up = {n: f["text"] for e in side.editors for n, f in e.files.items()}
        self.answers()
        for e in side.editors:
            e.disconnect()
        side.editors = []
        side.disk_at_open = {}
        self.written(side, given_up)

    def written(self, side, given_up):
        """Files that no editor has any more are on disk."""
        # Until the daemon has noticed that the editor left, it ignores what others write.
        self.w.wait(lambda: False, procs=[side.daemon], idle_s=0.4)
        if not self.w.wait(lambda: all(bb.text_files(side.dir).get(n) == t for n, t in given_up.items()), what="files of an editor that left"):
            raise Violated("ownership", f"{side.name}: an editor left, but its files are not written: {difference(bb.text_files(side.dir), given_up)}", [side.daemon.tail()])

    def stop(self, side):
        self.run.log(f"{side.name} stops")
        side.leaf.stop()
        side.daemon.stop()
        self.w.procs.remove(side.daemon)
        side.written.clear()

    def restart(self, side):
        """An orderly stop, offline work on both sides, and a new start."""
        self.editors_leave(side)
        if not self.quiet("after the editors have left"):
            return False
        self.stop(side)
        other = self.B if side is self.A else self.A
        if self.rng.random() < 0.8:
            for _ in range(self.rng.choice([1, 3, 6])):
                self.external(side)
            self.run.count("offline changes")
        if self.rng.random() < 0.8:
            for _ in range(self.rng.choice([1, 4])):
                if not self.edit(other):
                    self.external(other)
            self.local_quiet(other)
        self.run.log(f"{side.name} starts again")
        self.start(side)
        if side is self.A:
            # The connection is only made at start-up.
            self.editors_leave(other)
            self.stop(other)
            if self.rng.random() < 0.5:
                for _ in range(self.rng.choice([1, 3, 6])):
                    self.external(other)
            self.start(other)
        self.run.count("restarts")
        self.run.did((side.name, "restart"))
        return self.quiet("after a restart")


def context(shared, x):
    return {n: t[max(0, t.find(x) - 60):t.find(x) + 60] for n, t in shared.items() if x in t}


def difference(a, b):
    out = []
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        if x == y:
            continue
        if x is None or y is None or len(x) + len(y) < 400:
            out.append(f"{n}: {str(x)[:300]!r} and {str(y)[:300]!r}" if x is not None and y is not None else f"{n}: only in the {'second' if x is None else 'first'}")
            continue
        i = 0
        while i < min(len(x), len(y)) and x[i] == y[i]:
            i += 1
        out.append(f"{n} ({len(x)} and {len(y)} characters) from {i}: {x[max(0, i - 20):i + 100]!r} and {y[max(0, i - 20):i + 100]!r}")
    return "; ".join(out)[:1500]


def network(kinds, restarts=0.2, **kw):
    kinds = set(kinds) | {"crash"}

    def scenario(run):
        rng = run.rng
        with bb.World() as w:
            try:
                net = Net(run, w, kinds, **{k: rng.random() < v for k, v in kw.items()})
                if not net.quiet("at the beginning"):
                    return
                for _ in range(rng.choice([1, 2, 3])):
                    for side in (net.A, net.B):
                        for _ in range(rng.randrange(0, 4)):
                            net.editors(side)
                    held = rng.random() < 0.6
                    if held:
                        net.hold()
                    # While connected, other programs keep away from what somebody else might be changing.
                    free = {} if held else {s.name: set(bb.text_files(s.dir)) - net.A.open_files() - net.B.open_files() for s in (net.A, net.B)}
                    writer = rng.choice([net.A, net.B])
                    for _ in range(rng.choice([3, 10, 25])):
                        side = rng.choice([net.A, net.B])
                        if rng.random() < 0.7:
                            if net.edit(side):
                                continue
                        if held:
                            net.external(side)
                        elif side is writer:
                            net.external(side, only=free[side.name])
                        if rng.random() < 0.1:
                            time.sleep(rng.choice([0.01, 0.1]))
                        if rng.random() < 0.1:
                            net.local_quiet(side)
                    net.answers()
                    if held:
                        for side in (net.A, net.B):
                            net.local_quiet(side)
                        net.resume()
                    if not net.quiet("after a phase"):
                        return
                    if rng.random() < restarts:
                        if not net.restart(rng.choice([net.A, net.B])):
                            return
            except Violated as v:
                if v.signature not in kinds and v.signature != "no-answer":
                    run.count("other problems: " + v.signature)
                    return
                raise
            finally:
                try:
                    net.proxy.close()
                except (NameError, UnboundLocalError):
                    pass
    return scenario


everything = network({"convergence", "disk", "editor", "ownership", "refused", "lost", "doubled", "undeleted", "reordered", "misplaced"}, restarts=0.3, nasty=0.3, big=0.2, many=0.15)
network_convergence = network({"convergence", "disk", "editor"}, restarts=0.2, nasty=0.3, big=0.05, many=0.2)
network_editors = network({"editor"}, restarts=0, nasty=0.2)
network_labels = network({"lost", "doubled", "undeleted", "reordered", "misplaced"}, restarts=0.1, big=0.4, many=0.05)
network_ownership = network({"ownership", "disk"}, restarts=0.1)
network_restarts = network({"convergence", "disk", "lost", "doubled", "undeleted", "reordered", "misplaced"}, restarts=1, big=0.1, many=0.1)
network_nasty = network({"editor", "disk", "convergence", "lost", "doubled", "refused"}, restarts=0.3, nasty=1)


# --- the same name on both sides ---

class Conflict(Net):
    """Files are created, deleted and created again on both sides, while these do not hear of each other."""

    def text(self, name):
        t = "".join(self.filler() + self.label("x", name) for _ in range(self.rng.choice([0, 1, 2, 5, 40])))
        return t + self.rng.choice(["", "\n"])

    def known(self, side, name, text, what):
        if not self.w.wait(lambda: side.leaf.files().get(name) == text, what=what):
            raise Violated("external", f"{side.name}: {what} {name}, but the daemon has {side.leaf.files().get(name)!r} instead of {text!r}", [side.daemon.tail()])

    def put(self, side, name, text):
        tmp = os.path.join(side.dir, ".ethersync", "tmp-of-somebody")
        with open(tmp, "wb") as f:
            f.write(text.encode())
        p = os.path.join(side.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.replace(tmp, p)
        self.known(side, name, text, "somebody wrote")

    def remove(self, side, name):
        os.unlink(os.path.join(side.dir, name))
        self.known(side, name, None, "somebody deleted")

    def do(self, side, name, action, state):
        """One step of one side."""
        self.run.log(f"{side.name}: {action} {name}")
        self.run.did((side.name, action, name))
        self.run.count(action)
        if action == "delete":
            self.remove(side, name)
            state[name] = None
        elif action == "create":
            state[name] = self.text(name)
            self.put(side, name, state[name])
        elif action == "type":
            # In an editor, which makes the file as well, if there is none.
            os.makedirs(os.path.dirname(os.path.join(side.dir, name)), exist_ok=True)
            if not side.editors or self.rng.random() < 0.3:
                side.editors.append(self.w.editor(side.daemon, f"e{self.next}"))
            e = self.rng.choice(side.editors)
            if name not in side.open_files():
                text = state[name] if state[name] is not None else ""
                r = e.open(name, text)
                if r is None or "error" in r:
                    raise Violated("refused", f"{side.name}: opening {name} is refused: {r}", [side.daemon.tail()])
            else:
                e = next(x for x in side.editors if name in x.files)
            for _ in range(self.rng.choice([0, 1, 3])):
                with e.lock:
                    t = e.files[name]["text"]
                    i = self.rng.randrange(len(t) + 1)
                    self.pending.append((e, e.edit(name, i, i, self.filler() + self.label("x", name), wait=False)))
            self.answers()
            state[name] = e.text(name)
            self.known(side, name, state[name], "an editor changed")
        elif action == "look":
            e = self.w.editor(side.daemon, f"e{self.next}")
            side.editors.append(e)
            r = e.open(name, state[name])
            if r is None or "error" in r:
                raise Violated("refused", f"{side.name}: opening {name} is refused: {r}", [side.daemon.tail()])

    def plan(self, common, name, other):
        """What one side does to a file. `other` is what the other side does to it."""
        rng = self.rng
        if name in common:
            k = rng.random()
            if k < 0.3:
                p = []
            elif k < 0.45:
                p = ["delete"]
            elif k < 0.65:
                p = ["delete", "create"]
            elif k < 0.75:
                p = ["delete", "create", "delete", "create"]
            elif k < 0.85:
                p = ["delete", "type"]
            else:
                # Of two who type into the same file, neither wins, so this only happens to one.
                p = ["type"] if other is None or other[:1] == ["delete"] or not other else []
        else:
            p = rng.choice([[], ["create"], ["create"], ["type"], ["create", "type"], ["create", "delete"], ["create", "delete", "create"], ["type"]])
        return p

    def gone(self, name, e, side):
        """The file was deleted, although the editor still shows it."""
        with e.lock:
            f = e.files[name]
            i = e.request_nowait("edit", {"uri": e.uri(name), "revision": f["daemon_rev"], "delta": [
                {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "x"}]})
            f["editor_rev"] += 1
        r = e.wait_response(i)
        if r is None or "error" not in r:
            raise Violated("gone", f"{side.name}: {name} was deleted, {e.name} shows {f['text']!r}, the file is {side.leaf.files().get(name)!r}, "
                                   f"but an edit of it was answered with {r}", [side.daemon.tail()])
        with e.lock:
            e.files.pop(name)
        self.run.count("edits of files that were deleted, refused")


def conflicts(run):
    rng = run.rng
    kinds = {"crash", "outcome", "uninvolved", "gone", "convergence", "disk", "editor", "later"}
    with bb.World() as w:
        try:
            net = Conflict(run, w, kinds, nasty=rng.random() < 0.2)
            net.check_labels = lambda shared: []
            if not net.quiet("at the beginning"):
                return
            for round_ in range(rng.choice([1, 2, 3])):
                shared = {n: t for n, t in net.A.leaf.files().items() if not n.startswith("sentinel")}
                net.hold()
                names = sorted(shared) + [f"new{round_}", f"dir{round_}/new"]
                state = {"A": {n: shared.get(n) for n in names}, "B": {n: shared.get(n) for n in names}}
                plans, todo = {}, []
                for n in names:
                    first, second = rng.sample(["A", "B"], 2)
                    plans[first, n] = net.plan(shared, n, None)
                    plans[second, n] = net.plan(shared, n, plans[first, n])
                    if plans[first, n][:1] == ["type"] and n in shared and plans[second, n][:1] == ["type"]:
                        plans[second, n] = []
                for k, p in plans.items():
                    if p and p[-1] in ("create", "type") and rng.random() < 0.4:
                        p.append("type")
                    elif p == [] and state[k[0]][k[1]] is not None and rng.random() < 0.4:
                        # Not involved, but shows it.
                        todo.append((k, ["look"]))
                todo += [(k, list(p)) for k, p in plans.items() if p]
                net.removed = {("B" if sn == "A" else "A", n) for (sn, n), p in plans.items() if "delete" in p}
                while todo:
                    (sn, n), p = x = rng.choice(todo)
                    net.do(net.A if sn == "A" else net.B, n, p.pop(0), state[sn])
                    if not p:
                        todo.remove(x)
                run.log("before: " + str({n: (state["A"][n], state["B"][n]) for n in names})[:1500])
                net.resume()
                if not net.quiet("after the connection continued"):
                    return
                after = net.A.leaf.files()
                for n in names:
                    pa, pb = plans["A", n], plans["B", n]
                    allowed = [state["A"][n], state["B"][n]] if pa and pb else [state["A"][n]] if pa else [state["B"][n]]
                    if after.get(n) not in allowed:
                        kind = "outcome" if pa and pb else "uninvolved"
                        raise Violated(kind, f"{n} is {after.get(n)!r}. On A ({'+'.join(pa)}) it was {state['A'][n]!r}, on B ({'+'.join(pb)}) {state['B'][n]!r}, "
                                             f"before {shared.get(n)!r}", [net.A.daemon.tail(), net.B.daemon.tail()])
                    run.count("names changed on both sides" if pa and pb else "names changed on one side" if pa or pb else "names not changed")
                # Life goes on.
                for side in (net.A, net.B):
                    for e in list(side.editors):
                        for n in sorted(e.files):
                            if e.text(n) != net.A.leaf.files().get(n):
                                net.gone(n, e, side)
                            elif rng.random() < 0.6:
                                i = rng.randrange(len(e.text(n)) + 1)
                                r = e.edit(n, i, i, net.label("x", n))
                                if r is not None and "error" in r and (side.name, n) in net.removed:
                                    with e.lock:
                                        e.files.pop(n)
                                    run.count("edits of files that were deleted and created again, refused")
                                    continue
                                if r is None or "error" in r:
                                    raise Violated("later", f"an edit of {n} is refused: {r}", [side.daemon.tail()])
                                net.removed.discard((side.name, n))
                                if not net.quiet("after an edit"):
                                    return
                                now = net.A.leaf.files()
                                if now.get(n) != e.text(n) or {x for x in now if not x.startswith("sentinel")} != {x for x in after if not x.startswith("sentinel")}:
                                    raise Violated("later", f"{n} is {now.get(n)!r}, {side.name}/{e.name} has {e.text(n)!r}; files before and now: {sorted(after)} {sorted(now)}",
                                                   [net.A.daemon.tail(), net.B.daemon.tail()])
                                run.count("edits of what is left")
                    for e in side.editors:
                        e.disconnect()
                    if side.editors:
                        w.wait(lambda: False, procs=[side.daemon], idle_s=0.4)
                    side.editors, side.disk_at_open = [], {}
                net.removed = set()
                if not net.quiet("after all editors left"):
                    return
        except Violated as v:
            if v.signature not in kinds and v.signature != "no-answer":
                run.count("other problems: " + v.signature)
                return
            raise
        finally:
            try:
                net.proxy.close()
            except (NameError, UnboundLocalError):
                pass
