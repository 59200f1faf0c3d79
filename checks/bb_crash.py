"""Crashes (C07): the daemon is ended at every changing file-system call of a session, also in the middle of a write, and
started again on what is left."""
import os
import re
import signal
import threading
import time

import bb
from bb_contain import read_log, shim
from bb_files import diff_dicts
from common import Inconclusive, Violated

LABEL = re.compile(r"<[a-z]+\d+>")


def saved_ops(fslog):
    """Number of finished changes of the saved state so far."""
    n = 0
    for _, op, path, path2, _ in read_log(fslog):
        if path.endswith("/.ethersync/doc") and op == "write" or op == "rename" and path2.endswith("/.ethersync/doc"):
            n += 1
    return n


class Session:
    """A daemon under the monitor, a peer that keeps the shared history, and the labels written so far."""

    def __init__(self, run, world):
        self.run, self.w, self.rng = run, world, run.rng
        self.port = bb.free_port()
        self.dir = world.project("a", {"f": "<base0>\n", "sub/g": "<base1>\n", "h": "<base2>\n"})
        self.fslog = os.path.join(world.root, "fs.log")
        self.label = 10
        self.phase = 0
        self.written = {}    # label -> (file, phase)
        for n, f in ((0, "f"), (1, "sub/g"), (2, "h")):
            self.written[f"<base{n}>"] = (f, 0)
        self.exempt = set()
        self.removed = {}

    def start(self, kill_at=None, torn=0, append_log=False):
        env = {}
        if not append_log and os.path.exists(self.fslog):
            os.unlink(self.fslog)
        env = {"LD_PRELOAD": shim(), "FSMON_ROOT": self.dir, "FSMON_LOG": self.fslog, "FSMON_TORN": str(torn)}
        if kill_at:
            env["FSMON_KILL_AT"] = str(kill_at)
        self.A = bb.Daemon(self.w, "A", self.dir, port=self.port, secret="s", env=env, wait=False)
        return self.A

    def new_label(self, kind, f):
        self.label += 1
        t = f"<{kind}{self.label}>"
        self.written[t] = (f, self.phase)
        return t

    def external(self, f):
        path = os.path.join(self.dir, f)
        t = self.new_label("ext", f)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "a") as fh:
            fh.write(t + "\n")
        self.run.log(f"phase {self.phase}: other program appends {t} to {f}")
        return lambda: t in self.P.files().get(f, "")

    def remote(self, f):
        t = self.new_label("rem", f)
        files = self.P.files()
        if f not in files:
            self.P.cmd("new", path=f, text=t + "\n")
        else:
            lines = files[f].split("\n")
            k = self.rng.randrange(0, len(lines))
            self.P.cmd("splice", path=f, pos=sum(len(x) + 1 for x in lines[:k]), text=t + "\n", **{"del": 0})
        self.run.log(f"phase {self.phase}: peer inserts {t} into {f}")
        return lambda: t in bb.text_files(self.dir).get(f, "")

    def edit(self, f):
        e = self.w.editor(self.A)
        if e.open(f) is None:
            return None
        t = self.new_label("edi", f)
        e.edit(f, 0, 0, t + "\n")
        e.close_file(f)
        e.disconnect()
        self.run.log(f"phase {self.phase}: editor inserts {t} into {f}")
        return lambda: t in self.P.files().get(f, "")

    def remove(self, f, where):
        if where == "peer":
            self.P.cmd("remove", path=f)
        else:
            os.unlink(os.path.join(self.dir, f))
        self.run.log(f"phase {self.phase}: {f} is removed ({where})")
        self.removed[f] = self.phase
        return lambda: f not in self.P.files() and not os.path.exists(os.path.join(self.dir, f))


def until_saved(s, dead):
    """Another change of the state may follow up to a second later."""
    t0 = time.time()
    last = saved_ops(s.fslog)
    while not dead() and time.time() - t0 < 1.3:
        time.sleep(0.1)
        if saved_ops(s.fslog) != last:
            last, t0 = saved_ops(s.fslog), time.time()


def carry_on(s):
    """A session after a crash is as good as any other: what it saves is there the next time."""
    rng, w, run = s.rng, s.w, s.run
    until_saved(s, lambda: not s.A.alive())
    for _ in range(rng.randrange(1, 3)):
        settled = saved_ops(s.fslog)
        s.phase += 1
        todo = [s.remote(f) if rng.random() < 0.6 else s.external(f) for f in rng.sample(["f", "sub/g", "h"], rng.randrange(1, 3))]
        if not w.wait(lambda: all(t() for t in todo), what="the changes after the crash"):
            s.A.check_alive()
            raise Violated("no-sync", "a change in the session after the crash did not get through", [s.A.tail()])
        if not w.wait(lambda: saved_ops(s.fslog) > settled, what="saving", idle_s=25):
            raise Violated("not-saved", "changes in the session after the crash were not saved although nothing else happened", [s.A.tail()])
        until_saved(s, lambda: not s.A.alive())
    before = s.P.files()
    s.A.check_alive()
    s.A.stop(rng.choice([signal.SIGKILL, signal.SIGINT]))
    s.P.cmd("disconnect")
    s.phase += 1
    expected = dict(before)
    if rng.random() < 0.7:
        t = s.new_label("rem", "f")
        s.P.cmd("splice", path="f", pos=0, text=t + "\n", **{"del": 0})
        expected["f"] = t + "\n" + before["f"]
    if rng.random() < 0.7:
        s.external("sub/g")
        expected["sub/g"] = bb.text_files(s.dir)["sub/g"]
    A = s.start()
    if not A.wait_ready():
        raise Violated("no-restart", f"the daemon does not start after the session after the crash: {A.tail()}")
    time.sleep(0.3)
    e = s.P.connect(A)
    if e["ev"] != "stream":
        raise Violated("no-sync", f"can't connect to the daemon after its second restart: {e}", [A.tail()])
    s.P.cmd("new", path="marker3", text="m")
    expected["marker3"] = "m"
    ok = w.wait(lambda: s.P.files() == bb.text_files(s.dir) == expected, what="convergence", idle_s=8)
    A.check_alive()
    if not ok:
        raise Violated("saved-later", "what had been saved in the session after the crash was not there the next time: "
                       f"peer {diff_dicts(s.P.files(), expected)}, directory {diff_dicts(bb.text_files(s.dir), expected)}", [A.tail()])
    run.count("sessions after a crash saved")


def crash_points(run):
    rng = run.rng
    index = int(run.key.rsplit("/", 1)[1])
    with bb.World() as w:
        s = Session(run, w)
        # The n-th changing call of the session, or some call of the start after it.
        kill_at = 1 + index % 48
        torn = rng.choice([0, 0, 1, 300, 500, 999])
        second = rng.choice([None, None, None, 1, 2, 3, 4, 5])
        run.log(f"end at changing call {kill_at}, share of a write that still happens {torn}/1000, second end at {second}")
        A = s.start(kill_at, torn)
        s.P = w.peer(secret="s")
        dead = lambda: not A.alive()

        def wait(pred, what, idle_s=6.0):
            return w.wait(lambda: dead() or pred(), what=what, idle_s=idle_s)

        def connect(daemon):
            try:
                return s.P.connect(daemon, limit=40)
            except Inconclusive:
                if daemon.alive():
                    raise
                return None
        if A.wait_ready():
            connect(A)
            if not wait(lambda: "f" in s.P.files(), "the first sync"):
                raise Violated("no-sync", "the first sync never happened", [A.tail()])
        phases = 0
        while not dead() and phases < 8:
            # Everything so far gets saved, within a bounded time.
            settled = saved_ops(s.fslog)
            s.phase += 1
            phases += 1
            todo, by = [], {}
            for _ in range(rng.randrange(1, 4)):
                if dead():
                    break
                f = rng.choice(["f", "sub/g", "h", "new1", "d/e/new2"])
                kind = rng.choice(["external", "remote", "remote", "edit", "remove"])
                try:
                    if kind == "remove":
                        if f in ("f", "sub/g", "h") or f not in s.P.files() or f in s.removed or not os.path.exists(os.path.join(s.dir, f)):
                            continue
                        todo = [t for t in todo if t[0] != f] + [(f, s.remove(f, "peer" if f in by else rng.choice(["peer", "disk"])))]
                    elif f in s.removed or (kind == "external") != (by.setdefault(f, kind) == "external"):
                        # A program writing a file at the moment a remote change arrives is not what this is about.
                        continue
                    elif (f in s.P.files()) != os.path.exists(os.path.join(s.dir, f)):
                        # Just created on the other side: creating it here, too, would be a naming conflict.
                        continue
                    elif kind == "edit":
                        if os.path.exists(os.path.join(s.dir, f)):
                            s.exempt_edit = f
                            todo.append((f, s.edit(f)))
                    else:
                        todo.append((f, getattr(s, kind)(f)))
                except (OSError, KeyError):
                    time.sleep(0.5)
                    if not dead():
                        raise
                time.sleep(rng.choice([0, 0, 0.02, 0.2]))
            todo = [t for _, t in todo if t]
            if dead():
                break
            if not wait(lambda: all(t() for t in todo), "the changes"):
                raise Violated("no-sync", "a change did not get through", [A.tail()])
            if todo and not wait(lambda: saved_ops(s.fslog) > settled, "saving", idle_s=25):
                raise Violated("not-saved", "changes were not saved although nothing else happened", [A.tail()])
            until_saved(s, dead)
            run.count("phases saved")
        if not dead():
            # Fewer calls than expected: an ordinary kill between two of them.
            A.kill()
            run.count("killed between calls")
            last_op = None
        else:
            A.p.wait()
            if A.p.returncode != -signal.SIGKILL:
                raise Violated("crash", f"the daemon ended by itself: {A.tail()}")
            ops = list(read_log(s.fslog))
            last_op = [o for o in ops if o[0] == kill_at][-1:]
            last_op = last_op[0] if last_op else None
        torn_file = None
        if last_op:
            rel = os.path.relpath(last_op[2], s.dir)
            run.count(f"ended at {last_op[1]} of {rel if rel.startswith('.ethersync') else 'a project file'}")
            run.log("ended at", last_op[1], rel)
            run.did(f"{last_op[1]} {rel} {torn} phase {s.phase} {s.label}")
            if last_op[1] == "write" and not rel.startswith(".ethersync"):
                torn_file = rel
        else:
            run.did(f"between calls {s.phase} {s.label}")
        crash_phase = s.phase
        if second:
            B = s.start(second, torn)
            if not w.wait(lambda: not B.alive() or B.wait_ready(), what="restart"):
                raise Inconclusive("restart")
            t0 = time.time()
            while B.alive() and time.time() - t0 < 2.5:
                time.sleep(0.1)
            if not B.alive() and B.p.wait() != -signal.SIGKILL:
                raise Violated("no-restart", f"the daemon does not start after the first crash: {B.tail()}", [f"torn {torn_file}"])
            if B.alive():
                B.kill()
            run.count("ended again during the next start")
        s.P.cmd("disconnect")
        disk = bb.text_files(s.dir)
        A = s.start()
        if not A.wait_ready():
            raise Violated("no-restart", f"the daemon does not start after the crash: {A.tail()}")
        run.count("restarts")
        time.sleep(0.3)
        e = s.P.connect(A)
        if e["ev"] != "stream":
            raise Violated("no-sync", f"can't connect to the daemon after its restart: {e}", [A.tail()])
        s.P.cmd("new", path="marker", text="m")
        if not w.wait(lambda: os.path.exists(os.path.join(s.dir, "marker")), what="the marker"):
            A.check_alive()
            raise Violated("no-sync", "nothing arrives at the daemon after its restart", [A.tail()])
        with open(os.path.join(s.dir, "marker2"), "w") as fh:
            fh.write("n")
        ok = w.wait(lambda: "marker2" in s.P.files() and s.P.files() == bb.text_files(s.dir), what="convergence", idle_s=8)
        A.check_alive()
        peer, now = s.P.files(), bb.text_files(s.dir)
        if not ok:
            raise Violated("diverged", f"after the restart, peer and directory differ: {diff_dicts(peer, now)}", [A.tail()])
        for f, text in peer.items():
            seen = LABEL.findall(text)
            for t in set(seen):
                if t not in s.written:
                    raise Violated("invented", f"{f} contains {t}, which nobody wrote: {text!r}")
        lost, doubled = [], []
        for t, (f, phase) in s.written.items():
            if s.removed.get(f, 99) <= crash_phase:
                continue
            n = peer.get(f, "").count(t)
            run.count("labels checked")
            if n == 0 and not (phase == crash_phase and t not in disk.get(f, "") and t.startswith(("<edi", "<ext"))):
                # What was in memory only at the moment of the crash may be gone.
                lost.append((t, f, phase))
            if n > 1 and phase < crash_phase and phase < s.phase:
                doubled.append((t, f, phase))
        for f, phase in s.removed.items():
            if phase < crash_phase and f in peer:
                raise Violated("undeleted", f"{f} is back, although its removal had been saved", [A.tail()])
        only_torn = torn_file is not None and all(f == torn_file for _, f, _ in lost + doubled)
        if lost:
            raise Violated("torn-project-file" if only_torn else "lost",
                           f"after the crash in phase {crash_phase} at {last_op}: {lost} are gone; disk at restart {disk}, now {peer}", [A.tail()])
        if doubled:
            raise Violated("torn-project-file" if only_torn else "doubled",
                           f"after the crash in phase {crash_phase} at {last_op}: {doubled} appear more than once; disk at restart {disk}, now {peer}", [A.tail()])
        if last_op and last_op[2].endswith("/.ethersync/doc") or rng.random() < 0.15:
            carry_on(s)
