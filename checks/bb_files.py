"""Scenarios about files: changes by other programs (C10), ignored and private files (C09)."""
import os
import shutil
import subprocess

import bb
import scen
from common import Inconclusive, Violated

WORDS = ["alpha", "beta", "gamma", "delta", "eins", "zwei", "drei", "vier", "ünï", "žluť", "日本", "🥕🥕"]


def some_text(rng, tag):
    n = rng.choice([0, 1, 1, 2, 3, 5, 20])
    lines = [f"{tag} {rng.choice(WORDS)} {rng.randrange(1000)}" for _ in range(n)]
    t = "\n".join(lines)
    if lines and rng.random() < 0.8:
        t += "\n"
    return t


def diff_dicts(want, got):
    out = []
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            out.append(f"{k!r}: expected {short(want.get(k))}, found {short(got.get(k))}")
    return "; ".join(out[:6])


def short(x):
    r = repr(x)
    return r if len(r) < 160 else r[:100] + "..." + r[-50:]


class FileOps:
    """Random changes another program makes to a directory. All names stay in the directory and do
    not collide with what the daemon ignores."""

    def __init__(self, run, root, outside, prefix=""):
        self.run, self.rng = run, run.rng
        self.root, self.outside, self.prefix = root, outside, prefix
        self.n = 0

    def entries(self):
        files, dirs = [], [""]
        for base, ds, fs in os.walk(self.root):
            ds[:] = sorted(d for d in ds if d not in (".ethersync", ".git"))
            rel = os.path.relpath(base, self.root)
            rel = "" if rel == "." else rel + "/"
            dirs += [rel + d + "/" for d in ds if (rel + d).startswith(self.prefix)]
            files += [rel + f for f in sorted(fs) if not f.startswith("sentinel-") and (rel + f).startswith(self.prefix)]
        return files, dirs

    def fresh(self):
        self.n += 1
        return f"{self.prefix}{self.rng.choice(['f', 'x', 'Ünï', 'a b', 'n.txt', '.hid', 'mod.rs'])}{self.n}"

    def in_dir(self, dirs):
        d = self.rng.choice(dirs)
        return d + self.fresh()

    def text(self):
        self.n += 1
        return some_text(self.rng, f"t{self.n}")

    def path(self, rel):
        return os.path.join(self.root, rel)

    def step(self):
        rng = self.rng
        files, dirs = self.entries()
        ops = ["create", "create", "mkdir_file", "copy_tree", "move_in", "move_dir_in", "create_tmp_rename"]
        if files:
            ops += ["write", "write", "append", "replace", "replace", "rename", "rename", "delete", "move_out", "rename_over",
                    "truncate", "tweak", "tweak", "rewrite_same", "delete_recreate", "backup_write", "copy"]
        if len(dirs) > 1:
            ops += ["rename_dir", "rename_dir", "rm_dir", "move_dir_out"]
        op = rng.choice(ops)
        p = self.path
        desc = op
        if op == "create":
            f = self.in_dir(dirs)
            write(p(f), self.text())
            desc += " " + f
        elif op == "create_tmp_rename":
            f = self.in_dir(dirs)
            write(p(f + ".tmp"), self.text())
            os.rename(p(f + ".tmp"), p(f))
            desc += " " + f
        elif op == "mkdir_file":
            d = self.in_dir(dirs) + "d"
            if rng.random() < 0.4:
                d += "/deep/er"
            os.makedirs(p(d), exist_ok=True)
            for i in range(rng.randrange(1, 4)):
                write(p(f"{d}/m{i}"), self.text())
            desc += " " + d
        elif op == "copy_tree":
            src = os.path.join(self.outside, f"tree{self.n}")
            os.makedirs(os.path.join(src, "inner"))
            for i in range(rng.randrange(1, 4)):
                write(os.path.join(src, rng.choice(["", "inner/"]) + f"c{i}"), self.text())
            d = self.in_dir(dirs) + "t"
            shutil.copytree(src, p(d))
            desc += " " + d
        elif op == "move_in":
            src = os.path.join(self.outside, f"in{self.n}")
            write(src, self.text())
            f = self.in_dir(dirs)
            os.rename(src, p(f))
            desc += " " + f
        elif op == "move_dir_in":
            src = os.path.join(self.outside, f"dir{self.n}")
            os.makedirs(os.path.join(src, "in"))
            for i in range(rng.randrange(1, 4)):
                write(os.path.join(src, rng.choice(["", "in/"]) + f"v{i}"), self.text())
            d = self.in_dir(dirs) + "mv"
            os.rename(src, p(d))
            desc += " " + d
        elif op == "rename_dir":
            a = rng.choice(dirs[1:])
            b = self.in_dir([d for d in dirs if not d.startswith(a)]) + "rd"
            os.rename(p(a.rstrip("/")), p(b))
            desc += f" {a} {b}"
        elif op == "rm_dir":
            a = rng.choice(dirs[1:])
            shutil.rmtree(p(a))
            desc += " " + a
        elif op == "move_dir_out":
            a = rng.choice(dirs[1:])
            self.n += 1
            os.rename(p(a.rstrip("/")), os.path.join(self.outside, f"gone{self.n}"))
            desc += " " + a
        else:
            f = rng.choice(files)
            desc += " " + f
            if op == "write":
                write(p(f), self.text())
            elif op == "append":
                with open(p(f), "a", encoding="utf-8") as h:
                    h.write(self.text())
            elif op == "truncate":
                write(p(f), "")
            elif op == "tweak":
                # As little as possible: one character more, less or different, anywhere or at the very end.
                with open(p(f), encoding="utf-8", newline="") as h:
                    t = h.read()
                i = len(t) if rng.random() < 0.6 else rng.randrange(len(t) + 1)
                k = rng.random()
                if k < 0.6:
                    t = t[:i] + rng.choice(["\n", " ", "\t", "x", "\n\n", "\r", "ä"]) + t[i:]
                elif k < 0.8:
                    t = t[:max(0, i - 1)] + t[i:]
                else:
                    t = t[:max(0, i - 1)] + rng.choice(["y", " ", "\n"]) + t[i:]
                write(p(f), t)
                desc += f" {i} {k:.2f}"
            elif op == "rewrite_same":
                t = open(p(f), "rb").read()
                with open(p(f), "wb") as h:
                    h.write(t)
            elif op == "replace":
                tmp = p(f) + rng.choice([".swp", ".tmp", ".new"])
                write(tmp, self.text())
                os.rename(tmp, p(f))
            elif op == "backup_write":
                # What editors do that keep a backup: move the old file away, write a new one.
                b = p(f) + "~"
                os.rename(p(f), b)
                write(p(f), self.text())
                if rng.random() < 0.5:
                    os.unlink(b)
            elif op == "rename":
                g = self.in_dir(dirs)
                os.rename(p(f), p(g))
                desc += " " + g
            elif op == "copy":
                g = self.in_dir(dirs)
                shutil.copyfile(p(f), p(g))
                desc += " " + g
            elif op == "rename_over":
                g = rng.choice(files)
                if g != f:
                    os.rename(p(f), p(g))
                    desc += " " + g
            elif op == "delete":
                os.unlink(p(f))
            elif op == "move_out":
                self.n += 1
                os.rename(p(f), os.path.join(self.outside, f"out{self.n}"))
            elif op == "delete_recreate":
                os.unlink(p(f))
                if rng.random() < 0.5:
                    pause(rng)
                write(p(f), self.text())
        self.run.log(desc)
        self.run.did(desc)
        self.run.count("op " + op)


def pause(rng):
    import time
    time.sleep(rng.choice([0, 0, 0.001, 0.005, 0.02, 0.1]))


def write(path, text):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def visible(d):
    """What the daemon is expected to share of a directory."""
    return {k: v for k, v in bb.text_files(d).items() if not k.endswith("~") and not k.startswith("sentinel-")
            and "~/" not in k}


def no_sentinels(files):
    return {k: v for k, v in files.items() if not k.startswith("sentinel-")}


def check_same(run, w, daemons, peers, why, reference=None, idle_s=7.0):
    """After quiescence all directories and replicas are equal (to the reference directory)."""
    ref = reference or daemons[0]

    def views():
        want = visible(ref.dir)
        for d in daemons:
            yield d.name, want, visible(d.dir)
        for i, p in enumerate(peers):
            yield f"replica {i}", want, no_sentinels(p.files())

    def same():
        return all(a == b for _, a, b in views())
    ok = w.wait(same, idle_s=idle_s, what=why)
    for d in daemons:
        d.check_alive()
    if not ok:
        for name, want, got in views():
            if want != got:
                raise Violated(why, f"{name} differs from {ref.name}: {diff_dicts(want, got)}",
                               [ref.tail(), *(d.tail() for d in daemons if d is not ref)])
    run.count("directories compared", len(daemons))
    run.count("replicas compared", len(peers))


def external_changes(run):
    rng = run.rng
    with bb.World() as w:
        outside = os.path.join(w.root, "outside")
        os.mkdir(outside)
        start = {f"s{i}": some_text(rng, f"s{i}") for i in range(rng.randrange(0, 4))}
        start.update({f"dir/e{i}": some_text(rng, f"e{i}") for i in range(rng.randrange(0, 3))})
        A = w.daemon("A", w.project("a", start), port=bb.free_port(), secret="s")
        B = w.daemon("B", w.project("b"), port=bb.free_port(), peer=A.addr(), secret="s")
        P = w.peer(secret="s")
        P.connect(A)
        check_same(run, w, [A, B], [P], "start")
        src = rng.choice([A, B])
        bb.settle(w, src, [A if src is B else B, P])
        ops = FileOps(run, src.dir, outside)
        speed = rng.choice(["burst", "mixed", "slow"])
        run.did(f"{src.name} {speed}")
        for _ in range(rng.randrange(3, 25)):
            ops.step()
            if speed != "burst":
                pause(rng)
            if speed == "slow" and rng.random() < 0.3:
                check_same(run, w, [A, B], [P], "external", reference=src)
        bb.settle(w, src, [A if src is B else B, P])
        check_same(run, w, [A, B], [P], "external", reference=src)
        run.count("histories with bursts" if speed == "burst" else "histories with pauses")


# --- ignored and private files -----------------------------------------------------------------

PATTERNS = ["*.log", "build/", "/rooted", "secret*", "deep/**/gen", "*.o", "tmp?", "[ab]x", "doc/*.pdf", "foo/bar", "**/cache"]
NAMES = ["a.log", "main.rs", "build/out.txt", "src/build/x", "rooted", "src/rooted", "secret1", "src/secret.txt", "deep/a/b/gen",
         "deep/gen", "x.o", "src/y.o", "tmp1", "tmp12", "ax", "cx", "doc/a.pdf", "doc/b/c.pdf", "doc/a.txt", "foo/bar", "src/foo/bar",
         "cache", "src/cache", "notes.txt", ".hidden", "src/.env", "keep.log", "src/lib.rs", "README", "b.txt"]


def git(d, *args, env, stdin=None):
    r = subprocess.run(["git", "-C", d, *args], env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.stdout


def git_ignored(d, names, env):
    """What git itself would ignore: an oracle independent of the library the daemon uses."""
    out = git(d, "check-ignore", "--no-index", "-z", "--stdin", env=env, stdin="\0".join(names).encode())
    return {x.decode() for x in out.split(b"\0") if x}


def private_snapshot(d):
    """Everything below .git and .ethersync, apart from what the daemon itself keeps there."""
    res = {}
    for base, dirs, files in os.walk(d):
        rel = os.path.relpath(base, d)
        parts = rel.split(os.sep)
        private = ".git" in parts or ".ethersync" in parts
        for f in files + [x for x in dirs if os.path.islink(os.path.join(base, x))]:
            p = os.path.join(base, f)
            r = os.path.normpath(os.path.join(rel, f))
            if not private:
                continue
            if r in (".ethersync/doc", ".ethersync/doc.new", ".ethersync/key", ".ethersync/key.new"):
                continue
            st = os.lstat(p)
            res[r] = (os.readlink(p) if os.path.islink(p) else open(p, "rb").read(), oct(st.st_mode))
        if private:
            res[rel + "/"] = ("dir",)
    return res


def ignored_files(run):
    rng = run.rng
    with bb.World() as w:
        d = w.project("a")
        env = {"HOME": w.home, "PATH": os.environ["PATH"], "GIT_CONFIG_NOSYSTEM": "1", "XDG_CONFIG_HOME": w.home + "/none"}
        in_git = rng.random() < 0.85
        if in_git:
            git(d, "init", "-q", env=env)
            rules = rng.sample(PATTERNS, rng.randrange(1, 6))
            if rng.random() < 0.3:
                rules.append("!keep.log")
            where = rng.choice([".gitignore", ".gitignore", ".git/info/exclude", "global"])
            if where == "global":
                # The user's own rules, for all repositories.
                rules = [r for r in rules if "/" not in r[:-1]] or ["*.o"]
                where = os.path.join(w.home, rng.choice([".config/git/ignore", "my-ignores"]))
                if where.endswith("my-ignores"):
                    git(d, "config", "--global", "core.excludesFile", where, env=env)
                del env["XDG_CONFIG_HOME"]
            os.makedirs(os.path.dirname(os.path.join(d, where)), exist_ok=True)
            write(os.path.join(d, where), "\n".join(rules) + "\n")
            run.did(f"{os.path.relpath(where, w.home) if os.path.isabs(where) else where}: {rules}")
            if rng.random() < 0.3:
                nested = rng.sample(["*.rs", "foo", ".env", "!build/"], 1)
                bb.write_files(d, {"src/.gitignore": "\n".join(nested) + "\n"})
                run.did(f"src/.gitignore: {nested}")
        else:
            run.did("no git")
        counter = [0]
        secrets = {}        # needle -> where it was written
        shared = {}         # name -> needle that should be visible

        def needle():
            counter[0] += 1
            return f"{rng.getrandbits(96):024x}"

        def ignored(name):
            parts = name.split("/")
            if any(p.endswith("~") for p in parts) or ".git" in parts or ".ethersync" in parts:
                return True
            return in_git and bool(git_ignored(d, [name], env))

        def put(name, how="write"):
            n = needle()
            data = f"first\n{n}\n".encode()
            binary = rng.random() < 0.12
            if binary:
                data = rng.choice([b"\xff\xfe", b"\x80abc", b"\xc3"]) + data
            p = os.path.join(d, name)
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            except OSError:
                return
            if os.path.isdir(p):
                return
            if how == "rename":
                tmp = os.path.join(w.root, f"tmp{counter[0]}")
                with open(tmp, "wb") as f:
                    f.write(data)
                os.rename(tmp, p)
            else:
                with open(p, "wb") as f:
                    f.write(data)
            hidden = binary or ignored(name)
            run.log(how, name, "binary" if binary else "", "ignored" if hidden and not binary else "")
            run.did(f"{how} {name} {hidden}")
            if hidden:
                secrets[n] = f"{how} {name}" + (" (binary)" if binary else "")
                run.count("hidden files written")
                if not binary:
                    shared.pop(name, None)
                elif name in shared:
                    shared[name] = None         # the old text may stay shared
            else:
                shared[name] = n
                run.count("shared files written")

        names = list(NAMES) + ["backup.txt~", "src/x~", ".git/verif-file", ".ethersync/verif-file", "sub/.git/inner", "sub/.ethersync/y", "dir~/inside"]
        for name in rng.sample(names, rng.randrange(4, 14)):
            put(name)
        A = w.daemon("A", d, port=bb.free_port(), secret="s")
        P = w.peer(secret="s")
        P.connect(A)
        bb.settle(w, A, [P])
        ed = w.editor(A)

        def check(why):
            files = P.files()
            for n, where in secrets.items():
                run.count("searches for hidden content")
                if P.cmd("find", needle=n)["found"] or any(n in text for text in files.values()):
                    raise Violated("leaked", f"content that must stay private was sent to a peer ({why}): {where}")
            for name in files:
                if name.startswith("sentinel-"):
                    continue
                if ignored(name) and name in NAMES + names and name not in ever_shared:
                    raise Violated("leaked-name", f"an ignored file is part of the shared project ({why}): {name}")

        ever_shared = set(shared)
        check("at start-up")
        for _ in range(rng.randrange(3, 12)):
            kind = rng.choice(["write", "write", "rename", "open", "open", "rules"])
            name = rng.choice(names)
            if kind == "rules":
                if in_git:
                    # Everything before this was subject to the old rules.
                    bb.settle(w, A, [P])
                    rule = rng.choice(PATTERNS)
                    with open(os.path.join(d, ".gitignore"), "a") as f:
                        f.write(rule + "\n")
                    for name in [n for n in shared if ignored(n)]:
                        shared.pop(name)
                    run.did(f"rule {rule}")
                    run.log("new rule", rule)
            elif kind in ("write", "rename"):
                put(name, kind)
                if not ignored(name):
                    ever_shared.add(name)
            else:
                p = os.path.join(d, name)
                if not os.path.isfile(p):
                    continue
                hidden = ignored(name)
                try:
                    open(p, encoding="utf-8").read()
                    binary = False
                except UnicodeDecodeError:
                    binary = True
                r = ed.request("open", {"uri": ed.uri(name)})
                run.log("open", name, r)
                run.did(f"open {name}")
                run.count("opened in an editor")
                if hidden or binary:
                    if r is not None and "error" not in r:
                        raise Violated("opened", f"the daemon let an editor open {name}, which is {'binary' if binary else 'ignored'}")
                else:
                    if r is None or "error" in r:
                        raise Violated("not-opened", f"the daemon refused to open {name}: {r}")
                    ed.request("close", {"uri": ed.uri(name)})
            pause(rng)
        bb.settle(w, A, [P])

        def all_shared():
            files = P.files()
            return all(n is None or n in files.get(name, "") for name, n in shared.items() if os.path.isfile(os.path.join(d, name)))
        ok = w.wait(all_shared, idle_s=6, what="shared files to arrive")
        A.check_alive()
        if not ok:
            files = P.files()
            missing = [name for name, n in shared.items() if n and n not in files.get(name, "") and os.path.isfile(os.path.join(d, name))]
            raise Violated("not-shared", f"files that are neither ignored nor binary were not shared: {missing}", [A.tail()])
        run.count("shared files that arrived", len(shared))
        check("while running")


def private_files(run):
    """A peer that tries to get at .git and .ethersync."""
    rng = run.rng
    with bb.World() as w:
        d = w.project("a", {"f": "shared\n", "src/g": "shared too\n", ".git/config": "[core]\n", ".git/hooks/pre-commit.sample": "#!/bin/sh\n",
                            ".ethersync/config": "secret = s\n", "src/.git/HEAD": "ref\n", "src/.ethersync/doc": "x\n"})
        if rng.random() < 0.5:
            os.symlink(".git", os.path.join(d, "lnk"))
        if rng.random() < 0.5:
            os.symlink("../.ethersync", os.path.join(d, "src/lnk"))
        if rng.random() < 0.5:
            os.symlink(".git/config", os.path.join(d, "cfg"))
        A = w.daemon("A", d, port=bb.free_port(), secret="s", write_config=False)
        P = w.peer(secret="s")
        P.connect(A)
        bb.settle(w, A, [P])
        before = private_snapshot(d)
        key = open(os.path.join(d, ".ethersync/key"), "rb").read()
        targets = [".git/config", ".git/hooks/post-checkout", ".git/new/dir/x", ".ethersync/config", ".ethersync/key", ".ethersync/doc",
                   ".ethersync/doc.new", "src/.git/HEAD", "src/.git/new", "src/.ethersync/doc", "new/.git/config", "new/.ethersync/config",
                   "./.git/config", "src/../.git/config", "src/../.ethersync/new", ".git/../.git/evil", "lnk/config", "lnk/evil", "src/lnk/config",
                   "src/lnk/evil", "cfg", ".git", ".ethersync", "f/../.git/evil2", "nonexistent/../.git/evil3", ".git//config", ".git/./evil4"]
        for t in rng.sample(targets, rng.randrange(3, 10)):
            kind = rng.choice(["new", "new_remove", "new_splice", "conflict"])
            run.log(kind, t)
            run.did(f"{kind} {t}")
            run.count("attempts")
            if kind == "conflict":
                P.cmd("conflict", path=t, text="evil one\n", other="evil two\n")
            else:
                P.cmd("new", path=t, text="evil\n")
                if kind == "new_splice":
                    P.cmd("splice", path=t, pos=0, text="more evil\n", **{"del": 0})
                if kind == "new_remove":
                    if rng.random() < 0.5:
                        pause(rng)
                    P.cmd("remove", path=t)
        P.cmd("new", path="marker", text="m")
        w.wait(lambda: os.path.exists(os.path.join(d, "marker")), what="the marker")
        A.check_alive()
        if not os.path.exists(os.path.join(d, "marker")):
            raise Violated("stuck", "the daemon no longer accepts files after these attempts", [A.tail()])
        after = private_snapshot(d)
        run.count("private entries compared", len(before))
        if before != after:
            raise Violated("private", f"a peer changed private files: {diff_dicts(before, after)}")
        if open(os.path.join(d, ".ethersync/key"), "rb").read() != key:
            raise Violated("private", "a peer changed the key file")
        # The saved state must still be usable.
        A.stop()
        A2 = w.daemon("A2", d, port=bb.free_port(), secret="s", write_config=False)
        if not A2.alive():
            raise Violated("private", f"the daemon does not start after a peer's attempts: {A2.tail()}")
        if open(os.path.join(d, "f")).read() != "shared\n":
            raise Violated("private", "an unrelated file changed")
