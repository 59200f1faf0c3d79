"""Containment (C08): hostile names from editors, peers and the directory itself. The daemon runs as an unprivileged user
who owns nothing but the scratch area, so that an escaped call can reach nothing else."""
import os
import shutil
import urllib.parse

import bb
import common
from bb_files import pause, diff_dicts
from common import Inconclusive, Violated

UID = 54321
_bin = {}


def shim():
    """Builds the monitor library."""
    import subprocess
    src = os.path.join(common.VERIF, "shim/fsmon.c")
    out = os.path.join(common.TARGET, "fsmon.so")
    with common.Lock("shim"):
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out + ".new", src, "-ldl", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Inconclusive("building the monitor library failed: " + r.stdout)
            os.rename(out + ".new", out)
    return out


def public_binary():
    """The binary and the monitor at a place the unprivileged user can read."""
    if "bin" not in _bin:
        with common.Lock("public"):
            if "bin" not in _bin:
                d = common.scratch("verif-bin-")
                os.chmod(d, 0o755)
                for src, name in ((bb.BIN, "ethersync"), (shim(), "fsmon.so")):
                    shutil.copy(src, os.path.join(d, name))
                    os.chmod(os.path.join(d, name), 0o755)
                _bin["shim"] = os.path.join(d, "fsmon.so")
                _bin["bin"] = os.path.join(d, "ethersync")
    return _bin["bin"], _bin["shim"]


def own(root):
    for base, dirs, files in os.walk(root):
        os.lchown(base, UID, UID)
        for f in files + dirs:
            os.lchown(os.path.join(base, f), UID, UID)


def snapshot(root, skip):
    res = {}
    for base, dirs, files in os.walk(root):
        if base == skip:
            dirs[:] = []
            continue
        for f in files + dirs:
            p = os.path.join(base, f)
            if p == skip:
                continue
            st = os.lstat(p)
            if os.path.islink(p):
                res[p] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                res[p] = ("dir", oct(st.st_mode))
            else:
                res[p] = (open(p, "rb").read(), oct(st.st_mode))
    return res


def read_log(path):
    try:
        with open(path, errors="surrogateescape") as f:
            for line in f:
                w = line.rstrip("\n").split("\t")
                if len(w) == 5:
                    yield int(w[0]), w[1], w[2], w[3], int(w[4])
    except OSError:
        return


def containment(run):
    rng = run.rng
    binary, preload = public_binary()
    with bb.World() as w:
        os.chown(w.run, UID, UID)
        os.chown(w.home, UID, UID)
        area = os.path.join(w.root, "area")
        proj = os.path.join(area, "proj")
        needle = f"{rng.getrandbits(96):024x}"
        files = {"outside/secret.txt": f"top secret {needle}\n", "outside/dir/inner.txt": f"inner {needle}\n",
                 "proj2/other.txt": f"sibling {needle}\n", "proj-evil/x": f"evil {needle}\n", "pro": f"short {needle}\n",
                 "proj/f": "shared\n", "proj/sub/g": "shared too\n", "proj/sub/deep/h": "deep\n"}
        bb.write_files(area, files)
        os.makedirs(os.path.join(proj, ".ethersync"))
        bb.write_files(proj, {".ethersync/config": "secret = s\n"})
        links = {"lfile": "../outside/secret.txt", "ldir": "../outside", "ldangling": "../outside/new-from-link",
                 "ldangling2": "../outside/none/new", "labs": os.path.join(area, "outside"), "lloop": "lloop", "lsib": "../proj2",
                 "sub/lup": "../../outside", "lchain": "ldir/dir", "lself": ".", "lin": "sub", "ldang_in": "sub/not-there-yet",
                 "lparent": "..", "ldang_chain": "ldangling"}
        made = []
        for name in rng.sample(sorted(links), rng.randrange(2, len(links))):
            os.symlink(links[name], os.path.join(proj, name))
            made.append(name)
        later = [n for n in links if n not in made]
        given = proj
        if rng.random() < 0.25:
            # The project is reached through a link itself.
            given = os.path.join(area, "alias")
            os.symlink("proj", given)
        own(area)
        run.did("links " + " ".join(sorted(made)) + (" alias" if given != proj else ""))
        run.log("links in the project:", made, given)
        fslog = os.path.join(w.home, "fs.log")
        old = bb.BIN
        A = bb.Daemon(w, "A", given, port=bb.free_port(), secret="s", write_config=False, user=UID,
                      env={"LD_PRELOAD": preload, "FSMON_ROOT": area, "FSMON_LOG": fslog}, wrap=None, wait=False, binary=binary)
        assert old == bb.BIN
        if not A.wait_ready():
            raise Violated("crash", f"the daemon does not start: {A.tail()}")
        P = w.peer(secret="s")
        P.connect(A)
        w.wait(lambda: "f" in P.files(), what="the first sync")
        before = snapshot(area, proj)
        ed = w.editor(A)
        ed.daemon_dir = proj

        rels = ["../outside/new", "../outside/secret.txt", "../outside/dir/inner.txt", "../proj2/other.txt", "../proj2/new", "../proj-evil/x",
                "../pro", "../new", "sub/../../outside/secret.txt", "sub/../../outside/new2", "nodir/../../outside/new3", "nodir/../f2",
                "..", ".", "", "../", "../..", "../../../../../../../../" + area.lstrip("/") + "/outside/new4", "./../outside/new5",
                os.path.join(area, "outside/new6"), os.path.join(area, "outside/secret.txt"), os.path.join(area, "proj2/new7"), "/", "//",
                "/" + area + "/outside/new8", "lfile", "ldir/secret.txt", "ldir/new9", "ldir/sub/new10", "ldangling", "ldangling/x", "ldangling2",
                "labs/secret.txt", "labs/new11", "lloop", "lloop/x", "lsib/other.txt", "lsib/new12", "sub/lup/secret.txt", "sub/lup/new13",
                "lchain/inner.txt", "lchain/new14", "lself/f3", "lself/../../outside/new15", "lin/new16", "lin/../../outside/new17",
                "lparent/outside/secret.txt", "lparent/outside/new18", "lparent/new19", "lparent/proj/f4", "ldang_in", "ldang_chain",
                "f/new20", "sub", "f\x00/../../outside/x", "a" * 300, "x/" * 60 + "y", "ldir/dir/../secret.txt", "ldir/../outside/secret.txt",
                "ldir/..", "lfile/..", "sub/lup/../outside/secret.txt", "-rf", "~", "~/x", "$HOME/x", "*", "new\nline"]

        def outside_path(rel):
            """Does this name lead out of the project? None if unclear (does not exist yet, odd)."""
            p = os.path.normpath(os.path.join(proj, rel))
            r = os.path.realpath(p)
            return not (r == proj or r.startswith(proj + "/"))

        def enc(p):
            style = rng.choice(["plain", "quoted", "dots"])
            if style == "quoted":
                return "file://" + urllib.parse.quote(p)
            if style == "dots":
                return "file://" + p.replace("..", "%2e%2e").replace("\n", "%0A").replace("\x00", "%00")
            return "file://" + p

        for _ in range(rng.randrange(6, 24)):
            actor = rng.choice(["peer", "peer", "peer", "editor", "editor", "link"])
            rel = rng.choice(rels)
            if actor == "peer":
                kind = rng.choice(["new", "new", "new_splice", "new_remove", "remove_only", "conflict"])
                run.log("peer", kind, repr(rel)[:120])
                run.did(f"peer {kind} {rel[:80]}")
                run.count("peer attempts")
                if kind == "conflict":
                    P.cmd("conflict", path=rel, text="evil one\n", other="evil two\n")
                else:
                    P.cmd("new", path=rel, text="evil\n")
                    if kind == "new_splice":
                        P.cmd("splice", path=rel, pos=0, text="more ", **{"del": 0})
                    if kind in ("new_remove", "remove_only"):
                        P.cmd("remove", path=rel)
            elif actor == "editor":
                base = rng.choice([proj, given])
                path = rel if rel.startswith("/") else base + "/" + rel
                u = enc(path)
                method = rng.choice(["open", "open", "open", "edit", "close", "cursor"])
                if rng.random() < 0.1:
                    u = rng.choice(["", "http://example.com/x", "file://host" + path, "untitled:1", path, "file:" + path, "FILE://" + path, u + "#x", u + "?q"])
                params = {"uri": u}
                if method == "edit":
                    params.update(revision=0, delta=[{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "evil"}])
                if method == "cursor":
                    params.update(ranges=[{"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}])
                r = ed.request(method, params)
                run.log("editor", method, u[:120], str(r)[:120])
                run.did(f"editor {method} {u[-60:]}")
                run.count("editor attempts")
                if r is None:
                    A.check_alive()
                    raise Violated("closed", f"the daemon closed the connection after {method} {u!r}")
                if method == "open" and "error" not in r:
                    run.count("opened")
                    if u.startswith("file://") and "\x00" not in path and outside_path(urllib.parse.unquote(u[7:])) and outside_path(u[7:]):
                        raise Violated("opened", f"the daemon opened {u!r}, which leads outside of the project")
            elif later:
                name = later.pop(rng.randrange(len(later)))
                p = os.path.join(proj, name)
                # A link that appears between the daemon's check and its write is not what this is about.
                for k in range(2):
                    marker = f"before-link-{len(later)}-{k}"
                    P.cmd("new", path=marker, text="m")
                    if not w.wait(lambda: os.path.exists(os.path.join(proj, marker)), what="a marker"):
                        A.check_alive()
                        raise Violated("stuck", "the daemon no longer accepts files after these attempts", [A.tail()])
                if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                    try:
                        os.symlink(links[name], p)
                    except FileExistsError:
                        continue
                    os.lchown(p, UID, UID)
                    run.log("new link", name)
                    run.did(f"link {name}")
                    run.count("links made while running")
            pause(rng)
        P.cmd("new", path="marker", text="m")
        arrived = w.wait(lambda: os.path.exists(os.path.join(proj, "marker")), what="the marker")
        A.check_alive()
        if not arrived:
            raise Violated("stuck", "the daemon no longer accepts files after these attempts", [A.tail()])
        after = snapshot(area, proj)
        run.count("entries outside compared", len(before))
        if before != after:
            raise Violated("outside-changed", f"something outside of the project changed: {diff_dicts(before, after)}")
        for seq, op, path, path2, arg in read_log(fslog):
            run.count("file-system calls checked")
            real = path
            if not (real == proj or real.startswith(proj + "/")):
                raise Violated("outside-access", f"file-system call outside of the project: {op} {path} {path2}")
            if op == "rename" and not path2.startswith(proj + "/"):
                raise Violated("outside-access", f"file-system call outside of the project: {op} {path} {path2}")
        if P.cmd("find", needle=needle)["found"]:
            raise Violated("leaked", "content from outside of the project was sent to a peer")
        for f in ("f", "sub/g"):
            if "evil" not in P.files().get(f, "") and open(os.path.join(proj, f)).read() != files["proj/" + f]:
                raise Violated("unrelated", f"{f} changed")
