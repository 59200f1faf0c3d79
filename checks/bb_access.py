"""C16: who can reach the editor socket and the key."""
import os
import re
import shutil
import socket
import stat
import time
import uuid

import bb
from bb_contain import read_log, shim
from common import Inconclusive, Violated


def connectable(path):
    s = socket.socket(socket.AF_UNIX)
    try:
        s.connect(path)
        return True
    except OSError:
        return False
    finally:
        s.close()


def sockets_in(root):
    res = []
    for base, dirs, files in os.walk(root):
        for f in files:
            try:
                if stat.S_ISSOCK(os.lstat(os.path.join(base, f)).st_mode):
                    res.append(os.path.join(base, f))
            except OSError:
                pass
    return res


def start(run, w, d, socket_path=None, umask=None, env=None, name="A", port=None, **kw):
    """Starts a daemon and waits until it serves its socket or has ended. True if it serves."""
    wrap = ["sh", "-c", f"umask {umask:03o}; exec \"$@\"", "sh"] if umask is not None else None
    D = bb.Daemon(w, name, d, wait=False, wrap=wrap, env=env, port=port, **kw)
    path = socket_path or D.socket
    D.socket = path

    def decided():
        return not D.alive() or connectable(path) and (port is None or D.listening())
    if not bb.wait_for(decided, [D], what="start", idle_s=5):
        # It neither serves nor ends.
        D.serving = False
        return D
    D.serving = D.alive()
    return D


def editor_works(D, w):
    e = w.editor(D)
    r = e.open("f")
    return bool(r and "error" not in r)


def socket_dir(run, w, d):
    rng = run.rng
    mode = rng.choice([0o700, 0o700, 0o710, 0o701, 0o750, 0o705, 0o770, 0o707, 0o777, 0o755, 0o740, 0o704, 0o720, 0o702, 0o730, 0o703,
                       0o1777, 0o1700, 0o2700, 0o2750, 0o500, 0o300, rng.randrange(0, 0o10000)])
    link = rng.random() < 0.2
    target = w.run
    if link:
        target = os.path.join(w.root, "target")
        os.mkdir(target)
        os.rmdir(w.run)
        os.symlink(target, w.run)
        os.chmod(w.root, rng.choice([0o755, 0o700]))
    os.chmod(target, mode)
    stale = rng.choice([None, None, "socket", "file"])
    path = os.path.join(target, "sock-A")
    if stale == "socket":
        s = socket.socket(socket.AF_UNIX)
        s.bind(path)
        s.close()
    elif stale == "file":
        with open(path, "w") as f:
            f.write("left over")
    run.log(f"runtime directory has mode {mode:o}, link {link}, left over {stale}")
    run.did(["dir", mode, link, stale])
    D = start(run, w, d)
    open_to_others = mode & 0o077
    if D.serving:
        if open_to_others:
            raise Violated("open-directory", f"the socket is served from a directory with mode {mode:o}", [D.tail()])
        if not editor_works(D, w):
            raise Violated("not-served", "the socket does not work", [D.tail()])
        run.count("served")
    else:
        if D.alive() and open_to_others and not sockets_in(target):
            run.count("does not serve, keeps running")
        if not open_to_others and (mode & 0o700) == 0o700:
            raise Violated("not-served", f"the socket is not served from a directory with mode {mode:o}: {D.tail()}")
        if open_to_others and not stale and sockets_in(target):
            raise Violated("open-directory", f"there is a socket in a directory with mode {mode:o}", [D.tail()])
        run.count("refused to serve")


def fallback_dir(run, w, d):
    rng = run.rng
    user = "verif-" + uuid.uuid4().hex[:12]
    base = f"/tmp/ethersync-{user}"
    umask = rng.choice([0, 0o002, 0o022, 0o027, 0o077])
    existing = rng.choice([None, None, 0o700, 0o755, 0o770, 0o777, 0o710, 0o701])
    run.log(f"no XDG_RUNTIME_DIR, umask {umask:03o}, fallback directory has mode {existing and oct(existing)}")
    run.did(["fallback", umask, existing])
    try:
        if existing is not None:
            os.mkdir(base)
            os.chmod(base, existing)
        # Not set, rather than empty.
        wrap_env = {"USER": user}
        D = None
        old = os.environ.pop("XDG_RUNTIME_DIR", None)
        try:
            D = bb.Daemon(w, "A", d, wait=False, env=wrap_env,
                          wrap=["env", "-u", "XDG_RUNTIME_DIR", "sh", "-c", f"umask {umask:03o}; exec \"$@\"", "sh"])
        finally:
            if old is not None:
                os.environ["XDG_RUNTIME_DIR"] = old
        path = os.path.join(base, "sock-A")
        D.socket = path
        bb.wait_for(lambda: not D.alive() or connectable(path), [D], what="start", idle_s=5)
        serving = D.alive() and connectable(path)
        if serving:
            mode = stat.S_IMODE(os.stat(base).st_mode)
            if mode & 0o077:
                raise Violated("open-directory", f"the socket is served from the fallback directory with mode {mode:o}", [D.tail()])
            if not editor_works(D, w):
                raise Violated("not-served", "the socket does not work", [D.tail()])
            run.count("served from the fallback directory")
        else:
            if existing in (None, 0o700):
                raise Violated("not-served", f"no socket in the fallback directory: {D.tail()}")
            if os.path.isdir(base) and sockets_in(base):
                raise Violated("open-directory", f"there is a socket in the fallback directory with mode {existing:o}", [D.tail()])
            run.count("refused the fallback directory")
    finally:
        if D is not None and D.alive():
            D.kill()
        assert base.startswith("/tmp/ethersync-verif-")
        shutil.rmtree(base, ignore_errors=True)


def socket_name(run, w, d):
    rng = run.rng
    os.mkdir(os.path.join(w.run, "sub"), 0o700)
    victim = os.path.join(w.root, "victim")
    for v in (victim, os.path.join(w.run, "sub/victim")):
        with open(v, "w") as f:
            f.write("keep me")
    good = rng.random() < 0.3
    if good:
        name = rng.choice(["x", "a.b", "ethersync", "..x", "...", "ä", "with space", "-x", "a" * 60])
    else:
        name = rng.choice(["../victim", "../new", "sub/victim", "sub/new", "/" + os.path.relpath(victim, "/"), os.path.join(w.run, "sock"),
                           ".", "..", "./x", "sub/../x", "../run/x", "x/../../victim", "sub/./victim", "/", "", "..//victim"])
    how = rng.choice(["option", "option", "env"])
    who = rng.choice(["daemon", "daemon", "daemon", "client"])
    run.log(f"socket name {name!r} for the {who}, given by {how}")
    run.did(["name", name, how, who])
    extra = {"env": {"ETHERSYNC_SOCKET": name}} if how == "env" else {}
    import subprocess
    from common import clean_env
    env = clean_env(XDG_RUNTIME_DIR=w.run, RUST_BACKTRACE="0", NO_COLOR="1", USER="verif", HOME=w.home)
    env.pop("ETHERSYNC_SOCKET", None)
    env.update(extra.get("env", {}))
    cmd = [bb.BIN] + (["daemon", d] if who == "daemon" else ["client"])
    if how == "option":
        cmd.append(f"--socket-name={name}")
    log = open(os.path.join(w.root, "A.log"), "ab")
    p = subprocess.Popen(cmd, env=env, stdin=subprocess.PIPE, stdout=log, stderr=log, cwd=w.root)
    bb._running.append(p)

    class P:
        pass
    proc = P()
    proc.p, proc.pid = p, p.pid
    w.procs.append(proc)
    tail = lambda: open(os.path.join(w.root, "A.log"), "rb").read()[-800:].decode("utf-8", "replace")
    if who == "client":
        # There is no socket of that name, so it has to fail in any case.
        if not good:
            s = None
            if not bb.wait_for(lambda: p.poll() is not None, [proc], what="exit", idle_s=5):
                raise Violated("bad-name", f"the client uses the socket name {name!r}")
            if p.returncode == 0:
                raise Violated("bad-name", f"the client accepts the socket name {name!r}")
        run.count("client")
        return
    # Where it would be, and nowhere else.
    path = os.path.join(w.run, name)
    if good:
        if not bb.wait_for(lambda: p.poll() is None and connectable(path), [proc], what="start", idle_s=5):
            raise Violated("not-served", f"the socket name {name!r} does not work: {tail()}")
        run.count("good names served")
        return
    bb.wait_for(lambda: p.poll() is not None, [proc], what="exit", idle_s=3)
    found = sockets_in(w.root)
    if found:
        raise Violated("bad-name", f"with the socket name {name!r}, there is a socket at {found}", [tail()])
    for v in (victim, os.path.join(w.run, "sub/victim")):
        if not os.path.exists(v) or open(v).read() != "keep me":
            raise Violated("bad-name", f"with the socket name {name!r}, the file {v} was changed", [tail()])
    if p.poll() is None:
        raise Violated("bad-name", f"with the socket name {name!r}, the daemon keeps running", [tail()])
    if p.returncode == 0 and name != "":
        raise Violated("bad-name", f"with the socket name {name!r}, the daemon reports success", [tail()])
    run.count("bad names refused")


def peer_id(D):
    m = re.findall(r"local_peer_id=(\w+)", D.tail(100000))
    return m[-1] if m else None


def key_file(run, w, d):
    rng = run.rng
    umask = rng.choice([0, 0o002, 0o022, 0o027, 0o077])
    key = os.path.join(d, ".ethersync/key")
    fslog = os.path.join(w.root, "fs.log")
    env = {"LD_PRELOAD": shim(), "FSMON_ROOT": d, "FSMON_LOG": fslog}
    D = start(run, w, d, umask=umask, env=env, port=bb.free_port())
    run.did(["key", umask])
    if not D.serving:
        raise Violated("not-served", f"the daemon does not start: {D.tail()}")
    if not w.wait(lambda: os.path.exists(key), what="the key"):
        raise Violated("no-key", "no key file was created", [D.tail()])
    mode = stat.S_IMODE(os.stat(key).st_mode)
    if mode != 0o600:
        raise Violated("key-mode", f"with umask {umask:03o}, the key file was created with mode {mode:o}", [D.tail()])
    content = open(key, "rb").read()
    for _, op, path, _, arg in read_log(fslog):
        if op == "mode" and os.path.basename(path).startswith("key") and int(arg) & 0o077:
            raise Violated("key-mode", f"with umask {umask:03o}, {path} had mode {int(arg):o} when it was created", [D.tail()])
    run.count("keys created")
    first = peer_id(D)
    D.stop()
    mode = rng.choice([0o600, 0o600, 0o640, 0o604, 0o644, 0o660, 0o666, 0o700, 0o610, 0o601, 0o620, 0o602, 0o777, 0o400, 0o4600, 0o606,
                       rng.randrange(0, 0o1000)])
    os.chmod(key, mode)
    run.log(f"key file created with umask {umask:03o}, then set to mode {mode:o}")
    run.did(["key mode", mode])
    port = bb.free_port()
    D = start(run, w, d, umask=umask, name="B", port=port)
    if open(key, "rb").read() != content:
        raise Violated("key-replaced", f"the existing key file with mode {mode:o} was replaced", [D.tail()])
    if mode & 0o077:
        # Peers are not served with such a key.
        if D.alive():
            bb.wait_for(lambda: not D.alive(), [D], what="exit", idle_s=3)
        if D.alive() and D.listening():
            raise Violated("key-accepted", f"a key file with mode {mode:o} is used", [D.tail()])
        run.count("keys refused")
    elif mode == 0o600:
        if not D.serving:
            raise Violated("not-served", f"the daemon does not start with the key it created: {D.tail()}")
        if first and peer_id(D) and peer_id(D) != first:
            raise Violated("key-replaced", f"the daemon was {first}, now it is {peer_id(D)}", [D.tail()])
        run.count("keys kept")


def access(run):
    rng = run.rng
    with bb.World() as w:
        d = w.project("a", {"f": "hello\n"})
        rng.choice([socket_dir, socket_dir, fallback_dir, socket_name, socket_name, key_file])(run, w, d)
