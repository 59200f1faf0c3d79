"""C22: where settings come from, and which content each role starts with."""
import os
import time

import bb
from common import Inconclusive, Violated

DEFAULT = "default-passphrase"


def listening_ports(pid):
    """TCP ports this very process listens on."""
    inodes = set()
    try:
        for f in os.listdir(f"/proc/{pid}/fd"):
            try:
                t = os.readlink(f"/proc/{pid}/fd/{f}")
            except OSError:
                continue
            if t.startswith("socket:["):
                inodes.add(t[8:-1])
        res = set()
        with open(f"/proc/{pid}/net/tcp") as fh:
            for line in list(fh)[1:]:
                x = line.split()
                if x[3] == "0A" and x[9] in inodes:
                    res.add(int(x[1].rsplit(":", 1)[1], 16))
        return res
    except OSError:
        return set()


def config_text(rng, values):
    lines = [f"{k}{rng.choice(['=', ' = ', '= ', ' ='])}{v}" for k, v in values.items()]
    rng.shuffle(lines)
    for extra in ("; a comment", "# port = 1", "other = value", "", "ports = 7", "peers = x", "secrets = y"):
        if rng.random() < 0.25:
            lines.insert(rng.randrange(len(lines) + 1), extra)
    return "\n".join(lines) + rng.choice(["", "\n"])


def settings(run, w):
    """Every combination of settings on the command line, in the config file, or nowhere."""
    rng = run.rng
    secret = rng.choice([None, None, "s3cret", "another secret", "a=b:c"])
    effective = secret if secret is not None else DEFAULT
    # Two hosts the daemon could join, told apart by their content.
    where = {}
    for s in ("port", "peer"):
        where[s] = rng.choice(["cli", "config", "both", "none"])
    hosts = {}
    if where["peer"] != "none":
        for h in ("cli", "config"):
            hosts[h] = w.daemon("host-" + h, w.project("host-" + h, {f"from-{h}": f"{h}\n"}), port=bb.free_port(), secret=effective)
    ports = {"cli": bb.free_port(), "config": bb.free_port()}
    conf, extra = {}, []
    for s, value in (("port", lambda x: str(ports[x])), ("peer", lambda x: hosts[x].addr())):
        if where[s] in ("config", "both"):
            conf[s] = value("config")
        if where[s] in ("cli", "both"):
            extra += rng.choice([[f"--{s}", value("cli")], [f"--{s}={value('cli')}"]])
    if secret is not None:
        conf["secret"] = secret
    d = w.project("d", {"own": "own\n"})
    text = config_text(rng, conf)
    if conf or rng.random() < 0.5:
        with open(os.path.join(d, ".ethersync/config"), "w") as f:
            f.write(text)
    run.log(f"port from {where['port']}, peer from {where['peer']}, secret {secret!r}; options {extra}, config {text!r}")
    run.did([where["port"], where["peer"], secret, text.split("\n") and len(text), len(extra)])
    run.count("combinations")
    D = w.daemon("D", d, extra=extra)
    D.check_alive("not-started")
    expected_port = {"cli": ports["cli"], "both": ports["cli"], "config": ports["config"]}.get(where["port"])
    if not w.wait(lambda: listening_ports(D.pid), what="listening"):
        raise Violated("port", "the daemon does not listen on any port", [D.tail()])
    got = listening_ports(D.pid)
    if expected_port is not None and got != {expected_port}:
        raise Violated("port", f"the daemon listens on {got} instead of {expected_port}", [D.tail()])
    if expected_port is None and got & set(ports.values()):
        raise Violated("port", f"the daemon listens on {got}, which nobody asked for", [D.tail()])
    port = got.pop()
    expected_host = {"cli": "cli", "both": "cli", "config": "config"}.get(where["peer"])
    if expected_host:
        name = f"from-{expected_host}"
        if not w.wait(lambda: os.path.exists(os.path.join(d, name)), what="content of the host"):
            raise Violated("peer", f"the daemon does not get the content of the host given by {expected_host}: {bb.text_files(d)}", [D.tail()])
        other = "from-config" if expected_host == "cli" else "from-cli"
        if os.path.exists(os.path.join(d, other)):
            raise Violated("peer", f"the daemon gets the content of the other host: {bb.text_files(d)}", [D.tail()])
        expected = {name: f"{expected_host}\n"}
    else:
        expected = {"own": "own\n"}
    # With the secret that is expected, and only that, others can connect.
    P = w.peer(secret=effective)
    P.dial(f"/ip4/127.0.0.1/tcp/{port}")
    e = P.wait_event(("connected", "dial_error"), 60)
    if e["ev"] != "connected":
        raise Violated("secret", f"the secret {effective!r} is not accepted: {e}", [D.tail()])
    P.cmd("open")
    if not w.wait(lambda: P.files() == expected, what="content"):
        raise Violated("content", f"shared is {P.files()} instead of {expected}", [D.tail()])


def random_project(rng, who, n=None):
    names = ["a", "b", "c", "sub/a", "sub/b", "x/y/z", "Ä.txt", "with space"]
    rng.shuffle(names)
    names = names[:n if n is not None else rng.randrange(1, 7)]
    return {x: rng.choice(["", f"{who} {x}\n", f"{who} {x}", f"{who}\nlines\nof {x}\n", "same\n", f"{who} {x} ä€👩‍🚀\n" * 20]) for x in names}


def host_and_joiners(run, w):
    """A host shares its directory. Joiners take over what the host has, and keep their own to themselves."""
    rng = run.rng
    secret = "s"
    hfiles = random_project(rng, "host")
    h = w.project("h", hfiles)
    H = w.daemon("H", h, port=bb.free_port(), secret=secret, init=rng.random() < 0.3)
    H.check_alive("not-started")
    P = w.peer(secret=secret)
    P.connect(H)
    if not w.wait(lambda: P.files() == hfiles, what="content of the host"):
        raise Violated("host", f"the host shares {P.files()} instead of its directory {hfiles}", [H.tail()])
    run.count("files of hosts compared", len(hfiles))
    joiners = []
    for k in range(rng.randrange(1, 3)):
        jfiles = random_project(rng, f"joiner{k}")
        j = w.project(f"j{k}", jfiles)
        run.did([sorted(hfiles), sorted(jfiles)])
        run.log(f"host has {sorted(hfiles)}, joiner has {sorted(jfiles)}")
        joiners.append((w.daemon(f"J{k}", j, secret=secret, peer=H.addr()), j, jfiles))
    expected = [dict(jfiles, **hfiles) for _, _, jfiles in joiners]
    if not w.wait(lambda: all(bb.text_files(j) == e for (_, j, _), e in zip(joiners, expected)), what="content of the joiners"):
        raise Violated("joiner", f"the joiners have {[bb.text_files(j) for _, j, _ in joiners]} instead of {expected}", [H.tail()] + [J.tail() for J, _, _ in joiners])
    # Changes get through in both directions ...
    for n, (J, j, _) in enumerate(joiners):
        bb.settle(w, J, [P])
        bb.settle(w, H, [J])
    # ... and nothing of the joiners' own has been shared.
    files = {k: v for k, v in P.files().items() if not k.startswith("sentinel-")}
    hdir = {k: v for k, v in bb.text_files(h).items() if not k.startswith("sentinel-")}
    if files != hfiles or hdir != hfiles:
        raise Violated("joiner-shares", f"after joining, shared is {files}, the host has {hdir}, expected {hfiles}", [H.tail()])
    run.count("files of joiners compared", sum(map(len, expected)))
    H.check_alive()


def init_option(run, w):
    """Starting again with and without --init."""
    rng = run.rng
    secret = "s"
    files = random_project(rng, "first", 4)
    h = w.project("h", files)
    port = bb.free_port()
    H = w.daemon("H", h, port=port, secret=secret)
    H.check_alive("not-started")
    needle = "needle-" + "".join(rng.choice("abcdefghij") for _ in range(20))
    P = w.peer(secret=secret)
    P.connect(H)
    # Something that is in the history, but not in the directory any more.
    P.cmd("new", path="gone", text=needle)
    if not w.wait(lambda: os.path.exists(os.path.join(h, "gone")), what="file"):
        raise Violated("no-sync", "a new file does not arrive", [H.tail()])
    P.cmd("remove", path="gone")
    if not w.wait(lambda: not os.path.exists(os.path.join(h, "gone")), what="removal"):
        raise Violated("no-sync", "a removal does not arrive", [H.tail()])
    P.stop()
    H.stop()
    # Changes while it is not running.
    now = dict(files)
    for _ in range(rng.randrange(0, 4)):
        what = rng.choice(["change", "remove", "create"])
        if what == "create":
            k = f"new{rng.randrange(9)}"
            now[k] = f"created {rng.random()}\n"
        elif now:
            k = rng.choice(sorted(now))
            if what == "remove":
                now.pop(k)
            else:
                now[k] = rng.choice([now[k] + "appended\n", "prepended\n" + now[k], "replaced\n", ""])
    for k in files:
        if k not in now:
            os.unlink(os.path.join(h, k))
    bb.write_files(h, now)
    init = rng.random() < 0.6
    run.log(f"first {sorted(files)}, later {sorted(now)}, init {init}")
    run.did([init, sorted(files.items()), sorted(now.items())])
    H = w.daemon("H2", h, port=port, secret=secret, init=init)
    H.check_alive("not-started")
    Q = w.peer(secret=secret)
    Q.connect(H)
    if not w.wait(lambda: Q.files() == now, what="content"):
        raise Violated("init" if init else "restart", f"after starting again, shared is {Q.files()} instead of {now}", [H.tail()])
    # The contents can be complete before the history is.
    bb.settle(w, H, [Q])
    if init and Q.cmd("find", needle=needle)["found"]:
        raise Violated("init", "after starting with --init, the old history is still there", [H.tail()])
    if not init and not w.wait(lambda: Q.cmd("find", needle=needle)["found"], what="history"):
        raise Violated("restart", "after starting without --init, the old history is gone", [H.tail()])
    run.count("new histories" if init else "continued histories")
    if {k: v for k, v in bb.text_files(h).items() if not k.startswith("sentinel-")} != now:
        raise Violated("init" if init else "restart", f"starting again changed the directory to {bb.text_files(h)} instead of {now}", [H.tail()])


def needs_directory(run, w):
    """Without .ethersync/, nothing is shared, changed or served."""
    import subprocess
    from common import clean_env
    rng = run.rng
    d = os.path.join(w.root, "plain")
    os.makedirs(d)
    bb.write_files(d, {"f": "x\n"})
    kind = rng.choice(["nothing", "file", "in parent"])
    if kind == "file":
        with open(os.path.join(d, ".ethersync"), "w") as f:
            f.write("")
    elif kind == "in parent":
        os.mkdir(os.path.join(w.root, ".ethersync"))
    env = clean_env(XDG_RUNTIME_DIR=w.run, RUST_BACKTRACE="0", NO_COLOR="1", USER="verif", HOME=w.home)
    env.pop("ETHERSYNC_SOCKET", None)
    cmd = [bb.BIN, "daemon", "--socket-name", "sock"] + rng.choice([[d], []]) + rng.choice([[], ["--init"]])
    p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bb._running.append(p)

    class P:
        pass
    proc = P()
    proc.p, proc.pid = p, p.pid
    w.procs.append(proc)
    run.log(f"no directory .ethersync ({kind}): {cmd[2:]}")
    run.did([kind, cmd[4:]])
    if not bb.wait_for(lambda: p.poll() is not None, [proc], what="exit", idle_s=4):
        raise Violated("not-enabled", f"the daemon keeps running in a project without .ethersync ({kind})")
    if os.listdir(w.run) or sorted(os.listdir(d)) != sorted(["f"] + ([".ethersync"] if kind == "file" else [])):
        raise Violated("not-enabled", f"the daemon changed something in a project without .ethersync ({kind}): {os.listdir(d)}")
    run.count("projects without .ethersync refused")


def roles(run):
    with bb.World() as w:
        run.rng.choice([settings] * 4 + [host_and_joiners] * 3 + [init_option] * 3 + [needs_directory])(run, w)
