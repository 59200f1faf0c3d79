"""Which workloads and monitors decide which property."""
import bb_access
import bb_client
import bb_contain
import bb_crash
import bb_cursor
import bb_files
import bb_hostile
import bb_net
import bb_nvim
import bb_requests
import bb_roles
import bb_secret
import bb_transport
import scen
import simpart
import vscode_part

ASSUME_SIM = ("the simulator's links carry whole sync messages in order, like the real connections do (checked separately by C14)")


def sim(profiles, kinds, quick, thorough, salt=0):
    def part(res, tier):
        n, t = (quick if tier == "quick" else thorough)
        simpart.run(res, profiles, set(kinds), n, t, salt)
    return part


def bb(module, name, quick, thorough, rule, workers=8, salt=0):
    """Scenarios with real processes: (how many, for how many seconds at most) per tier."""
    def part(res, tier):
        n, t = (quick if tier == "quick" else thorough)
        scen.run(res, name, getattr(module, name), n, t, workers=workers, need_peer=True, salt=salt,
                 rule=f"{name}: each execution is one scenario with real daemon processes: {rule}. Counted as distinct and "
                      "non-trivial: scenarios whose sequence of actions differs from all others of the run.")
    return part


def vscode(quick, thorough, mode="texts"):
    def part(res, tier):
        n, t = (quick if tier == "quick" else thorough)
        vscode_part.run(res, n, t, mode=mode)
    return part


def editor(module, name, quick, thorough, rule, workers=8, salt=0):
    """Sessions of an editor plugin without a daemon."""
    def part(res, tier):
        n, t = (quick if tier == "quick" else thorough)
        scen.run(res, name, getattr(module, name), n, t, workers=workers, need_daemon=False, salt=salt,
                 rule=f"{name}: each execution is one session with the real plugin: {rule}. Counted as distinct and "
                      "non-trivial: sessions whose sequence of keys and edits differs from all others of the run.")
    return part


NETWORK = ("two daemons with editors and other programs on both sides, a connection that is held back now and then, orderly restarts with "
           "offline changes; peers record what each daemon shares, every inserted piece carries a character of its own")


def net(name, quick=(150, 35), thorough=(3000, 300)):
    return bb(bb_net, name, quick, thorough, NETWORK, workers=10)


SPECS = {
    "C01": {"parts": [sim(["mixed", "conflicts", "external", "editors"],
                          ["convergence", "disk", "editor", "livelock", "sync", "crash", "handoff", "restart"], (3200, 40), (40000, 400)),
                      net("network_convergence")],
            "assumptions": [ASSUME_SIM]},
    "C02": {"parts": [sim(["editors", "mixed"], ["editor", "ot", "protocol", "livelock", "crash"], (4000, 40), (50000, 400)),
                      net("network_editors")]},
    "C03": {"parts": [sim(["labels"], ["lost", "doubled", "invented", "reordered", "undeleted", "misplaced", "editor", "convergence", "crash"],
                          (3000, 40), (50000, 400)),
                      net("network_labels")]},
    "C04": {"parts": [sim(["conflicts"], ["convergence", "disk", "editor", "crash", "livelock"], (4000, 40), (60000, 400)),
                      bb(bb_net, "conflicts", (100, 45), (2000, 350), "two daemons that do not hear of each other create, delete, re-create and edit files of the same name, then meet", workers=12)]},
    "C05": {"parts": [sim(["ownership"], ["ownership", "handoff", "disk", "editor", "crash"], (4000, 40), (50000, 400)),
                      net("network_ownership")]},
    "C06": {"parts": [sim(["restarts"], ["restart", "lost-or-doubled", "lost", "doubled", "misplaced", "reordered", "convergence", "crash", "disk"],
                          (4000, 40), (50000, 400)),
                      net("network_restarts")]},
    "C11": {"parts": [sim(["editors", "mixed"], ["response", "refused-effect", "protocol", "crash"], (3000, 40), (40000, 400), salt=5),
                      bb(bb_requests, "requests", (400, 35), (8000, 300), "bursts of requests, notifications and garbage in arbitrary pieces, ids and lines of all sizes, another editor and a peer watch")]},
    "C17": {"parts": [sim(["cursors"], ["cursor", "cursor-effect", "cursor-stays", "crash"], (4000, 40), (50000, 400)),
                      bb(bb_requests, "cursors", (200, 30), (4000, 300), "editors at two daemons come, move their cursors and leave in various ways, the connection is held back now and then")]},
    "C18": {"parts": [sim(["nasty"], ["editor", "ot", "disk", "lost", "doubled", "crash"], (4000, 40), (50000, 400)),
                      net("network_nasty")]},
    "C07": {"parts": [bb(bb_crash, "crash_points", (96, 110), (1200, 550),
                         "files change in several phases, and the process is ended at the n-th call that changes the file system "
                         "(n covers 1 to 48 in turn; a write may still happen partly; sometimes it is ended again during the next start), "
                         "then restarted and connected to a peer that remembers everything", workers=12)],
            "level": "fault_enumeration",
            "technique": "fault injection at every file-system call of the real daemon, monitors compare project, peer and labelled texts after restart",
            "note": "Every one of the first 48 changing file-system calls of a session is an end point, sessions and the share of an "
                    "interrupted write that still happens are random. The process is ended, the machine is not: no loss of the page cache."},
    "C08": {"parts": [bb(bb_contain, "containment", (500, 60), (8000, 450),
                         "links in all kinds of layouts, hostile paths from a peer and from an editor, links made while it runs")],
            "technique": "runtime monitoring: interposed file-system calls of the real daemon (unprivileged user) plus snapshots of what is outside"},
    "C09": {"parts": [bb(bb_files, "ignored_files", (400, 45), (6000, 300), "random ignore rules, binary and non-UTF-8 files, at start-up and at run time"),
                      bb(bb_files, "private_files", (100, 20), (1500, 150), "files in .git and .ethersync, from the directory, the editor and the peer side")],
            "technique": "runtime monitoring: real daemon with a recording peer; git itself is the oracle for what is ignored"},
    "C10": {"parts": [bb(bb_files, "external_changes", (500, 60), (8000, 450), "files written, appended, replaced, moved, removed by other programs in many ways")],
            "technique": "runtime monitoring: real daemon and inotify with a recording peer, compared with the directory after each burst of changes"},
    "C12": {"parts": [bb(bb_hostile, "hostile_editors", (500, 50), (6000, 300),
                         "editors sending garbage, wrong revisions, impossible ranges, partial lines and unexpected ends, while another editor and a peer work"),
                      bb(bb_hostile, "stalled_editor", (10, 60), (60, 200), "one editor stops reading while everybody else works", workers=5)],
            "technique": "runtime monitoring: real daemon under generated hostile editor traffic; model-following bystanders (editor, peer, directory) are the oracle"},
    "C13": {"parts": [bb(bb_hostile, "hostile_peers", (400, 80), (5000, 480),
                         "peers sending garbage frames, documents with unexpected shapes, hostile cursor data, ends in the middle of a message, while others work")],
            "technique": "runtime monitoring: real daemon under generated hostile peer traffic; bystanders (editor, second peer, directory) are the oracle"},
    "C14": {"parts": [bb(bb_transport, "transport", (60, 70), (500, 350),
                         "messages cut into arbitrary pieces, delays, big texts in both directions at once, connections lost at arbitrary bytes"),
                      bb(bb_transport, "crowd", (60, 30), (600, 120), "several peers connecting and leaving at once", workers=4)],
            "technique": "runtime monitoring: real connections through a byte-level proxy and a peer that fragments, floods and falls silent; replicas compared when idle"},
    "C15": {"parts": [bb(bb_secret, "secrets", (48, 60), (400, 400),
                         "pairs of equal, similar and different secrets; what passes on the wire is recorded", workers=16)],
            "technique": "runtime monitoring: real daemons behind a recording proxy; canary texts searched on the wire and on the other side"},
    "C16": {"parts": [bb(bb_access, "access", (1200, 40), (12000, 300),
                         "modes of the socket directory, the fallback directory and the key file, socket names, what was there before")],
            "technique": "runtime monitoring: real daemon with interposed file-system calls; modes are observed when sockets and keys come into being"},
    "C19": {"parts": [bb(bb_client, "client", (1200, 60), (15000, 400),
                         "messages of all sizes and contents through the real client process, cut into arbitrary pieces, both directions, all ways of closing", workers=6)],
            "technique": "runtime monitoring: real client process between two recording ends, compared byte by byte with an independent model of the framing"},
    "C20": {"parts": [editor(bb_nvim, "neovim", (900, 70), (10000, 450),
                             "several files, keys of all modes (counts, registers, macros, ranges, undo), edits with current and outdated revisions, "
                             "closing, reloading, refused files; everything is compared after every step")],
            "technique": "runtime monitoring: real Neovim with the real plugin under generated keys and edits; a scripted daemon replays all reports and compares after each step",
            "note": "Holds on every explored session with this version of Neovim; not exhaustive. Buffers in Unix format and UTF-8, 'endofline' is left to the plugin."},
    "C21": {"parts": [vscode((40000, 45), (400000, 450))],
            "technique": "runtime monitoring: the real extension between a simulated editor and a scripted daemon with random delays; all reports are replayed and compared",
            "note": "Holds on every explored session; not exhaustive. The editor is a stand-in written after the documented behaviour of VS Code "
                    "(changes of one event are ordered from the end of the document, edits of an outdated version are rejected). Line ends are newlines."},
    "C22": {"parts": [bb(bb_roles, "roles", (500, 50), (6000, 300),
                         "settings on the command line, in the environment, in the configuration file, several at once; hosts and joiners with and without content")],
            "technique": "runtime monitoring: real daemons started with generated settings; where they listen, whom they dial and what they share is observed from outside"},
    "C23": {"parts": [editor(bb_cursor, "neovim_cursors", (800, 50), (10000, 350),
                             "cursor movements and selections of all modes, cursors of three other users in shown, hidden, closed and never opened files, "
                             "edits from both sides; reports and marks are compared after every step"),
                      vscode((40000, 35), (400000, 350), mode="cursors")],
            "technique": "runtime monitoring: real Neovim and the real VS Code extension (between a simulated editor and a scripted daemon); "
                         "reported selections and drawn cursors are compared with where they have to be",
            "note": "Holds on every explored session; not exhaustive. Where a drawn cursor moves when the text around it changes is left to the editor, "
                    "as are Neovim's blockwise selections and cursors of files that are not shown."},
}
