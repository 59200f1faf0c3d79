use crate::world::Profile;
use std::collections::BTreeMap;

fn w(list: &[(&'static str, u32)]) -> BTreeMap<&'static str, u32> {
    list.iter().copied().collect()
}

/// Event mixes, one per workload. A property's check runs one or several of them.
pub fn profile(name: &str) -> Option<Profile> {
    let base = Profile {
        name: "mixed",
        peers: (1, 4),
        steps: (20, 140),
        files: 3,
        w: w(&[
            ("edit", 20), ("cursor", 3), ("open", 6), ("close", 3), ("save", 2), ("conn", 4), ("disc", 1),
            ("send", 20), ("recv", 20), ("gen", 20), ("deliver", 20), ("cut", 1), ("up", 10), ("watch", 20), ("ext", 4), ("restart", 1),
        ]),
        labels: false,
        immediate_editors: false,
        all_hosts: false,
        nasty: false,
        sync_external: false,
        second_phase: true,
        max_editors: 3,
        max_len: 120,
        big: false,
    };
    Some(match name {
        // Everything at once, watcher events handled promptly.
        "mixed" => Profile { sync_external: true, ..base },
        // Several editors on one daemon, all delays adversarial.
        "editors" => Profile {
            name: "editors",
            peers: (1, 2),
            files: 2,
            w: w(&[
                ("edit", 30), ("cursor", 1), ("open", 8), ("close", 1), ("save", 3), ("conn", 6), ("disc", 1),
                ("send", 15), ("recv", 15), ("gen", 15), ("deliver", 15), ("cut", 1), ("up", 10), ("watch", 20),
            ]),
            ..base
        },
        // Only edits; every character is labelled.
        "labels" => Profile {
            name: "labels",
            peers: (1, 4),
            files: 2,
            labels: true,
            w: w(&[
                ("edit", 30), ("open", 8), ("close", 2), ("save", 2), ("conn", 5), ("disc", 1),
                ("send", 18), ("recv", 18), ("gen", 18), ("deliver", 18), ("cut", 2), ("up", 8), ("watch", 20),
            ]),
            ..base
        },
        // Several peers bring or create the same names; files appear and disappear.
        "conflicts" => Profile {
            name: "conflicts",
            peers: (2, 4),
            steps: (15, 90),
            all_hosts: true,
            sync_external: true,
            max_len: 40,
            w: w(&[
                ("edit", 12), ("open", 8), ("close", 3), ("conn", 5), ("disc", 1),
                ("send", 18), ("recv", 18), ("gen", 12), ("deliver", 12), ("cut", 3), ("up", 4), ("watch", 20), ("ext", 14),
            ]),
            ..base
        },
        // Who owns a file: opens, closes, external changes, remote changes.
        "ownership" => Profile {
            name: "ownership",
            peers: (1, 3),
            sync_external: true,
            w: w(&[
                ("edit", 12), ("open", 12), ("close", 8), ("save", 3), ("conn", 5), ("disc", 4),
                ("send", 20), ("recv", 20), ("gen", 20), ("deliver", 20), ("cut", 1), ("up", 10), ("watch", 20), ("ext", 12),
            ]),
            ..base
        },
        "cursors" => Profile {
            name: "cursors",
            peers: (1, 3),
            steps: (20, 80),
            w: w(&[
                ("edit", 4), ("cursor", 25), ("open", 6), ("close", 2), ("conn", 6), ("disc", 3),
                ("send", 20), ("recv", 20), ("gen", 20), ("deliver", 20), ("cut", 1), ("up", 10), ("watch", 20),
            ]),
            ..base
        },
        "nasty" => Profile {
            name: "nasty",
            peers: (1, 3),
            nasty: true,
            sync_external: true,
            w: w(&[
                ("edit", 30), ("cursor", 1), ("open", 8), ("close", 2), ("save", 3), ("conn", 5), ("disc", 1),
                ("send", 18), ("recv", 18), ("gen", 18), ("deliver", 18), ("cut", 1), ("up", 8), ("watch", 20), ("ext", 6),
            ]),
            ..base
        },
        // Other programs change files all the time, events arrive late.
        "external" => Profile {
            name: "external",
            peers: (1, 3),
            steps: (15, 80),
            max_editors: 0,
            w: w(&[
                ("gen", 20), ("deliver", 20), ("cut", 1), ("up", 10), ("watch", 14), ("ext", 20),
            ]),
            sync_external: true,
            ..base
        },
        "restarts" => Profile { name: "restarts", peers: (1, 4), files: 3, sync_external: true, ..base },
        _ => return None,
    })
}
