#!/usr/bin/env python3
"""mirror.py [less]: mirrors /repo's working tree into /verif/build/mirror.

tikv-client is a git dependency that cannot be had offline: models/tikv_client stands for it.  With
`less` (for a tree that does not build with it) every item that names it is switched off, exactly as
/opt/vp/mirror.py does for the project's own tests, with `#[cfg(any())] ` put in front of it on the
same line: line numbers stay those of /repo.
`std::sync::` becomes `crate::verif_sync::` (harness/sync.rs), the same locks and atomics with
scheduling points.  Everything else is byte for byte /repo's; a file is rewritten only when its
content changed.
"""
import os, re, sys

REPO = "/repo"
OUT = "/verif/build/mirror"
LESS = "less" in sys.argv[1:]
MODEL = "/verif/models/tikv_client"
OFF = "#[cfg(any())] "
GONE = r"\b(?:tikv_client|TiKvRawBackendImpl|TiKvRawBackendSingleton|TiKvStorageBuilder|TiKvIndexerBuilder)\b"
SKIP = ("src/bin/", "tests/", "benches/")
SWITCH_OFF = [
    re.compile(r"^[ \t]*(?:pub )?use [^;{\n]*" + GONE + r"[^;]*;", re.M),
    re.compile(r"^(?:pub(?:\([a-z]+\))? )?(?:struct|enum|type|fn|impl)\b[^{;\n]*" + GONE, re.M),
    re.compile(r"^[ \t]+[A-Z]\w*\([^()\n]*" + GONE + r"[^()\n]*\),$", re.M),
]
USE_LIST = re.compile(r"^[ \t]*(?:pub )?use [^;{\n]*\{[^;]*;", re.M)


def gate(text):
    if not LESS:
        return text

    def trim(m):
        s = m.group(0)
        if re.search(GONE, s[: s.index("{")]):
            return s
        s = re.sub(GONE + r"[ \t]*,[ \t]*", "", s)
        return re.sub(r",?[ \t]*" + GONE, "", s)

    text = USE_LIST.sub(trim, text)
    cuts = set()
    for rx in SWITCH_OFF:
        for m in rx.finditer(text):
            s = m.group(0)
            cuts.add(m.start() + len(s) - len(s.lstrip()))
    for pos in sorted(cuts, reverse=True):
        text = text[:pos] + OFF + text[pos:]
    return text


def sync(name, text):
    """Locks and atomics of harness/sync.rs, which the harness' scheduler knows, for std's."""
    if name == "src/lib.rs":
        text += "\n#[doc(hidden)]\npub mod verif_sync;\n"
    if name == "src/verif.rs" or name.startswith("src/wal/") or name == "src/common/test_utils.rs" or "Condvar" in text:
        return text
    text = re.sub(r"\b(?:::)?std::sync::", "crate::verif_sync::", text)
    text = re.sub(r"\buse (?:::)?std::sync;", "use crate::verif_sync as sync;", text)
    text = re.sub(r"\buse (?:::)?std::sync as\b", "use crate::verif_sync as", text)
    return re.sub(r"(\buse )(?:::)?std::\{([^;]*)\}\s*;", ungroup, text)


def ungroup(m):
    """`use std::{.., sync::..}` with its parts about sync apart."""
    parts, depth, cur = [], 0, ""
    for c in m.group(2):
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        depth += {"{": 1, "}": -1}.get(c, 0)
        cur += c
    parts.append(cur)
    mine = [p for p in parts if re.match(r"\s*sync\b", p)]
    if not mine or any(re.search(r"//|/\*", p) for p in parts):
        return m.group(0)
    out = m.group(1) + "std::{" + ",".join(p for p in parts if p not in mine) + "};"
    for p in mine:
        p = p.strip()
        out += " use crate::verif_sync" + (" as sync" if p == "sync" else p[4:]) + ";"
    return out


def manifest(text):
    text = re.sub(r"^tikv-client\s*=.*\n", "" if LESS else 'tikv-client = { path = "%s" }\n' % MODEL, text, flags=re.M)
    text = re.sub(r"^\[patch\.crates-io\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    # only the library is needed here
    text = re.sub(r"^\[\[bench\]\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    text = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    return text


def write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


BIN = "/verif/build/bin/server_main.rs"
BIN_OFF = [re.compile(r"^[ \t]+let tikv_backend_singleton\b", re.M), re.compile(r"^[ \t]+TIKV_BACKEND =>", re.M)]


def program():
    """The server's program as a module of the harnesses (less the arms that need tikv-client)."""
    try:
        text = open(os.path.join(REPO, "src/bin/monolith-server.rs")).read()
    except OSError:
        return
    text = gate(text)
    cuts = set() if not LESS else {m.start() + len(m.group(0)) - len(m.group(0).lstrip()) for rx in BIN_OFF for m in rx.finditer(text)}
    for pos in sorted(cuts, reverse=True):
        text = text[:pos] + OFF + text[pos:]
    text = re.sub(r"#\[macro_use\]\s*extern crate log;", "#[allow(unused_imports)] use log::{debug, error, info, trace, warn};", text)
    text += "\npub fn verif_main() -> std::process::ExitCode { std::process::Termination::report(main()) }\n"
    write(BIN, text.encode())


def main():
    program()
    kept = set()
    for top, dirs, files in os.walk(REPO):
        if top == REPO:
            dirs[:] = [d for d in dirs if d in ("src",)]
            files = ["Cargo.toml"]
        for f in files:
            name = os.path.relpath(os.path.join(top, f), REPO)
            if name.startswith(SKIP):
                continue
            data = open(os.path.join(REPO, name), "rb").read()
            if name.endswith(".rs"):
                data = sync(name, gate(data.decode())).encode()
            elif name == "Cargo.toml":
                data = manifest(data.decode()).encode()
            write(os.path.join(OUT, name), data)
            kept.add(name)
    write(os.path.join(OUT, "src/verif_sync.rs"), open("/verif/harness/sync.rs", "rb").read())
    kept.add("src/verif_sync.rs")
    for top, dirs, files in os.walk(OUT):
        for f in files:
            rel = os.path.relpath(os.path.join(top, f), OUT)
            if rel not in kept:
                os.remove(os.path.join(top, f))


if __name__ == "__main__":
    main()
