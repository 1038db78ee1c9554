#!/usr/bin/env python3
"""Lays out /verif/.work/ws, a cargo workspace over the live files of /repo (after /opt/vp/lib/mirror.py).

The git dependency cardano-multiplatform-lib (CML) cannot be fetched here, and cargo resolves the
whole of /repo's workspace or nothing. So .work/ws holds /repo/Cargo.toml without the members
that need CML, the other members as copies, and the parts of the CML crates that
compile without it: their files as copies, except for the manifest and the module roots,
which are /repo's with the lines about the missing parts taken out, anew on every run.
A generated file is rewritten only when its text changes, so builds stay incremental."""

import os
import re
import shutil
import sys
import tomllib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import rx

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".work", "ws")
OUT = {"blockchain-source", "cardano-cli-tools/cardano-net-fetcher"}
CML = r"^cardano-multiplatform-lib\b|^cml-[\w-]+ *="


def drop(pattern):
    return lambda text: "".join(
        x for x in text.splitlines(True) if not re.search(pattern, x)
    )


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


def only_modules(*without):
    """Of a module root whose own code needs CML: the modules that do not, and what it re-exports of them."""

    def f(text):
        mods = [
            m
            for m in re.findall(r"^(?:pub(?:\([^)]*\))? )?mod (\w+);", text, re.M)
            if m not in without
        ]
        n = "|".join(mods)
        return "".join(
            x
            for x in text.splitlines(True)
            if re.search(rf"^(pub(\([^)]*\))? )?mod ({n});|^pub use (self::)?({n})::.*;", x)
        )

    return f


def drop_mentioning(name, kinds=("impl",)):
    """Without the items of these kinds in whose text the name occurs."""

    def f(text):
        toks, items = rx.lex(text), []
        rx.parse_items(text, toks, 0, len(toks), "", items)
        for i in sorted((i for i in items if i.kind in kinds and not i.test and (i.kind == "impl" or not i.container)), key=lambda i: -i.start):
            if re.search(rf"\b{name}\b", text[i.start : i.end]):
                text = text[: i.start] + text[i.end :]
        return text

    return f


def not_in_tests(name):
    return lambda text: re.sub(
        rf"^(?=(pub )?(mod {name};|use {name}::))", "#[cfg(not(test))]\n", text, flags=re.M
    )


def stand_in(text):
    """The manifest with the stand-in for CML, and with the copy of cardano-utils that uses it too."""
    stub = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "cml-stub")
    text = re.sub(r"^cardano-multiplatform-lib *=.*$", f'cardano-multiplatform-lib = {{ path = "{stub}" }}', text, flags=re.M)
    return re.sub(r"^cardano-utils *=.*$", 'cardano-utils = { package = "full-utils", path = "../full-utils" }', text, flags=re.M)


def scripted(text):
    """The manifest with the scripted peer for the network, and the stand-in for CML (one crate, four names)."""
    stub = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "peer-stub")
    text = re.sub(r"^cardano-net *=.*$", f'peer-stub = {{ path = "{stub}" }}', drop(CML)(text), flags=re.M)
    return text.replace('"dcspark-blockchain-source"', '"full-source"', 1)


def by_name(*names):
    return lambda text: text + "".join(f"extern crate peer_stub as {n};\n" for n in names)


PARTIAL = {
    "utxo-selection": {
        "Cargo.toml": drop(CML + r"|^cardano-utils\b"),
        "src/estimators/mod.rs": drop_modules("cml_fee_estimator", "thermostat_estimator"),
        "src/algorithms/mod.rs": not_in_tests("thermostat"),
    },
    "cardano-utils": {
        "Cargo.toml": drop(CML),
        "src/lib.rs": drop_modules("multisig_plan", "network_id", "payment_credentials", "utxo"),
    },
    "blockchain-source": {
        "Cargo.toml": drop(CML),
        # multiverse implements a trait for the missing CardanoSource
        "src/lib.rs": drop_modules("multiverse"),
        "src/cardano/mod.rs": only_modules("configuration", "event"),
    },
    # the same crate with the module multiverse, without that implementation: apart, so that
    # a change that does not compile in here leaves the rest alone
    "following-source": {
        "Cargo.toml": lambda t: drop(CML)(t).replace('"dcspark-blockchain-source"', '"following-source"', 1),
        "src/multiverse/mod.rs": drop_mentioning("CardanoSource"),
        "src/cardano/mod.rs": only_modules("configuration"),
        # decoding a block needs CML
        "src/cardano/event.rs": drop_mentioning("cml_multi_era", ("impl", "fn")),
    },
    # utxo-selection and cardano-utils whole, with a stand-in for CML (harness/cml-stub): apart, for the same reason
    "full-selection": {
        "Cargo.toml": lambda t: stand_in(t).replace('"utxo-selection"', '"full-selection"', 1),
        "src/estimators/mod.rs": lambda t: re.sub(r"^pub\(crate\) mod", "pub mod", t, flags=re.M),
        "src/estimators/dummy_estimator.rs": lambda t: t.replace("pub(crate) struct", "pub struct"),
    },
    "full-utils": {
        "Cargo.toml": lambda t: stand_in(t).replace('"cardano-utils"', '"full-utils"', 1),
    },
    # blockchain-source whole, with the scripted peer (harness/peer-stub)
    "full-source": {
        "Cargo.toml": scripted,
        "src/lib.rs": by_name("cml_chain", "cml_core", "cml_multi_era", "cardano_net"),
    },
}
COPY_OF = {"full-source": "blockchain-source", "full-selection": "utxo-selection", "full-utils": "cardano-utils", "following-source": "blockchain-source"}


def remove(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def link(src, dst):
    """A copy, rewritten only when its content changes: the file's time then tells cargo the truth."""
    with open(src, "rb") as f:
        data = f.read()
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst) as f:
            if f.read() == text:
                return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def partial(crate, edits):
    src, dst = f"{REPO}/{COPY_OF.get(crate, crate)}", f"{WS}/{crate}"
    if os.path.islink(dst):
        os.remove(dst)
    want = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for name in files:
            rel = os.path.relpath(os.path.join(d, name), src)
            if rel == "Cargo.lock":
                continue
            want.add(rel)
            if rel in edits:
                write(f"{dst}/{rel}", edits[rel](read(f"{src}/{rel}")))
            else:
                link(f"{src}/{rel}", f"{dst}/{rel}")
    for d, dirs, files in os.walk(dst):
        for name in files:
            if os.path.relpath(os.path.join(d, name), dst) not in want:
                os.remove(os.path.join(d, name))


def main():
    root = read(f"{REPO}/Cargo.toml")
    members = tomllib.loads(root)["workspace"]["members"]
    whole = [m for m in members if m not in OUT]
    root = drop(r'^\s*"(' + "|".join(sorted(OUT | set(PARTIAL))) + r')",?\s*$')(root)
    root = re.sub(
        r"^members *= *\[\n",
        lambda m: m.group() + "".join(f'    "{c}",\n' for c in PARTIAL),
        root,
        count=1,
        flags=re.M,
    )
    write(f"{WS}/Cargo.toml", root)
    for m in whole:
        partial(m, {})
    for crate, edits in PARTIAL.items():
        partial(crate, edits)


if __name__ == "__main__":
    main()
