"""mirror.py REPO WORK [JOSEKIT]: mirrors REPO to WORK without the parts whose dependencies cannot be fetched here.
(The same rewriting as the sandbox's own build; tests and examples are left out: only the library is built.)

josekit is a git dependency: it goes, and with it src/core/jwe.rs and two examples. With JOSEKIT, the
path of a stand-in for it (from WORK), src/core/jwe.rs stays and is built against that.
ssi 0.14 is only an umbrella that re-exports the ssi-* crates, and one of them, ssi-ucan, needs
core2, of which every version is yanked. The mirror depends on the other ssi-* crates directly,
at the versions and with the features ssi 0.14.0 asks for, and paths that go through ssi::
name them instead. Everything else is copied byte for byte, and line numbers stay the same.

A file is rewritten only when its content changed, so that cargo rebuilds incrementally and
never takes an old build for a new one, whatever the timestamps in /repo say."""

import os
import re
import sys

REPO, WORK = sys.argv[1], sys.argv[2]
JOSEKIT = sys.argv[3] if len(sys.argv) > 3 else None
SKIP_DIRS = {".git", "target", ".github"}
#: They use josekit, or openid4vp::core::jwe, which does.
OMIT = {
    "src/core/jwe.rs",
    "examples",
    "tests",
    "Cargo.lock",
}
if JOSEKIT:
    OMIT.discard("src/core/jwe.rs")


#: What "ssi = 0.14" stands for: its requirements and default features, without ssi-ucan.
SSI_DEPS = b"\n".join(
    [
        b'ssi-caips = { version = "0.3", default-features = false }',
        b'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        b'ssi-core = { version = "0.3.0", default-features = false }',
        b'ssi-crypto = { version = "0.2.1", default-features = false }',
        b'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        b'ssi-eip712 = { version = "0.1", default-features = false }',
        b'ssi-json-ld = { version = "0.3.1", default-features = false }',
        b'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        b'ssi-multicodec = { version = "0.2", default-features = false }',
        b'ssi-rdf = { version = "0.1", default-features = false }',
        b'ssi-security = { version = "0.1", default-features = false }',
        b'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
#: ssi::prelude, as far as it is known. Another name makes the build fail: add it here.
PRELUDE = {
    name: "ssi_claims::data_integrity::" + name
    for name in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update(
    (name, "ssi_claims::vc::" + name) for name in ("AnyJsonCredential", "AnyJsonPresentation")
)


def item(text):
    """One path below ssi::, such as "claims::vc" or "prelude::{A, B}", with its white space."""
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1) :]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end() :]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end() :]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    """The items of "use ssi::{...}", each with a path of its own."""
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos : m.start()])
        pos = m.end()
        if text[pos : pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1 : end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def edit(rel, data):
    if rel == "Cargo.toml":
        stand_in = b'josekit = { path = "%s" }' % JOSEKIT.encode() if JOSEKIT else b""
        data = re.sub(rb"(?m)^josekit\s*=.*$", stand_in, data)
        return re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', SSI_DEPS, data)
    if rel == "src/core/mod.rs" and not JOSEKIT:
        data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
    if rel.endswith(".rs") and b"ssi::" in data:
        try:
            return ssi_paths(data.decode()).encode()
        except UnicodeDecodeError:
            return data
    return data


def files(root):
    for top, dirs, names in os.walk(root):
        rel = os.path.relpath(top, root)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = [
            d for d in dirs if d not in SKIP_DIRS and (root == WORK or rel + d not in OMIT)
        ]
        for n in names:
            if root == WORK and rel + n == "Cargo.lock":
                continue
            if root == WORK or rel + n not in OMIT:
                yield rel + n


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    wanted = set(files(REPO))
    if "Cargo.toml" not in wanted:
        sys.exit(REPO + "/Cargo.toml is missing")
    for rel in wanted:
        with open(os.path.join(REPO, rel), "rb") as f:
            put(os.path.join(WORK, rel), edit(rel, f.read()))
    if os.path.isdir(WORK):
        for rel in set(files(WORK)) - wanted:
            os.remove(os.path.join(WORK, rel))


main()
