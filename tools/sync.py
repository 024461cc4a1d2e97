"""Lay out .work/ws: a cargo workspace over /repo's current tree in which the harness builds.

/repo's own workspace cannot be resolved on this machine (it needs two git forks and a few crates
that are not here), so this has, per crate of /repo, a manifest made from /repo's (no dev or build
dependencies, no build script: the generated code is committed) and a copy of its sources. The
missing crates are the path dependencies of /verif/shims. Nothing of the code under test is
replaced, except that bd-pgv loses the reflective validator (see DESIGN.md), and that a crate with
a driver in harness/drivers/<crate>.rs gets it as an extra module, so that private items can be
run. Files are written only when their content changes: what is rebuilt is what changed.
"""
import json, os, re, shutil, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
WS = os.path.join(WORK, "ws")
SHIMS = os.path.join(VERIF, "shims")
HARNESS = os.path.join(VERIF, "harness")
SKIP = {"bd-proto-util", "bd-test-helpers", "bd-noop-network",
        "bd-profile"}
SHIMMED = ["protobuf", "snap", "hyper-rustls", "sketches-rust", "intrusive-collections", "fs2", "futures"]
PATCHED = ["libz-sys", "want"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.isfile(path) and not os.path.islink(path) and read(path) == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def mirror(src, dst, more=None, replace=None):
    """dst becomes src's files, plus `more` (name -> text); `replace` maps a name to its text."""
    want = dict(more or {})
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for fn in files:
            rel = os.path.relpath(os.path.join(root, fn), src)
            if replace and rel in replace:
                want[rel] = replace[rel]
            elif rel not in want:
                want[rel] = read(os.path.join(root, fn))
    for rel, data in want.items():
        write(os.path.join(dst, rel), data)
    for root, dirs, files in os.walk(dst):
        for fn in files:
            rel = os.path.relpath(os.path.join(root, fn), dst)
            if rel not in want:
                os.remove(os.path.join(root, fn))


def toml(value):
    if isinstance(value, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(v)}" for k, v in value.items()) + " }"
    if isinstance(value, list):
        return "[" + ", ".join(toml(v) for v in value) + "]"
    return json.dumps(value)


def dump(tables):
    out = ""
    for name, table in tables.items():
        out += f"[{name}]\n"
        out += "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in table.items())
        out += "\n"
    return out


def manifest(crate, crates):
    m = tomllib.loads(read(f"{REPO}/{crate}/Cargo.toml").decode())
    tables = {"package": {**m["package"], "build": False}}
    for auto in ("autotests", "autobenches", "autoexamples", "autobins"):
        tables["package"][auto] = False
    tables["lib"] = dict(m.get("lib", {}), doctest=False, test=False)
    deps = {}
    for k, v in m.get("dependencies", {}).items():
        if isinstance(v, dict) and "path" in v:
            name = os.path.basename(v["path"])
            if name not in crates:
                continue
            v = {**v, "path": f"../{name}"}
        deps[k] = v
    tables["dependencies"] = deps
    if "features" in m:
        # zlib-ng is not on this machine, and not what is built by default.
        tables["features"] = {k: [x for x in v if x != "flate2/zlib-ng"]
                              for k, v in m["features"].items()}
    return dump(tables)


def root_of(crate):
    """The crate root of an overlay, when it is not /repo's as it is."""
    text = read(f"{REPO}/{crate}/src/lib.rs").decode()
    if crate == "bd-pgv":
        # The validator runs on descriptors, which the protobuf shim does not have. What it
        # decides is out of reach here; generated code only needs the crate to exist.
        text = re.sub(r"^pub mod proto_validate;", "pub mod proto_validate {\n"
                      "  pub static REJECT: std::sync::RwLock<Option<fn(&dyn std::any::Any) -> bool>> =\n"
                      "    std::sync::RwLock::new(None);\n"
                      "  pub fn validate(m: &impl protobuf::MessageFull) -> crate::error::Result<()> {\n"
                      "    match *REJECT.read().unwrap() {\n"
                      "      Some(f) if f(m) => Err(crate::error::Error::ProtoValidation(\"rejected\".into())),\n"
                      "      _ => Ok(()),\n    }\n  }\n}",
                      text, flags=re.M)
        # The validator itself, for messages of types made at run time.
        text += "\n#[path = \"proto_validate.rs\"]\npub mod proto_validate_real;\n"
        text = re.sub(r"^pub mod generated;", "pub mod generated {\n  pub mod protos;\n}", text,
                      flags=re.M)
    if os.path.exists(f"{HARNESS}/drivers/{crate}.rs"):
        text += "\n#[allow(warnings)]\npub mod verif_driver;\n"
    return text


def main():
    ws = tomllib.loads(read(f"{REPO}/Cargo.toml").decode())
    crates = sorted(
        c for c in os.listdir(REPO)
        if c.startswith("bd-") and c not in SKIP and os.path.exists(f"{REPO}/{c}/Cargo.toml"))
    bins = sorted(h for h in os.listdir(HARNESS) if os.path.exists(f"{HARNESS}/{h}/Cargo.toml"))
    deps = dict(ws["workspace"]["dependencies"])
    for s in SHIMMED:
        deps[s] = {"path": os.path.join(SHIMS, s)}
    for gone in ("protobuf-codegen", "protobuf-json-mapping"):
        deps.pop(gone, None)
    write(f"{WS}/Cargo.toml", dump({
        "workspace": {"members": crates + [f"h-{b}" for b in bins],
                      "resolver": ws["workspace"]["resolver"]},
        "workspace.dependencies": deps,
        "patch.crates-io": {n: {"path": os.path.join(SHIMS, n)} for n in PATCHED},
        "profile.dev": {"debug": "line-tables-only", "opt-level": 0},
        "profile.dev.package.\"*\"": {"opt-level": 1, "debug": False},
    }))
    write(f"{WS}/.cargo/config.toml", f"""[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "{WORK}/vendor"
[net]
offline = true
""")
    if os.path.exists(f"{HARNESS}/Cargo.lock") and not os.path.exists(f"{WS}/Cargo.lock"):
        write(f"{WS}/Cargo.lock", read(f"{HARNESS}/Cargo.lock"))
    for c in crates:
        write(f"{WS}/{c}/Cargo.toml", manifest(c, crates))
        more = {}
        driver = f"{HARNESS}/drivers/{c}.rs"
        if os.path.exists(driver):
            more["verif_driver.rs"] = read(driver)
        mirror(f"{REPO}/{c}/src", f"{WS}/{c}/src", more, {"lib.rs": root_of(c)})
    for b in bins:
        mirror(f"{HARNESS}/{b}", f"{WS}/h-{b}")
    for name in os.listdir(WS):
        p = f"{WS}/{name}"
        if os.path.isdir(p) and not name.startswith(".") and name not in crates and \
                name not in [f"h-{b}" for b in bins]:
            shutil.rmtree(p)


if __name__ == "__main__":
    main()
