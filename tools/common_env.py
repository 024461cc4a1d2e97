"""The environment the harness is built in: the pinned toolchain, offline, its own target folder."""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))


def env(**more):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTC", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", SKIP_PROTO_GEN="1",
             RUSTC_WRAPPER="", RUSTC_WORKSPACE_WRAPPER="", CARGO_TERM_COLOR="never",
             RUSTFLAGS="--cap-lints=allow -Clink-arg=-fuse-ld=lld",
             CARGO_TARGET_DIR=os.path.join(WORK, "target"))
    e.update(more)
    return e
