"""Builds with the nightly toolchain's sanitizers, and what they report.

The thread sanitizer needs the standard library to be built with it, whose crates come with the toolchain's sources.
"""
import glob, json, os, subprocess
import common_env
from common_env import WORK

TARGET = "x86_64-unknown-linux-gnu"
EXIT = {"thread": "66", "address": "67"}


def dir_of(san):
    return os.path.join(WORK, f"target-{san}")


def exe(crate, san):
    return os.path.join(dir_of(san), TARGET, "debug", f"h-{crate}")


def env(san):
    e = common_env.env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=dir_of(san))
    e["RUSTFLAGS"] += f" -Zsanitizer={san}"
    return e


def args(san):
    a = ["--target", TARGET]
    if san == "thread":
        a += ["-Zbuild-std", "--config", f'source.vendored.directory="{sources()}"']
    return a


def sources():
    """The vendored crates and those of the standard library."""
    out = os.path.join(WORK, "vendor-std")
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True, env=common_env.env()).stdout.strip()
    os.makedirs(out, exist_ok=True)
    for d in (os.path.join(WORK, "vendor"), os.path.join(root, "lib/rustlib/src/rust/library/vendor")):
        for name in os.listdir(d):
            if not os.path.lexists(os.path.join(out, name)):
                os.symlink(os.path.join(d, name), os.path.join(out, name))
    return out


def run_env(san, report):
    common = f"exitcode={EXIT[san]}:log_path={report}:halt_on_error=1"
    return {"thread": {"TSAN_OPTIONS": common + ":report_signal_unsafe=0", "H_SAN": san},
            "address": {"ASAN_OPTIONS": common + ":detect_leaks=0:handle_segv=1", "H_SAN": san}}[san]


def reports(report, remove=False):
    found = sorted(glob.glob(glob.escape(report) + ".[0-9]*"))
    if remove:
        for f in found:
            os.remove(f)
    return found


def works(exe, env):
    r = subprocess.run([exe], env={**env, "H_BUF_CHILD": "selftest"}, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    return str(r.returncode) in EXIT.values()


def merge(evidence, runs):
    """The last run's evidence, with what the others observed."""
    with open(evidence) as f:
        out = json.load(f)
    last = list(runs)[-1]
    seen = out["coverage"]["observed"]
    out["coverage"]["observed"] = {f"{last}: {k}": v for k, v in seen.items()}
    for name, r in runs.items():
        if name != last:
            cov = r["coverage"]
            more = {"evaluations": cov["evaluations"], **cov["observed"]}
            out["coverage"]["observed"].update({f"{name}: {k}": v for k, v in more.items()})
            out["wall_s"] += r["wall_s"]
    with open(evidence, "w") as f:
        json.dump(out, f, indent=1)
