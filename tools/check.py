"""check.py <ID> [quick|thorough]: builds the harness of a property from /repo's tree and runs it."""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vendor, sync
import fcntl
from harness_map import HARNESS, SANITIZED
import sanitize
from common_env import env, WORK

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def build(crate, env, san=None):
    cmd = ["cargo", "build", "--offline", "-q", "-p", f"h-{crate}"] + (sanitize.args(san) if san else [])
    r = subprocess.run(cmd, cwd=os.path.join(WORK, "ws"), env=sanitize.env(san) if san else env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log(f"the harness h-{crate} does not build")
        sys.exit(2)


def run(pid, tier, seed, exe, evidence, extra, san=None):
    """Runs the harness; exits if there is no result or a violation that it did not report itself."""
    tmp = os.path.join(WORK, "tmp", f"{pid}-{os.getpid()}")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    replays = os.path.join(WORK, "replays")
    run_env = {**os.environ, "TMPDIR": tmp, "RUST_BACKTRACE": "0"}
    for k in ("RUST_LOG", "LOG_PANIC", "FORCE_ABORT", "H_BUF_CHILD"):
        run_env.pop(k, None)
    rerun = f"VERIF_SEED={seed} bash tools/check.sh {pid} {tier}"
    os.makedirs(replays, exist_ok=True)
    if san:
        report = os.path.join(replays, f"{pid}-{seed}-{san}")
        run_env.update(sanitize.run_env(san, report))
        if not sanitize.works(exe, run_env):
            log(f"{san} sanitizer: the deliberate errors were not reported")
            sys.exit(3)
        sanitize.reports(report, remove=True)
    limit = 500 if tier == "quick" else 7200
    proc = subprocess.Popen(
        [exe, pid, "--tier", tier, "--seed", seed, "--evidence", evidence, "--replays", replays,
         "--known", os.path.join(VERIF, "known_findings.txt"), *extra],
        env=run_env, cwd=tmp, start_new_session=True)
    try:
        rc = proc.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    shutil.rmtree(tmp, ignore_errors=True)
    if rc is None:
        # These runs take seconds; what they run hangs.
        path = os.path.join(replays, f"{pid}-{seed}-hang.txt")
        with open(path, "w") as f:
            f.write(f"property: {pid}\nno result after {limit} s\nrerun: {rerun}\n")
        print(f"VIOLATION property={pid} replay={path} no result after {limit} s", flush=True)
        sys.exit(1)
    if san and (found := sanitize.reports(report)):
        text = open(found[0]).read()
        with open(found[0], "w") as f:
            f.write(f"property: {pid}\nrerun: {rerun}\n{text}")
        summary = next((l for l in text.splitlines() if l.startswith("SUMMARY")), "")
        print(f"VIOLATION property={pid} replay={found[0]} {summary}", flush=True)
        sys.exit(1)
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
        path = os.path.join(replays, f"{pid}-{seed}-crash.txt")
        with open(path, "w") as f:
            f.write(f"property: {pid}\nthe process under test died of signal {-rc}\nrerun: {rerun}\n")
        print(f"VIOLATION property={pid} replay={path} crash signal {-rc}", flush=True)
        sys.exit(1)
    if rc != 0:
        sys.exit(1 if rc == 1 else 3)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    extra = sys.argv[3:]
    seed = os.environ.get("VERIF_SEED", "1")
    crate = HARNESS[pid]
    sans = SANITIZED.get(pid, [None])
    e = env()
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        vendor.main()
        sync.main()
        for san in sans:
            build(crate, e, san)
    evidence = os.path.join(VERIF, "evidence", f"{pid}.json")
    earlier = {}
    for san in sans:
        run(pid, tier, seed, sanitize.exe(crate, san) if san else os.path.join(e["CARGO_TARGET_DIR"], "debug", f"h-{crate}"),
            evidence, extra, san)
        if san:
            with open(evidence) as f:
                now = json.load(f)
            earlier[f"{san} sanitizer"] = now
    if earlier:
        sanitize.merge(evidence, earlier)

main()
