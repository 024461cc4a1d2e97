import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vendor, sync
from common_env import env, WORK
from harness_map import HARNESS, SANITIZED
import sanitize
os.makedirs(WORK, exist_ok=True)
vendor.main()
sync.main()
ws = os.path.join(WORK, "ws")
builds = [(["--workspace"], env())]
for pid, sans in SANITIZED.items():
    builds += [(["-p", f"h-{HARNESS[pid]}"] + sanitize.args(san), sanitize.env(san)) for san in sans]
for args, e in builds:
    r = subprocess.run(["cargo", "build", "--offline", "-q", *args], cwd=ws, env=e, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.exit(r.stdout[-6000:])
