"""Lay out a cargo directory source in .work/vendor.

The repository's own registry cache (the versions of its Cargo.lock) plus the few crates that are
only in the verification tools' cache. The crates that are not on this machine at all are the path
dependencies of /verif/shims (see sync.py).
"""
import hashlib, json, os, shutil, sys, tarfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, ".work", "vendor")
HOME = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
CACHE = os.path.join(HOME, "registry", "cache")
PRIMARY = os.path.join(CACHE, "index.crates.io-6f17d22bba15001f")
EXTRA_DIR = os.path.join(CACHE, "index.crates.io-1949cf8c6b5b557f")
EXTRA = """crc32fast-1.5.0 memmap2-0.9.8 flate2-1.1.1 static_assertions-1.1.0 sha2-0.10.9
digest-0.10.7 block-buffer-0.10.4 crypto-common-0.1.6 generic-array-0.14.7 typenum-1.18.0
version_check-0.9.5 cpufeatures-0.2.17 base64ct-1.7.3
urlencoding-2.1.3 miniz_oxide-0.8.9 adler2-2.0.1
""".split()


def unpack(crate_file, name):
    dst = os.path.join(OUT, name)
    data = open(crate_file, "rb").read()
    with tarfile.open(crate_file) as t:
        t.extractall(OUT)
    with open(os.path.join(dst, ".cargo-checksum.json"), "w") as f:
        json.dump({"files": {}, "package": hashlib.sha256(data).hexdigest()}, f)


def main():
    os.makedirs(OUT, exist_ok=True)
    want = {}
    for fn in os.listdir(PRIMARY):
        if fn.endswith(".crate"):
            want[fn[:-6]] = os.path.join(PRIMARY, fn)
    for n in EXTRA:
        want[n] = os.path.join(EXTRA_DIR, n + ".crate")
    for n, p in want.items():
        if not os.path.exists(os.path.join(OUT, n, ".cargo-checksum.json")):
            unpack(p, n)
    for n in os.listdir(OUT):
        if n not in want:
            shutil.rmtree(os.path.join(OUT, n))


if __name__ == "__main__":
    main()
