"""Builds the MIR dump of /repo/solana: mirrors the cargo workspace under
/verif/build/ws (sources are symlinks into /repo), type-checks it with the
exporter in /verif/driver as workspace wrapper, and leaves one <crate>.jsonl per
crate in /verif/build/dump. Nothing of the repository is executed."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NTT_REPO", "/repo")
SRC = REPO + "/solana"
BUILD = os.environ.get("NTT_BUILD", VERIF + "/build")
WS, TARGET, DUMP = BUILD + "/ws", BUILD + "/target", BUILD + "/dump"
DRIVER = BUILD + "/driver"
STUBS = VERIF + "/stubs"
PROBES = VERIF + "/probes"      # crates that only instantiate generic code of the repository
CARGO_TOOLCHAIN = "nightly-2023-10-29"      # the one the build of this sandbox uses
# crates (besides the one being checked) whose bodies are exported when reachable
DUMP_CRATES = "ntt_messages,example_native_token_transfers,wormhole_io,wormhole_sdk,wormhole_raw_vaas,wormhole_anchor_sdk,wormhole_governance"
DUMP_PREFIXES = ",".join([
    "core::option", "core::result", "core::cmp", "core::convert", "core::clone",
    "core::ops::control_flow", "core::mem::", "core::bool", "<bool>::", "core::ops::try_trait",
])
ENCODE_MIR = {"wormhole_io", "wormhole_raw_vaas", "wormhole_anchor_sdk", "wormhole_sdk"}


class ExtractError(Exception):
    pass


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def write(p, text, mode=None):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or read(p) != text:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
    if mode:
        os.chmod(p, mode)


def rustc_path():
    p = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/bin/rustc"
    if os.path.exists(p):
        return p
    return subprocess.check_output(["rustup", "which", "--toolchain", "nightly", "rustc"], text=True).strip()


def link(target, p):
    if os.path.islink(p) and os.readlink(p) == target:
        return
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.remove(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    os.symlink(target, p)


def members():
    ws = tomllib.loads(read(SRC + "/Cargo.toml"))["workspace"]
    out = {}
    for pat in ws["members"]:
        for m in sorted(glob.glob(f"{SRC}/{pat}/Cargo.toml")):
            out[os.path.dirname(os.path.relpath(m, SRC))] = tomllib.loads(read(m))
    return out


def strip_dev(text):
    """A manifest without its dev-dependencies and test targets."""
    out, skip = [], False
    for line in text.splitlines(keepends=True):
        m = re.match(r"\s*(\[+)([^\]]+)\]", line)
        if m:
            name = m.group(2).strip()
            skip = name.startswith("dev-dependencies") or name in ("test", "bench", "example")
        if not skip:
            out.append(line)
    return "".join(out)


def probes():
    return sorted("probes/" + n for n in os.listdir(PROBES))


def mirror():
    root = read(SRC + "/Cargo.toml")
    ws = tomllib.loads(root)["workspace"]
    git = [n for n, v in ws["dependencies"].items() if isinstance(v, dict) and "git" in v]
    ms = members()

    def drop(text):
        out = []
        for line in text.splitlines(keepends=True):
            m = re.match(r"([A-Za-z0-9_-]+)\s*(\.workspace)?\s*=", line)
            if m and m.group(1) in git:
                if os.path.isdir(f"{STUBS}/{m.group(1)}"):
                    if m.group(2):
                        out.append(line)
                    else:
                        out.append(f'{m.group(1)} = {{ path = "{STUBS}/{m.group(1)}" }}\n')
                continue
            out.append(line)
        return "".join(out)

    text = re.sub(r"members\s*=\s*\[.*?\]",
                  lambda _: "members = [\n" + "".join(f'    "{m}",\n' for m in list(ms) + probes()) + "]",
                  drop(root), count=1, flags=re.S)
    text = re.sub(r'(?m)^warnings\s*=\s*"[a-z]+"', 'warnings = "allow"', text)
    write(WS + "/Cargo.toml", text)
    write(WS + "/.lock-src", read(SRC + "/Cargo.lock"))
    stamp = WS + "/.lock-hash"
    h = hashlib.sha256(read(SRC + "/Cargo.lock").encode()).hexdigest()
    if not os.path.exists(stamp) or read(stamp) != h or not os.path.exists(WS + "/Cargo.lock"):
        shutil.copyfile(SRC + "/Cargo.lock", WS + "/Cargo.lock")
        write(stamp, h)
    for rel in ms:
        s, d = f"{SRC}/{rel}", f"{WS}/{rel}"
        os.makedirs(d, exist_ok=True)
        write(f"{d}/Cargo.toml", strip_dev(drop(read(f"{s}/Cargo.toml"))))
        keep = {"Cargo.toml"}
        for n in os.listdir(s):
            if n in ("Cargo.toml", "tests", "target", "benches", "examples"):
                continue
            keep.add(n)
            link(f"{s}/{n}", f"{d}/{n}")
        for n in os.listdir(d):
            if n not in keep:
                p = f"{d}/{n}"
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for rel in probes():
        write(f"{WS}/{rel}/Cargo.toml", read(f"{VERIF}/{rel}/Cargo.toml"))
        link(f"{VERIF}/{rel}/src", f"{WS}/{rel}/src")
    return ms


def source_hash():
    h = hashlib.sha256()
    files = [SRC + "/Cargo.toml", SRC + "/Cargo.lock"]
    for rel in members():
        for dp, dn, fn in os.walk(f"{SRC}/{rel}"):
            dn[:] = sorted(x for x in dn if x not in ("target", "tests", "node_modules"))
            files += [os.path.join(dp, f) for f in sorted(fn) if f.endswith((".rs", ".toml", ".json"))]
    files += [f for d in (STUBS, PROBES) for f in glob.glob(d + "/**/*.*", recursive=True)] + [VERIF + "/driver/main.rs", os.path.abspath(__file__)]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_driver():
    src = VERIF + "/driver/main.rs"
    h = hashlib.sha256(read(src).encode()).hexdigest()
    stamp = DRIVER + ".hash"
    if os.path.exists(DRIVER) and os.path.exists(stamp) and read(stamp) == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([rustc_path(), "--edition", "2021", "-O", "-o", DRIVER, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("driver build failed:\n" + r.stderr[-4000:])
    write(stamp, h)


def scripts():
    R = rustc_path()
    sysroot = os.path.dirname(os.path.dirname(R))
    enc = "|".join(sorted(ENCODE_MIR))
    write(BUILD + "/rustc.sh", f"""#!/bin/bash
# the pinned cargo driving the newer compiler: look like a stable release, so that
# build scripts of dependencies do not pick unstable features of another era
R={R}
n=""; p=""
for a in "$@"; do
  case "$a" in -vV|--version|-V) $R "$@" | sed 's/-nightly//'; exit $?;; esac
  [ "$p" = "--crate-name" ] && n=$a; p=$a
done
case "$n" in {enc}) export RUSTC_BOOTSTRAP=1; exec $R "$@" -Zalways-encode-mir --cap-lints allow;; esac
export RUSTC_BOOTSTRAP=-1
exec $R "$@"
""", 0o755)
    write(BUILD + "/wrap.sh", f"""#!/bin/bash
R=$1; shift
for a in "$@"; do case "$a" in -vV|--version|-V) exec "$R" "$@";; esac; done
export RUSTC_BOOTSTRAP=1
export LD_LIBRARY_PATH={sysroot}/lib:$LD_LIBRARY_PATH
exec {DRIVER} "$R" "$@" -Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints allow --sysroot {sysroot}
""", 0o755)


def extract(force=False, log=sys.stderr):
    """Make sure the dump matches /repo's current tree. Returns (hash, info)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        h = source_hash()
        stamp = DUMP + "/.hash"
        if not force and os.path.exists(stamp) and read(stamp) == h:
            return h
        if os.path.exists(stamp):
            os.remove(stamp)
        ms = mirror()
        scripts()
        os.makedirs(DUMP, exist_ok=True)
        # cargo's freshness cache would skip the wrapper: forget the members
        pn = {r: tomllib.loads(read(f"{VERIF}/{r}/Cargo.toml"))["package"]["name"] for r in probes()}
        for n in [m["package"]["name"] for m in ms.values()] + list(pn.values()):
            for p in glob.glob(f"{TARGET}/debug/.fingerprint/{n}-*"):
                shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(DUMP + "/*"):
            os.remove(p)
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.update(RUSTC=BUILD + "/rustc.sh", RUSTC_WORKSPACE_WRAPPER=BUILD + "/wrap.sh",
                   CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0",
                   NTT_DUMP_DIR=DUMP, NTT_DUMP_CRATES=DUMP_CRATES, NTT_DUMP_PREFIXES=DUMP_PREFIXES)
        r = subprocess.run(["cargo", "+" + CARGO_TOOLCHAIN, "check", "--offline", "--workspace", "--lib", "--keep-going"],
                           cwd=WS, env=env, capture_output=True, text=True)
        for rel, m in ms.items():
            n = m.get("lib", {}).get("name", m["package"]["name"].replace("-", "_"))
            if not os.path.exists(f"{DUMP}/{n}.jsonl"):
                raise ExtractError("type-check of /repo/solana failed:\n" + r.stderr[-6000:])
        # the instantiation crates: one that no longer type-checks only affects the rules that need it
        for n in pn.values():
            if not os.path.exists(f"{DUMP}/{n.replace('-', '_')}.jsonl"):
                write(f"{DUMP}/{n.replace('-', '_')}.err", r.stderr[-3000:])
        write(stamp, h)
        return h


if __name__ == "__main__":
    print(extract(force="--force" in sys.argv))
