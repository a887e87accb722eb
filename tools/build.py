#!/usr/bin/env python3
"""Builds the ZenKit sources of /repo's working tree plus one explorer, outside /repo.

usage: build.py CONFIG EXPLORER...     -> prints the path of each binary
The library sources are globbed from /repo/src, so added, split or renamed files are picked up.
"""
import os, subprocess, sys, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SQUISH = "/opt/vp/deps/libsquish"
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))

COMMON = ("-std=c++20 -g1 -w -D_ZKEXPORT=1 -DZKNO_REM=1 -D_ZK_WITH_MMAP=1 -D_ZK_WITH_ZIPPED_VDF=1 -D_GLIBCXX_ASSERTIONS "
          "-fno-omit-frame-pointer ")
SAN = ("-fsanitize=address,undefined -fno-sanitize-recover=all "
       "-fno-sanitize=vptr,alignment,signed-integer-overflow,enum,nonnull-attribute,shift,float-cast-overflow ")
CONFIGS = {
    # memory- and UB-checked build used by almost every explorer
    "asan": dict(cxx="g++", flags=COMMON + "-O1 " + SAN, ldflags="-fsanitize=address,undefined"),
    # the other side of the optional features: no memory mapping, no compressed disk images (the default build lacks the latter)
    "bare": dict(cxx="g++", flags=COMMON.replace("-D_ZK_WITH_MMAP=1 -D_ZK_WITH_ZIPPED_VDF=1 ", "") + "-O1 " + SAN, ldflags="-fsanitize=address,undefined"),
    # plain optimised build for the deepest enumerations
    "fast": dict(cxx="g++", flags=COMMON + "-O2 ", ldflags=""),
    # controlled-scheduler / race pass
    "tsan": dict(cxx="g++", flags=COMMON + "-O1 -fsanitize=thread ", ldflags="-fsanitize=thread"),
}


def sources(extra_exclude=()):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx")) and "Win32" not in f:
                out.append(os.path.join(root, f))
    return sorted(out)


def obj_name(cfg, src):
    h = hashlib.sha1(src.encode()).hexdigest()[:8]
    return f"{cfg}/obj/{os.path.basename(src)}.{h}.o"


def write_ninja(cfg, explorers):
    c = CONFIGS[cfg]
    inc = (f"-I{VERIF}/mc -I{VERIF}/mc/shim -I{REPO}/include -I{REPO}/src -I{SQUISH}")
    lines = ["ninja_required_version = 1.5", f"builddir = {BUILD}/{cfg}",
             "rule cxx", f"  command = {c['cxx']} {c['flags']} {inc} $extra -MMD -MF $out.d -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
             "rule ar", "  command = rm -f $out && ar crs $out $in", "  description = AR $out",
             "rule link", f"  command = {c['cxx']} {c['ldflags']} -o $out $in $ldextra -lz -lsquish -lpthread", "  description = LINK $out",
             ]
    objs = []
    for s in sources():
        if cfg == "bare" and os.path.basename(s).startswith("Mmap"):
            continue  # like the build files: not part of a build without memory mapping
        o = obj_name(cfg, s)
        lines.append(f"build {o}: cxx {s}")
        objs.append(o)
    for s in sorted(glob.glob(SQUISH + "/*.cpp")):
        o = obj_name(cfg, s)
        lines.append(f"build {o}: cxx {s}")
        objs.append(o)
    lib = f"{cfg}/libzk.a"
    lines.append(f"build {lib}: ar {' '.join(objs)}")
    for e in explorers:
        src = f"{VERIF}/checks/{e}.cc"
        o = f"{cfg}/obj/{e}.o"
        lines.append(f"build {o}: cxx {src}")
        lines.append(f"build {cfg}/{e}: link {o} {lib}")
        ld = ""
        with open(src) as fh:
            for ln in fh:
                if ln.startswith("// ldflags:"):
                    ld += " " + ln.split(":", 1)[1].strip()
        if ld:
            lines.append(f"  ldextra = {ld}")
    path = os.path.join(BUILD, f"{cfg}-{'-'.join(explorers)[:80]}.ninja")
    os.makedirs(os.path.join(BUILD, cfg, "obj"), exist_ok=True)
    with open(path + ".tmp", "w") as fh:
        fh.write("\n".join(lines) + "\n")
    os.replace(path + ".tmp", path)
    return path


def build(cfg, explorers, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    path = write_ninja(cfg, explorers)
    targets = [f"{cfg}/{e}" for e in explorers]
    # -j follows the number of cores; one build at a time per build dir (flock)
    import fcntl
    with open(os.path.join(BUILD, f".lock-{cfg}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["ninja", "-C", BUILD, "-f", path] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-8000:])
        return None
    return [os.path.join(BUILD, t) for t in targets]


if __name__ == "__main__":
    r = build(sys.argv[1], sys.argv[2:])
    if r is None:
        sys.exit(2)
    print("\n".join(r))
