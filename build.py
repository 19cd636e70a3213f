#!/usr/bin/env python3
"""Builds a simulator executable from /repo's working tree and /verif/sim into /verif/build/<exe>.

Objects are named by a hash of everything that went into them (source, all headers of the library, flags),
so a stale object can never be used, and nothing is written outside /verif/build."""
import hashlib, os, subprocess, sys, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
INC = f"{REPO}/include"
COMMON = f"-DNDEBUG -DSDSL_SIM -w -I{INC} -I{HERE}/sim"
FLAGS = {
    "asan": f"-O1 -g1 -fsanitize=address -fno-omit-frame-pointer {COMMON}",
    "tsan": f"-O1 -g1 -fsanitize=thread {COMMON}",
    "plain": f"-O1 -g1 {COMMON}",
    "core": f"-O1 -g1 -fno-omit-frame-pointer -w -I{HERE}/sim",
}
CXX = "clang++"
LIBS = "-ldivsufsort -ldivsufsort64 -lpthread -ldl"

def lib_sources():
    return sorted(s for s in glob.glob(f"{REPO}/lib/*.cpp") if not s.endswith("/structure_tree.cpp"))

def gen_structure_tree(out):
    src = open(f"{REPO}/lib/structure_tree.cpp.cmake").read().replace("@PROJECT_SOURCE_DIR@", REPO)
    if not os.path.exists(out) or open(out).read() != src:
        open(out, "w").write(src)

# exe -> (variant of library and worlds, world sources, extra core sources, link flags)
from exes import EXES   # noqa

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build(exe, verbose=False):
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    os.makedirs(f"{BUILD}/gen", exist_ok=True)
    spec = EXES[exe]
    var = spec["variant"]
    st = f"{BUILD}/gen/structure_tree.cpp"
    gen_structure_tree(st)
    hdr = tree_hash(glob.glob(f"{INC}/sdsl/*.hpp"))
    simhdr = tree_hash(glob.glob(f"{HERE}/sim/*.hpp"))
    cxxv = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    units = []
    late = []
    for s in lib_sources() + [st]:
        if var == "asan" and os.path.basename(s).startswith("coder_"):
            # table driven decoders read (and ignore) the word behind the last one; see DESIGN.md
            late.append((s, FLAGS[var].replace("-fsanitize=address", "") + " -std=c++11", hdr, []))
            continue
        units.append((s, FLAGS[var] + " -std=c++11", hdr, []))
    for s in spec["worlds"]:
        # a unit may be compiled several times with different defines: "file.cpp:DEF=..|DEF2"
        name, _, defs = s.partition(":")
        d = [f"-D{x}" for x in defs.split("|") if x]
        units.append((f"{HERE}/sim/{name}", FLAGS[var] + " -std=c++14 " + spec.get("cxx", ""), hdr + simhdr, d))
    for s in ["core.cpp"] + spec.get("core", []):
        units.append((f"{HERE}/sim/{s}", FLAGS["core"] + " -std=c++17", simhdr, []))
    units += late      # last: their copies of inline functions must not win
    objs, ninja = [], []
    ninja.append(f"rule cc\n  command = {CXX} $flags -c $in -o $out.tmp && mv $out.tmp $out\n  description = CC $in $defs")
    ninja.append(f"rule ld\n  command = {CXX} @$out.rsp {spec['link']} {LIBS} -o $out.tmp && mv $out.tmp $out\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LD $out")
    weights = spec.get("first", [])
    seen = set()
    for src, flags, dep, defs in units:
        key = sha(open(src, "rb").read(), src, flags, dep, cxxv, " ".join(defs))
        o = f"{BUILD}/obj/{os.path.basename(src)[:-4]}-{key}.o"
        if o in seen: continue
        seen.add(o)
        objs.append(o)
        fl = (flags + " " + " ".join(defs)).replace("$", "$$")
        ninja.append(f"build {o}: cc {src}\n  flags = {fl}")
    out = f"{BUILD}/{exe}"
    link_key = sha(*objs, spec["link"])
    final = f"{BUILD}/{exe}-{link_key}"
    ninja.append(f"build {final}: ld {' '.join(objs)}")
    ninja.append(f"default {final}")
    nf = f"{BUILD}/{exe}.ninja"
    open(nf, "w").write("\n".join(ninja) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-C", BUILD, "-j", os.environ.get("SIM_JOBS", "8")], capture_output=not verbose, text=True)
    if r.returncode != 0:
        if not verbose: sys.stderr.write((r.stdout or "")[-6000:] + (r.stderr or "")[-2000:])
        raise SystemExit(2)
    return final

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    for e in sys.argv[1:] or EXES:
        print(build(e, verbose=True))
