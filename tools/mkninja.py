#!/usr/bin/env python3
"""Writes build.ninja for the simulator: every source of mFAST is taken from
/repo's working tree (globbed, so that new files are picked up)."""
import glob, os, sys
REPO = os.environ.get("SIM_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = sys.argv[1]
NSETS = int(os.environ.get("SIM_NSETS", "20"))
NTYPES = int(os.environ.get("SIM_NTYPES", str(max(NSETS // 2, 4))))
SRC = REPO + "/src"
DEFS = ("-DSIZEOF_VOID_P=8 -DMFAST_STATIC_DEFINE -DMFAST_CODER_STATIC_DEFINE -DMFAST_JSON_STATIC_DEFINE "
        "-DMFAST_XML_PARSER_STATIC_DEFINE -DMFAST_SQLITE3_STATIC_DEFINE")
SAN = "-fsanitize=address -fno-omit-frame-pointer"
COMMON = f"-O1 -g1 -w {SAN} -I{SRC} {DEFS}"
out = []
w = out.append
w("ninja_required_version = 1.5")
w("rule cxx\n  command = g++ -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
w("rule link\n  command = g++ " + SAN + " -o $out @$out.rsp $libs\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out")
w("rule genxml\n  command = ASAN_OPTIONS=detect_leaks=0 ./gen_xml . $n $t > /dev/null && touch $out\n  description = GENXML")
w("rule ftg\n  command = ASAN_OPTIONS=detect_leaks=0 ./fast_type_gen $xml\n  restat = 1\n  description = FTG $xml")

def objs(srcs, flags, tag):
    r = []
    for s in sorted(srcs):
        o = f"obj/{tag}/" + os.path.relpath(s, REPO if s.startswith(REPO) else V).replace("/", "_") + ".o"
        w(f"build {o}: cxx {s}\n  flags = {flags}")
        r.append(o)
    return r

def mf(tag, extra):
    fl = f"-std=c++14 {COMMON} {extra}"
    groups = ["mfast/*.cpp", "mfast/instructions/*.cpp", "mfast/coder/*/*.cpp", "mfast/coder/*.cpp", "mfast/json/*.cpp",
              "mfast/xml_parser/*.cpp", "mfast/sqlite3/*.cpp"]
    src = []
    for g in groups:
        src += glob.glob(SRC + "/" + g)
    return objs(src, fl, tag)

X = "-DXETRA_FAST_SPECIFICATION"
lib = mf("mf", X)
ftg = objs(glob.glob(SRC + "/fast_type_gen/*.cpp"), f"-std=c++14 {COMMON} {X}", "ftg")
w("build fast_type_gen: link " + " ".join(ftg + [o for o in lib if "_sqlite3_" not in o and "_json_" not in o]) + "\n  libs = -ltinyxml2")
HF = f"-std=c++17 {COMMON} {X} -I{V}/sim -I. -Wall"
sim_src = glob.glob(V + "/sim/*.cpp")
sim_src = [s for s in sim_src if not s.endswith("gen_xml.cpp")]
gx = objs([V + "/sim/gen_xml.cpp"], HF, "sim")
sim = objs(sim_src, HF, "sim")
need = [o for o in sim if o.endswith("sim_core.cpp.o") or o.endswith("sim_model.cpp.o") or o.endswith("sim_gen_docs.cpp.o")]
w("build gen_xml: link " + " ".join(gx + need) + "\n  libs =")
w(f"build gen.stamp: genxml gen_xml\n  n = {NSETS}\n  t = {NTYPES}")
gobj = []
for i in list(range(NSETS)) + list(range(1000, 1000 + NTYPES)):
    types = i >= 1000
    n = f"ts{i - 1000}" if types else f"gs{i}"
    # in_two_documents of sim/gen_docs.cpp
    two = i % 5 == 4 or types and i % 5 == 1
    hdr = f"{n}.h {n}.inl" + (f" {n}b.h {n}b.inl" if two else "")
    w(f"build {n}.cpp {hdr}{f' {n}b.cpp' if two else ''}: ftg | gen.stamp fast_type_gen\n  xml = {f'{n}b.xml ' if two else ''}{n}.xml")
    if two:
        w(f"build obj/gen/{n}b.o: cxx {n}b.cpp | {hdr}\n  flags = -std=c++17 {COMMON} {X} -I.")
        gobj.append(f"obj/gen/{n}b.o")
    w(f"build obj/gen/{n}.o: cxx {n}.cpp | {hdr}\n  flags = -std=c++17 {COMMON} {X} -I.")
    w(f"build obj/gen/{n}_v2.o: cxx {V}/sim/v2_set.cc | {hdr}\n  flags = {HF} -DSET_NS={n} -DSET_IDX={i} -DSET_HDR=\\\"{n}.h\\\" -DSET_VIEWS=\\\"{n}.views\\\" -DSET_ACC=\\\"{n}.acc\\\"{' -DSET_TYPES_ONLY' if types else ''} -x c++")
    gobj += [f"obj/gen/{n}.o", f"obj/gen/{n}_v2.o"]
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=_ZN8tinyxml211XMLDocument5ParseEPKcm"
w("build sim: link " + " ".join(sim + lib + gobj) + f"\n  libs = {WRAP} -ltinyxml2 -lsqlite3")
# the same without generated code, for trees whose generated code does not build
w("build sim0: link " + " ".join(sim + lib) + f"\n  libs = {WRAP} -ltinyxml2 -lsqlite3")
w("default sim")
os.makedirs(B, exist_ok=True)
p = B + "/build.ninja"
txt = "\n".join(out) + "\n"
if not os.path.exists(p) or open(p).read() != txt:
    open(p, "w").write(txt)
