"""Front end shared by every check: turn /repo's current tree into LLVM bitcode
with the flags of the project's own CMake configuration, and run the analyser."""
import json, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "svcheck")
IR_FLAGS = ["-w", "-c", "-emit-llvm", "-g", "-O1", "-Xclang", "-disable-llvm-passes",
            "-fno-delete-null-pointer-checks", "-fwrapv", "-fno-builtin"]
# optional modules the CMake build leaves out but which the Android build uses
FULL_DEFS = ["_IMELODY_PARSER", "_RTTTL_PARSER", "_OTA_PARSER", "_XMF_PARSER", "_WAVE_PARSER",
             "_IMA_DECODER", "JET_INTERFACE", "MMAPI_SUPPORT", "ALOGD(...)=", "ALOGV(...)=", "ALOGE(...)="]
FULL_SKIP = {"wt_22khz.c", "wt_44khz.c", "wt_200k_samples.c", "eas_main.c"}


class Broken(Exception):
    """The analysis could not be carried out (neither held nor violated)."""


def ensure_tool():
    srcs = [os.path.join(VERIF, "tool", f) for f in os.listdir(os.path.join(VERIF, "tool"))]
    if os.path.exists(TOOL) and all(os.path.getmtime(TOOL) >= os.path.getmtime(s) for s in srcs):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tool"), "OUT=" + BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("building the analyser failed:\n" + r.stdout[-3000:])


def configure(tmp):
    """Configure the project out of tree; returns [(file, directory, args)]."""
    b = os.path.join(tmp, "cfg")
    env = dict(os.environ, CC="clang-18", CXX="clang++-18")
    r = subprocess.run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DBUILD_TESTING=OFF", "-DBUILD_EXAMPLE=OFF",
                        "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    cc = os.path.join(b, "compile_commands.json")
    if r.returncode or not os.path.exists(cc):
        raise Broken("cmake configure failed:\n" + r.stdout[-3000:])
    out = {}
    for e in json.load(open(cc)):
        args = shlex.split(e.get("command") or " ".join(e["arguments"]))
        keep, i = [], 1
        while i < len(args):
            a = args[i]
            if a.startswith(("-I", "-D", "-U", "-std")):
                keep.append(a)
            elif a in ("-isystem", "-include"):
                keep += [a, args[i + 1]]
                i += 1
            i += 1
        out[os.path.realpath(e["file"])] = keep
    lib = {f: k for f, k in out.items() if f.endswith(".c")}
    if len(lib) < 15:
        raise Broken("only %d library sources found in the compile database" % len(lib))
    return lib


def bitcode(config, tmp):
    """Compile the tree to bitcode. config: 'built' (exactly what CMake builds) or
    'full' (plus the optional parsers and JET)."""
    lib = configure(tmp)
    out = os.path.join(tmp, config)
    os.makedirs(out)
    jobs = dict(lib)
    if config == "full":
        anyk = next(iter(lib.values()))
        defs = ["-D" + d for d in FULL_DEFS]
        for f in list(jobs):
            jobs[f] = jobs[f] + defs
        d = os.path.join(REPO, "arm-wt-22k", "lib_src")
        for n in sorted(os.listdir(d)):
            p = os.path.realpath(os.path.join(d, n))
            if n.endswith(".c") and n not in FULL_SKIP and p not in jobs:
                jobs[p] = anyk + defs
    res = []

    def one(it):
        f, k = it
        o = os.path.join(out, os.path.basename(f) + ".bc")
        r = subprocess.run(["clang-18"] + k + IR_FLAGS + (["-Wno-implicit-function-declaration"] if config == "full" else []) + [f, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("cannot compile %s:\n%s" % (f, r.stdout[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sorted(jobs.items())))
    return res


API_HEADERS = ["eas.cmake", "jet.h"]


def api_names():
    names = set()
    for h in API_HEADERS:
        p = os.path.join(REPO, "arm-wt-22k", "host_src", h)
        if not os.path.exists(p):
            continue
        s = re.sub(r"/\*.*?\*/", "", open(p, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"^\s*(?:EAS_PUBLIC\s+|extern\s+)?[A-Za-z_][A-Za-z_0-9 \*]*\b((?:EAS_|JET_)\w+)\s*\([^;{]*\)\s*;", s, re.M):
            names.add(m.group(1))
    if len(names) < 40:
        raise Broken("public API list not found (%d names)" % len(names))
    return sorted(names)
