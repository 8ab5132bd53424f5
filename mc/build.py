"""Build /repo's current sources (library, tool, python wrapper) for the harnesses.
Everything is written below the given scratch directory, never into /repo."""
import glob, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BPAK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def lib_sources():
    s = glob.glob(REPO + "/lib/*.c") + glob.glob(REPO + "/lib/heatshrink/*.c")
    s += [REPO + "/ext/uuid/unpack.c", REPO + "/ext/uuid/unparse.c"]
    return sorted(s)


def tool_sources():
    s = glob.glob(REPO + "/src/*.c")
    s += [REPO + "/ext/uuid/%s.c" % n for n in ("clear", "compare", "pack", "parse", "isnull")]
    return sorted(s)


def py_sources():
    return sorted(glob.glob(REPO + "/python/*.c"))


def gen_config(d):
    os.makedirs(d + "/gen/bpak", exist_ok=True)
    t = open(REPO + "/lib/build_config.h.in").read()
    for n in ("MERKLE", "LZMA", "MBEDTLS"):
        t = t.replace("@BPAK_CONFIG_%s@" % n, "1")
    open(d + "/gen/bpak/build_config.h", "w").write(t)


def includes(d):
    return ["-I" + REPO + "/include", "-I" + d + "/gen", "-I" + REPO + "/ext/uuid",
            "-I" + REPO + "/lib", "-I" + REPO + "/lib/heatshrink"]


def compile_all(d, jobs):
    """jobs: list of (src, obj, flags)"""
    def one(j):
        src, obj, flags = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        _run(["gcc", "-std=gnu99", "-w", "-c", src, "-o", obj] + flags)
        return obj
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def objname(d, variant, src):
    h = hashlib.sha1(src.encode()).hexdigest()[:8]
    return "%s/obj-%s/%s-%s.o" % (d, variant, os.path.basename(src)[:-2], h)


def build_lib(d, variant="san", extra=()):
    """Return list of object files of the library compiled with sanitizers."""
    gen_config(d)
    flags = ["-O1", "-g"] + includes(d) + list(extra)
    if variant.startswith("san"):
        flags += SAN
    if variant.endswith("pic"):
        flags += ["-fPIC"]
    return compile_all(d, [(s, objname(d, variant, s), flags) for s in lib_sources()])


def build_tool(d, variant="san", extra=(), rename_main=True):
    flags = ["-O1", "-g"] + includes(d) + ["-I" + REPO + "/src"] + list(extra)
    if variant.startswith("san"):
        flags += SAN
    jobs = []
    for s in tool_sources():
        f = list(flags)
        if rename_main and os.path.basename(s) == "main.c":
            f.append("-Dmain=bpak_tool_main")
        jobs.append((s, objname(d, variant + "tool", s), f))
    return compile_all(d, jobs)


def build_harness(d, name, sources, libobjs, variant="san", extra=(), ldextra=()):
    flags = ["-O1", "-g", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness", "-I" + REPO + "/src", "-DVERIF_DIR=\"%s\"" % VERIF, "-DGEN_DIR=\"%s/gen\"" % d] + includes(d) + list(extra)
    san = SAN if variant.startswith("san") else []
    objs = compile_all(d, [(VERIF + "/" + s, "%s/h-%s/%s.o" % (d, name, os.path.basename(s)),
                            flags + san) for s in list(sources) + ["mc/mc.c"]])
    exe = "%s/%s" % (d, name)
    _run(["gcc"] + san + objs + list(libobjs) + ["-o", exe] + list(ldextra) +
         ["-llzma", "-lmbedcrypto", "-lm", "-lpthread"])
    return exe
