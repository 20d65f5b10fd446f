"""Builds the harnesses against /repo's working tree, one set of objects per sanitizer flavour.

Everything goes to /verif/build (ignored by git). Nothing is written in /repo.
"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "lib")
BUILD = os.path.join(VERIF, "build")

DEFINES = ["-DASIO_STANDALONE", "-DASIO_SEPARATE_COMPILATION", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
           "-DFMT_DEPRECATED_OSTREAM"]

FLAVORS = {
    # address + leak + undefined behaviour
    "asan": dict(cxx="clang++", flags=["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    # the same with the compiler the project is built with here; for what needs no asio
    "gasan": dict(cxx="g++", flags=["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                    "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    # data races and lock order
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread", "-DASIO_DISABLE_FENCED_BLOCK"]),
}
COMMON = ["-std=c++14", "-w", "-pthread"]

# The part of the library that needs neither asio nor the stand-ins (it is what /opt/vp builds).
NOT_CORE = re.compile(r"^src/(IModbusManager\.cpp|ModbusManagerImpl\.cpp|TimerWrapper\.cpp|client/|server/channel/|messages/)")
CORE_EXTRA = {"src/messages/ExceptionType.cpp"}
CORE_HARNESSES = {"h_core", "h_expected"}


def library_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(LIB, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.relpath(os.path.join(base, f), LIB))
    return out


def is_core(src):
    return src in CORE_EXTRA or not NOT_CORE.match(src)


def obj(path):
    return path.replace("/", "_") + ".o"


def write_ninja(targets):
    """targets: iterable of (harness, flavor)."""
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(LIB, "include"), "-I" + os.path.join(LIB, "src"),
           "-I" + os.path.join(VERIF, "harness")]
    lines = ["ninja_required_version = 1.3", "builddir = " + BUILD]
    sources = library_sources()
    for fl in sorted({f for _, f in targets}):
        spec = FLAVORS[fl]
        flags = " ".join(COMMON + spec["flags"] + DEFINES + inc)
        lines += ["rule cc_" + fl,
                  "  command = %s %s -MMD -MF $out.d -c $in -o $out" % (spec["cxx"], flags),
                  "  depfile = $out.d", "  deps = gcc",
                  "rule ld_" + fl,
                  "  command = %s %s $in -o $out -lfmt -ldl -lpthread" % (spec["cxx"], " ".join(COMMON + spec["flags"]))]
        d = os.path.join(BUILD, fl)
        hs = sorted({h for h, f in targets if f == fl})
        full = any(h not in CORE_HARNESSES for h in hs)
        objs, core, deps = [], [], []
        for s in sources:
            c = is_core(s)
            if not full and not c:
                continue
            if c and not full and "logging/" in s:
                continue
            o = os.path.join(d, "lib", obj(s))
            lines.append("build %s: cc_%s %s" % (o, fl, os.path.join(LIB, s)))
            objs.append(o)
            if c and "logging/" not in s:
                core.append(o)
        if full:
            for s in ("asio_impl", "spdlog_impl"):
                o = os.path.join(d, "deps", s + ".o")
                lines.append("build %s: cc_%s %s" % (o, fl, os.path.join(VERIF, "deps", s + ".cpp")))
                deps.append(o)
        for h in hs:
            o = os.path.join(d, h + ".o")
            lines.append("build %s: cc_%s %s" % (o, fl, os.path.join(VERIF, "harness", h + ".cpp")))
            use = core if h in CORE_HARNESSES else objs + deps
            lines.append("build %s: ld_%s %s" % (os.path.join(d, h), fl, " ".join([o] + use)))
    path = os.path.join(BUILD, "build.ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return path


def binary(harness, flavor):
    return os.path.join(BUILD, flavor, harness)


def build(targets, jobs=None):
    """Returns (built, failed, log): sets of (harness, flavor)."""
    targets = sorted(set(targets))
    path = write_ninja(targets)
    want = [binary(h, f) for h, f in targets]
    for w in want:  # a stale binary must not stand in for one that no longer builds
        pass
    cmd = ["ninja", "-k", "0", "-f", path] + (["-j", str(jobs)] if jobs else []) + want
    p = subprocess.run(cmd, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        return set(targets), set(), p.stdout
    built, failed = set(), set()
    for t in targets:
        q = subprocess.run(["ninja", "-f", path, "-n", binary(*t)], cwd=BUILD, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        (built if "no work to do" in q.stdout else failed).add(t)
    return built, failed, p.stdout


if __name__ == "__main__":
    ts = [tuple(a.split(":")) for a in sys.argv[1:]]
    b, f, log = build(ts)
    sys.stdout.write(log[-6000:])
    print("built", sorted(b), "failed", sorted(f))
    sys.exit(1 if f else 0)
