"""Frontend: compiles /repo's current sources to one linked LLVM module and
loads it as a Program. Nothing of /repo is executed or modified."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FRONT = os.path.join(VERIF, "frontend")
REPO = os.environ.get("XD_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18/bin"
MOC = "/usr/lib/qt5/bin/moc"

CONFIG = {
    "BUILD_XDISPATCH2_BACKEND_NAIVE", "BUILD_XDISPATCH2_BACKEND_QT5",
    "XDISPATCH2_HAVE_PRCTL", "XDISPATCH2_HAVE_SETPRIORITY",
    "XDISPATCH2_HAVE_SYSCONF", "XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN",
    "XDISPATCH2_HAVE_SOCKETPAIR", "XDISPATCH2_HAVE_DLSYM",
    "XDISPATCH2_HAVE_IMMINTRIN_H", "XDISPATCH2_BUILD_SHARED",
}
QT = ["-DQT_CORE_LIB", "-DQT_NO_DEBUG",
      "-isystem", "/usr/include/x86_64-linux-gnu/qt5",
      "-isystem", "/usr/include/x86_64-linux-gnu/qt5/QtCore"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def irdump():
    """builds the module printer, usually done by setup_cmd already"""
    src = os.path.join(FRONT, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run(["g++", "-O1", "-fno-exceptions", "-fno-rtti", "-std=c++17",
             "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
             "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
             "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        os.rename(tmp, out)
    return out


def sources():
    src = []
    for d in ("src", "src/naive", "src/qt5"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f).startswith("fallback_"):
                continue  # only built where Qt is not available
            src.append(f)
    return src


def config_h(outdir):
    text = open(os.path.join(REPO, "config.h.in")).read()

    def sub(m):
        if m.group(1) in CONFIG:
            return "#define %s%s" % (m.group(1), m.group(2))
        return "/* #undef %s */" % m.group(1)
    text = re.sub(r"^#cmakedefine\s+(\w+)(.*)$", sub, text, flags=re.M)
    os.makedirs(os.path.join(outdir, "xdispatch"))
    open(os.path.join(outdir, "xdispatch", "config.h"), "w").write(text)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "include"):
        for root, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for n in sorted(names):
                files.append(os.path.join(root, n))
    files.append(os.path.join(REPO, "config.h.in"))
    files += sorted(glob.glob(os.path.join(FRONT, "*")))
    files.append(os.path.abspath(__file__))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def mocs(tmp):
    """Qt's own generated code, as cmake's AUTOMOC would add it"""
    files = []
    for d in ("src", "src/qt5", "include/xdispatch", "include/xdispatch/impl"):
        for pat in ("*.h", "*.cpp"):
            files += sorted(glob.glob(os.path.join(REPO, d, pat)))
    units = []
    for n, f in enumerate(files):
        text = open(f, errors="replace").read()
        if not re.search(r"\bQ_(OBJECT|GADGET|NAMESPACE)\b", text):
            continue
        base = os.path.basename(f).rsplit(".", 1)[0]
        if f.endswith(".h"):
            out = os.path.join(tmp, "moc_%02d_%s.cpp" % (n, base))
            units.append((out, True))
        else:
            out = os.path.join(tmp, "inc", base + ".moc")
        run([MOC, "-I" + os.path.join(tmp, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
             "-DQT_CORE_LIB", f, "-o", out])
    return units


def build():
    """returns the path of the JSON dump of the whole program"""
    dump = irdump()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "prog-%s.json" % tree_hash())
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="b", dir=BUILD)
    try:
        config_h(os.path.join(tmp, "inc"))
        units = [(f, "/qt5/" in f) for f in sources()]
        units += mocs(tmp)
        units.append((os.path.join(FRONT, "driver.cpp"), False))
        units.append((os.path.join(FRONT, "driver_qt.cpp"), True))

        def one(i):
            f, qt = units[i]
            bc = os.path.join(tmp, "%03d.bc" % i)
            run([LLVM + "/clang++", "-c", "-emit-llvm", "-O1", "-Xclang",
                 "-disable-llvm-passes", "-g", "-fstandalone-debug", "-DXDISPATCH_MAKEDLL",
                 "-I" + os.path.join(tmp, "inc"), "-I" + os.path.join(REPO, "include"),
                 "-I" + os.path.join(REPO, "src"),
                 "-DNDEBUG", "-std=gnu++14", "-fPIC", "-fvisibility=hidden",
                 "-flto", "-fwhole-program-vtables", "-w"] + (QT if qt else []) +
                [f, "-o", bc])
            return bc
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bcs = list(ex.map(one, range(len(units))))
        run([LLVM + "/llvm-link"] + bcs + ["-o", tmp + "/all.bc"])
        run([LLVM + "/opt", "-passes=function(sroa)", tmp + "/all.bc", "-o", tmp + "/all2.bc"])
        run([dump, tmp + "/all2.bc", tmp + "/all.json"])
        if REPO != "/repo":
            text = open(tmp + "/all.json").read().replace(REPO + "/", "/repo/")
            open(tmp + "/all.json", "w").write(text)
        for old in sorted(glob.glob(os.path.join(BUILD, "prog-*.json")), key=os.path.getmtime):
            try:
                if len(glob.glob(os.path.join(BUILD, "prog-*.json"))) > 6:
                    os.unlink(old)
            except OSError:
                pass
        os.rename(tmp + "/all.json", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(irdump())
    if "--setup" not in sys.argv:
        print(build())
