"""From /repo's current sources to LLVM IR (verification) or to an executable (replay)."""
import os, re, subprocess, hashlib

REPO = os.environ.get("FV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "clang++-18"
OPT = "opt-18"
FRONT = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fno-discard-value-names",
         "-Wno-everything", "-S", "-emit-llvm"]
PASSES = ("function(lowerinvoke),globaldce,function(sroa,simplifycfg),"
          "cgscc(devirt<6>(inline,function(sroa,instsimplify,simplifycfg))),globaldce,function(loop(loop-unroll-full),sroa,instsimplify,simplifycfg,loop-simplify)")

class BuildError(Exception):
    pass

def configure_h(gen):
    """fern/configure.h is a CMake template: instantiate it the way /repo's Debug build does"""
    os.makedirs(os.path.join(gen, "fern"), exist_ok=True)
    src = os.path.join(REPO, "source/fern/configure.h.in")
    t = open(src).read() if os.path.exists(src) else ""
    vals = {"CMAKE_BUILD_TYPE": "Debug", "CMAKE_SYSTEM": "Linux", "CMAKE_CXX_COMPILER": CXX, "PROJECT_NAME": "fern",
            "fern_VERSION": "0.0.0", "fern_PRE_RELEASE_VERSION": "rc.1", "fern_COPYRIGHT": "Geoneric"}
    for _ in range(3):
        t = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), "0"), t)
    t = re.sub(r"^#cmakedefine\s+(\w+).*$", r"/* #undef \1 */", t, flags=re.M)
    open(os.path.join(gen, "fern/configure.h"), "w").write(t)

def run(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[:3000]))
    return r.stdout

def internalise(t):
    alias = {}
    for m in re.finditer(r'^@("[^"]*"|[-\w.$]+) = .*?\balias\b .*?, ptr @("[^"]*"|[-\w.$]+)\s*$', t, flags=re.M):
        alias[m.group(1)] = m.group(2)
    if alias:
        t = re.sub(r'^@("[^"]*"|[-\w.$]+) = .*?\balias\b .*$\n', "", t, flags=re.M)
        for _ in range(4):
            t = re.sub(r'@("[^"\n]*"|[-\w.$]+)', lambda m: "@" + alias.get(m.group(1), m.group(1)), t)
    def f(m):
        l = m.group(0)
        if "@fv_check_" in l: return l
        l = re.sub(r"^define (linkonce_odr|weak_odr|linkonce|weak|internal|available_externally)? ?(dso_local )?", "define internal ", l)
        l = l.replace("internal hidden ", "internal ")
        return re.sub(r" comdat(\([^)]*\))?", "", l)
    t = re.sub(r"^define .*$", f, t, flags=re.M)
    t = re.sub(r"^(@\S+ = )(linkonce_odr|weak_odr) (.*?)(, comdat(\([^)]*\))?)(.*)$", r"\1internal \3\6", t, flags=re.M)
    t = re.sub(r"^\$\S+ = comdat any$\n", "", t, flags=re.M)
    # never-inline hints of the code must not keep a function opaque (only the task entry point keeps its own)
    t = re.sub(r"\bnoinline\b|\boptnone\b", "", t)
    t = t.replace("llvm.loop.unroll.disable", "llvm.loop.none")
    def keep(m):
        l = m.group(0); i = l.rfind(" #")
        return l[:i] + " noinline" + l[i:] if i > 0 else l
    t = re.sub(r"^define [^\n]*fv_task_run.*$", keep, t, flags=re.M)
    return t

def to_ir(driver, work, defines=(), passes=None, incs=()):
    gen = os.path.join(work, "gen")
    configure_h(gen)
    name = os.path.splitext(os.path.basename(driver))[0]
    tag = hashlib.sha1(repr((driver, defines, passes)).encode()).hexdigest()[:8]
    raw, out = os.path.join(work, "%s.%s.0.ll" % (name, tag)), os.path.join(work, "%s.%s.ll" % (name, tag))
    run([CXX] + FRONT + ["-D" + d for d in defines] + ["-I" + i for i in incs] +
        ["-I" + os.path.join(VERIF, "specs"), "-I" + os.path.join(VERIF, "specs/shadow"), "-I" + os.path.join(REPO, "source"), "-I" + gen, driver, "-o", raw])
    t = internalise(open(raw).read())
    open(raw, "w").write(t)
    run([OPT, "-S", "-passes=" + (passes or PASSES), "-inline-threshold=10000000", "-unroll-threshold=100000", raw, "-o", out])
    r = open(out).read()
    os.unlink(raw)
    return r

def to_exe(driver, work, defines=(), sanitize=True, incs=()):
    gen = os.path.join(work, "gen")
    configure_h(gen)
    name = os.path.splitext(os.path.basename(driver))[0]
    exe = os.path.join(work, name + ".native")
    run([CXX, "-std=c++17", "-O1", "-g", "-DFV_NATIVE", "-Wno-everything"] +
        (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if sanitize else []) +
        ["-D" + d for d in defines] + ["-I" + i for i in incs] +
        ["-I" + os.path.join(VERIF, "specs"), "-I" + os.path.join(REPO, "source"), "-I" + gen, driver, "-o", exe, "-lpthread"])
    return exe
