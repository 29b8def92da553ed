"""Content-addressed build of /repo's working tree (never writes in /repo).

Every translation unit is compiled with a key made of the compiler command, the
source text and the text of every /repo header it includes (from the compiler's
own dependency output), so the result depends only on file contents: time
stamps and git state are irrelevant, and a change to any source or header is
always seen.  Objects live in /verif/.cache (git-ignored) and are rebuilt when
absent.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/vp/venv/bin/python"
GXX = "/usr/bin/g++"

FLAVORS = {
    "plain": ["-O1", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address",
             "-fno-omit-frame-pointer", "-fno-common"],
}
LINKFLAGS = {"plain": [], "asan": ["-fsanitize=address"]}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


_filehash = {}


def filehash(path):
    if path not in _filehash:
        try:
            with open(path, "rb") as f:
                _filehash[path] = sha(f.read())
        except OSError:
            _filehash[path] = "absent"
    return _filehash[path]


def pyincludes():
    out = subprocess.run(
        [PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"],
        capture_output=True, text=True, check=True).stdout.strip()
    return out


def sources():
    return {
        "kernels": sorted(glob.glob(REPO + "/src/cpu-kernels/*.cpp")),
        "lib": sorted(glob.glob(REPO + "/src/libawkward/**/*.cpp", recursive=True)),
        "python": sorted(glob.glob(REPO + "/src/python/*.cpp")),
    }


def version():
    with open(REPO + "/VERSION_INFO") as f:
        return f.read().strip()


class BuildError(Exception):
    pass


def compile_one(group, src, flavor, defines):
    common = ["-std=c++11", "-fPIC", "-fvisibility=hidden", "-w",
              "-fvisibility-inlines-hidden",
              '-DVERSION_INFO="%s"' % version(),
              "-I" + REPO + "/include",
              "-I/opt/vp/cmake/include"]
    if group == "lib":
        common.append("-DLIBAWKWARD_EXPORT_SYMBOL=EXPORT_SYMBOL")
    if group == "python":
        common[0] = "-std=c++14"
        common += ["-D_ext_EXPORTS", "-I" + pyincludes_cached]
    cmd = [GXX] + common + FLAVORS[flavor] + defines
    rel = os.path.relpath(src, REPO)
    cmdkey = sha(*[c.replace(REPO, "@") for c in cmd], rel)
    mandir = os.path.join(CACHE, "man")
    objdir = os.path.join(CACHE, "obj")
    manpath = os.path.join(mandir, cmdkey + ".json")
    try:
        with open(manpath) as f:
            deplists = json.load(f)
    except (OSError, ValueError):
        deplists = []

    def key_for(deps):
        return sha(cmdkey, *[d + filehash(os.path.join(REPO, d)) for d in deps])

    for deps in deplists:
        obj = os.path.join(objdir, key_for(deps) + ".o")
        if os.path.exists(obj):
            return obj, False
    tmp = os.path.join(objdir, "tmp.%d.%s.o" % (os.getpid(), cmdkey[:16]))
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (rel, r.stderr[-4000:]))
    with open(dep) as f:
        text = f.read().replace("\\\n", " ")
    os.unlink(dep)
    deps = sorted({os.path.relpath(os.path.realpath(t), REPO)
                   for t in text.split(":", 1)[1].split()
                   if os.path.realpath(t).startswith(REPO + "/")})
    obj = os.path.join(objdir, key_for(deps) + ".o")
    os.replace(tmp, obj)
    if deps not in deplists:
        deplists = ([deps] + deplists)[:8]
        with open(manpath + ".tmp%d" % os.getpid(), "w") as f:
            json.dump(deplists, f)
        os.replace(manpath + ".tmp%d" % os.getpid(), manpath)
    return obj, True


pyincludes_cached = None


def build(flavor="plain", defines=(), groups=("kernels", "lib", "python"), verbose=True):
    """Returns (package_dir, info).  package_dir holds importable 'awkward'."""
    global pyincludes_cached
    defines = list(defines)
    for d in ("man", "obj", "lib", "pkg"):
        os.makedirs(os.path.join(CACHE, d), exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _filehash.clear()
        pyincludes_cached = pyincludes()
        src = sources()
        jobs = [(g, s) for g in groups for s in src[g]]
        # biggest first
        jobs.sort(key=lambda gs: -os.path.getsize(gs[1]) * (4 if gs[0] == "python" else 1))
        objs = {g: [] for g in src}
        ncomp = 0
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            futs = [(g, ex.submit(compile_one, g, s, flavor, defines)) for g, s in jobs]
            for g, f in futs:
                o, new = f.result()
                ncomp += new
                objs[g].append(o)
        for g in objs:
            objs[g].sort()
        link = [GXX, "-shared"] + LINKFLAGS[flavor]

        def linkto(name, objects, extra=()):
            key = sha(flavor, name, *[os.path.basename(o) for o in objects], *extra)
            out = os.path.join(CACHE, "lib", key + ".so")
            if not os.path.exists(out):
                tmp = out + ".tmp%d" % os.getpid()
                rsp = tmp + ".rsp"
                with open(rsp, "w") as f:
                    f.write("\n".join(objects))
                r = subprocess.run(link + ["-o", tmp, "@" + rsp, "-ldl"] + list(extra),
                                   capture_output=True, text=True)
                os.unlink(rsp)
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
                os.replace(tmp, out)
            return out

        suffix = subprocess.run(
            [PY, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"],
            capture_output=True, text=True, check=True).stdout.strip()
        libs = {}
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            f1 = ex.submit(linkto, "libawkward-cpu-kernels.so", objs["kernels"])
            f2 = ex.submit(linkto, "libawkward.so", objs["kernels"] + objs["lib"]) if "lib" in groups else None
            f3 = ex.submit(linkto, "_ext", objs["kernels"] + objs["lib"] + objs["python"]) if "python" in groups else None
            libs["libawkward-cpu-kernels.so"] = f1.result()
            if f2:
                libs["libawkward.so"] = f2.result()
            if f3:
                libs["_ext" + suffix] = f3.result()

        pyfiles = []
        root = REPO + "/src/awkward"
        for d, _, fs in os.walk(root):
            if "__pycache__" in d:
                continue
            for f in fs:
                if not f.endswith((".pyc",)):
                    pyfiles.append(os.path.relpath(os.path.join(d, f), root))
        pyfiles.sort()
        pkgkey = sha(flavor, *[f + filehash(os.path.join(root, f)) for f in pyfiles],
                     *[n + os.path.basename(p) for n, p in sorted(libs.items())])[:24]
        pkg = os.path.join(CACHE, "pkg", pkgkey)
        if not os.path.exists(os.path.join(pkg, ".complete")):
            shutil.rmtree(pkg, ignore_errors=True)
            for f in pyfiles:
                dst = os.path.join(pkg, "awkward", f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(root, f), dst)
            for n, p in libs.items():
                os.link(p, os.path.join(pkg, "awkward", n))
            open(os.path.join(pkg, ".complete"), "w").close()
        os.utime(pkg)
        # keep the cache bounded
        pkgs = sorted(glob.glob(os.path.join(CACHE, "pkg", "*")), key=os.path.getmtime)
        for old in pkgs[:-12]:
            shutil.rmtree(old, ignore_errors=True)
        lbs = sorted(glob.glob(os.path.join(CACHE, "lib", "*.so")), key=os.path.getmtime)
        for old in lbs[:-40]:
            if old not in libs.values():
                os.unlink(old)
        if verbose:
            print("build[%s]: %d units, %d compiled, package %s"
                  % (flavor, len(jobs), ncomp, pkgkey), flush=True)
        return pkg, {"units": len(jobs), "compiled": ncomp, "package": pkgkey, "libs": libs}
    finally:
        lock.close()


if __name__ == "__main__":
    for fl in (sys.argv[1:] or ["plain"]):
        print(build(fl)[0])
