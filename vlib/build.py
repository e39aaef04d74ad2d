"""Builds /repo's current working tree outside /repo (in /verif/build) and returns the paths.

Sources are mirrored by content, so mtimes never matter; objects are cached under a key made
of the compile command and the contents of every file the translation unit reads.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
OBJ = os.path.join(BUILD, "obj")
COMPAT = "/opt/vp/compat/compat.h"
COMPAT_FALLBACK = os.path.join(VERIF, "vlib", "compat.h")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

MODULES = ["mm", "compile", "core", "lang_cs", "lang_lq", "rtlib", "exec", "rt"]
LINK_ORDER = ["global/default", "common", "algorithm", "arch/x86_64", "os/linux", "lib"] + \
             ["modules/" + m for m in MODULES]


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _write_if_changed(path, data, mode=None):
    if os.path.exists(path) and not os.path.islink(path) and _read(path) == data:
        pass
    else:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
    if mode is not None:
        os.chmod(path, mode)


def mirror():
    """Copy what the build reads from /repo (never build products) into build/src."""
    keep = set()
    tops = ["algorithm", "arch", "common", "core_lib", "external", "global", "include", "lib", "modules",
            "os", "tools"]
    exts = (".cpp", ".h", ".src", ".cs", ".project", ".solution", ".hpp", ".inc", ".py", ".txt",
            ".xml")
    for top in tops:
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", ".git"))
            rel = os.path.relpath(root, REPO)
            for fn in sorted(files):
                if not (fn.endswith(exts) or top == "tools"):
                    continue
                r = os.path.join(rel, fn)
                if r == "include/config.h":
                    continue
                keep.add(r)
                full = os.path.join(root, fn)
                _write_if_changed(os.path.join(SRC, r), _read(full),
                                  os.stat(full).st_mode & 0o777)
    generated = {"include/config.h"}
    for root, dirs, files in os.walk(SRC):
        for fn in files:
            r = os.path.relpath(os.path.join(root, fn), SRC)
            if r not in keep and r not in generated and not r.endswith(".csec"):
                os.unlink(os.path.join(root, fn))
    _write_if_changed(os.path.join(SRC, "include/config.h"),
                      b" \n#define CONFIG_NULLPTR_SUPPORTED 1\n"
                      b"#define CONFIG_BASE_NAMESPACE    april\n"
                      b"#define CONFIG_OPTIMIZE          0\n")
    for src in sorted(glob.glob(os.path.join(SRC, "modules/*/*.src"))):
        p = subprocess.run(["bash", "-O", "xpg_echo", "tools/csec", "--home", SRC], cwd=SRC,
                           stdin=open(src, "rb"), capture_output=True)
        if not p.stdout:
            raise BuildError("csec produced nothing for %s: %s" % (src, p.stderr[-2000:]))
        _write_if_changed(src[:-4] + ".csec", p.stdout)


def base_flags():
    inc = [os.path.join(SRC, "include")]
    inc += sorted(d for d in glob.glob(os.path.join(SRC, "include/*")) if os.path.isdir(d))
    inc += [SRC, os.path.join(SRC, "os/linux"), os.path.join(SRC, "arch/x86_64"),
            os.path.join(SRC, "global/default")]
    compat = COMPAT if os.path.exists(COMPAT) else COMPAT_FALLBACK
    return ["-w", "-include", compat, "-D__error_t_defined=1", "-std=c++2a",
            "-DBOOST_LOG_DYN_LINK", "-DBOOST_FILESYSTEM_DYN_LINK"] + ["-I" + d for d in inc]


LIBS = ["-fuse-ld=lld", "-Wl,--no-as-needed", "-lpthread", "-lboost_log", "-lboost_system",
        "-lboost_filesystem"]
CXX = "clang++-18"


_hash_memo = {}


def _fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _hash_memo:
        _hash_memo[k] = sha(_read(path))
    return _hash_memo[k]


def make_pch(variant, flags):
    """A precompiled <core.h>, which every module starts with; None if it cannot be made."""
    h = os.path.join(BUILD, "pch", "core_%s.h" % variant)
    _write_if_changed(h, b"#include <core.h>\n")
    try:
        return compile_one(h, variant, flags + ["-fpch-instantiate-templates", "-x", "c++-header"])
    except BuildError:
        return None


def compile_mod(src, variant, flags, pch):
    """A module's translation unit, with the precompiled header where that works."""
    if pch and os.path.relpath(src, SRC).startswith("modules/"):
        try:
            return compile_one(src, variant, flags + ["-include-pch", pch])
        except BuildError:
            pass
    return compile_one(src, variant, flags)


def compile_one(src, variant, flags):
    """Compile src (absolute); returns the object path. Cached by content."""
    name = variant + "_" + os.path.relpath(src, BUILD).replace("/", "__").replace("..", "up")
    d = os.path.join(OBJ, name)
    os.makedirs(d, exist_ok=True)
    cmd = [CXX] + flags + ([] if "c++-header" in flags else ["-c"]) + [src]
    idx = os.path.join(d, "index.json")
    entries = []
    if os.path.exists(idx):
        try:
            entries = json.load(open(idx))
        except ValueError:
            entries = []
    for e in entries:
        if e["cmd"] == cmd and os.path.exists(e["obj"]) and \
                all(_fhash(p) == h for p, h in e["deps"].items()):
            return e["obj"]
    tmp = os.path.join(d, "tmp%d.o" % os.getpid())
    dep = tmp + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("compile of %s failed:\n%s" % (src, p.stderr[-4000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {os.path.normpath(x): _fhash(x) for x in deps}
    key = sha(json.dumps([cmd, sorted(deps.items())]).encode())[:24]
    obj = os.path.join(d, key + ".o")
    os.replace(tmp, obj)
    os.unlink(dep)
    entries = [e for e in entries if e["obj"] != obj]
    entries.insert(0, {"cmd": cmd, "obj": obj, "deps": deps})
    for e in entries[4:]:
        if os.path.exists(e["obj"]):
            os.unlink(e["obj"])
    with open(idx + ".tmp", "w") as f:
        json.dump(entries[:4], f)
    os.replace(idx + ".tmp", idx)
    return obj


def _dir_objs(dirs, variant, flags):
    srcs = []
    for d in dirs:
        fs = sorted(glob.glob(os.path.join(SRC, d, "*.cpp")))
        srcs += [(d, f) for f in fs]
    # Big ones first.
    order = sorted(srcs, key=lambda x: -os.path.getsize(x[1]))
    order.sort(key=lambda x: 0 if x[1].endswith("exec/commands.cpp") else 1)
    out = {}
    with ThreadPoolExecutor(JOBS) as ex:
        pch = make_pch(variant, flags)
        futs = {x: ex.submit(compile_mod, x[1], variant, flags, pch) for x in order}
        for x in srcs:
            out.setdefault(x[0], []).append(futs[x].result())
    return out


def _archives(objs, dirs, variant):
    libs = []
    for d in dirs:
        o = objs.get(d, [])
        if not o:
            continue
        key = sha("\n".join(o).encode())[:16]
        lib = os.path.join(BUILD, "libs", "%s_%s_%s.a" % (variant, d.replace("/", "_"), key))
        if not os.path.exists(lib):
            os.makedirs(os.path.dirname(lib), exist_ok=True)
            for old in glob.glob(os.path.join(BUILD, "libs", "%s_%s_*.a" %
                                              (variant, d.replace("/", "_")))):
                os.unlink(old)
            tmp = lib + ".tmp"
            if os.path.exists(tmp):
                os.unlink(tmp)
            # thin: the members stay in the object cache
            subprocess.run(["ar", "-crT", tmp] + o, check=True)
            os.replace(tmp, lib)
        libs.append(lib)
    return libs


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_april():
    """Returns (april binary, System.apl). Raises BuildError."""
    t0 = time.time()
    with Lock():
        mirror()
        flags = ["-O0"] + base_flags()
        objs = _dir_objs(LINK_ORDER + ["modules/april"], "o0", flags)
        allobjs = [o for d in LINK_ORDER + ["modules/april"] for o in objs.get(d, [])]
        corelib = []
        for root, dirs, files in os.walk(os.path.join(SRC, "core_lib")):
            dirs.sort()
            corelib += [os.path.join(root, f) for f in sorted(files)]
        key = sha(json.dumps([allobjs, [(p, _fhash(p)) for p in corelib]]).encode())[:16]
        out = os.path.join(BUILD, "bin", key)
        exe, apl = os.path.join(out, "april"), os.path.join(out, "System.apl")
        if not (os.path.exists(exe) and os.path.exists(os.path.join(out, "ok"))):
            os.makedirs(out, exist_ok=True)
            libs = _archives(objs, LINK_ORDER, "o0")
            p = subprocess.run([CXX] + LIBS + ["-o", exe] + objs["modules/april"] +
                               libs, capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("link failed:\n" + p.stderr[-4000:])
            wd = os.path.join(out, "wd")
            os.makedirs(wd, exist_ok=True)
            try:
                p = subprocess.run([exe, "compile", os.path.join(SRC, "core_lib/System/System.project")],
                                   cwd=wd, capture_output=True, text=True, timeout=120)
                why = p.stdout[-1500:] + p.stderr[-1500:]
            except subprocess.TimeoutExpired:
                why = "timeout"
            made = os.path.join(wd, "System.apl")
            if not os.path.exists(made) or os.path.getsize(made) == 0:
                raise BuildError("core library did not compile: " + why)
            shutil.copy(made, apl)
            shutil.rmtree(wd)
            open(os.path.join(out, "ok"), "w").close()
        # keep at most 4 binaries
        os.utime(out)
        ds = sorted(glob.glob(os.path.join(BUILD, "bin", "*")), key=os.path.getmtime)
        for d in ds[:-4]:
            shutil.rmtree(d, ignore_errors=True)
    return exe, apl, time.time() - t0


def build_harness(cpp, dirs, name, extra=(), san=True, libs=()):
    """Builds /verif/harness/<cpp> with the objects of `dirs`, sanitised; returns the binary."""
    with Lock():
        mirror()
        fl = ["-O1", "-g", "-fno-omit-frame-pointer"]
        if san:
            fl += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
        fl += list(extra)
        flags = fl + base_flags()
        variant = "san" if san else "plain"
        objs = _dir_objs(dirs, variant, flags)
        main = compile_one(os.path.join(VERIF, "harness", cpp), variant, flags)
        allobjs = [main] + [o for d in dirs for o in objs.get(d, [])]
        key = sha(json.dumps(allobjs).encode())[:16]
        exe = os.path.join(BUILD, "hbin", "%s_%s" % (name, key))
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            for old in glob.glob(os.path.join(BUILD, "hbin", name + "_*")):
                os.unlink(old)
            p = subprocess.run([CXX] + fl + LIBS + ["-o", exe + ".tmp"] + allobjs + list(libs),
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("link failed:\n" + p.stderr[-4000:])
            os.replace(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build_april())
