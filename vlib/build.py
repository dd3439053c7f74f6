"""Out-of-tree instrumented builds of /repo's current working tree."""
import glob, hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")
GUARD = "CTRLPROXY_VERIF"

BASE_INC = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include",
            "-pthread", "-isystem", "/usr/include/mit-krb5", "-I/usr/include/p11-kit-1"]
LIBS = ["-lgcrypt", "-Wl,--export-dynamic", "-lgmodule-2.0", "-pthread", "-lglib-2.0",
        "-L/usr/lib/x86_64-linux-gnu/mit-krb5", "-lgssapi_krb5", "-lgnutls", "-ldl", "-lm"]

VARIANTS = {
    # name: (compiler, flags)
    "asan": ("gcc", ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]),
    "plain": ("gcc", ["-g", "-O1", "-fno-omit-frame-pointer"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash():
    h = hashlib.sha256()
    for pat in ("*.h", "libirc/*.h", "src/*.h", "daemon/*.h", "testsuite/*.h", "libirc/tools/*.h"):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            h.update(p.encode()); h.update(_read(p))
    for p in sorted(glob.glob(os.path.join(HARNESS, "*.h"))):
        h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


def defs():
    return ["-DHAVE_CONFIG_H", "-D%s=1" % GUARD,
            '-DDEFAULT_CONFIG_DIR="%s/etc/ctrlproxy"' % BUILD,
            '-DHELPFILE="%s/help.txt"' % BUILD,
            '-DMODULESDIR="%s/mods"' % BUILD, "-DSTRICT_MEMORY_ALLOCS=",
            '-DSYSCONFDIR="%s/etc"' % BUILD,
            '-DDEFAULT_CONFIG_FILE="%s/etc/ctrlproxyd.conf"' % BUILD,
            '-DSSL_CREDENTIALS_DIR="%s/etc/ssl"' % BUILD,
            '-DPIDFILE="%s/ctrlproxyd.pid"' % BUILD]


def _config_inc():
    """Directory holding config.h: the repository's generated one, else the fallback."""
    if os.path.exists(os.path.join(REPO, "config.h")):
        return []
    return ["-I" + os.path.join(HARNESS, "fallback")]


def _compile(variant, src, hh, extra=()):
    cc, flags = VARIANTS[variant]
    incs = ["-I" + REPO, "-I" + os.path.join(REPO, "libirc"), "-I" + os.path.join(REPO, "src"),
            "-I" + HARNESS] + _config_inc()
    std = [] if src.startswith(HARNESS) else ["-std=gnu89"]
    cmd = [cc] + flags + std + ["-w"] + incs + BASE_INC + defs() + list(extra) + ["-c", src]
    key = hashlib.sha256()
    key.update(" ".join(cmd).encode()); key.update(hh.encode()); key.update(_read(src))
    obj = os.path.join(BUILD, "obj", key.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
        os.rename(tmp, obj)
    return obj


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "libirc", "*.c")))


def src_sources(with_main):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        b = os.path.basename(p)
        if b == "admin-cmd.c" or (b == "main.c" and not with_main):
            continue
        out.append(p)
    return out


def daemon_sources():
    return sorted(glob.glob(os.path.join(REPO, "daemon", "*.c")))


def build(name, sources, variant="asan", libs=()):
    """Compile sources (absolute paths) and link; returns the path of the program."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "mods"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "etc"), exist_ok=True)
    helpsrc = os.path.join(REPO, "doc", "help.txt")
    if not os.path.exists(helpsrc):
        helpsrc = os.path.join(HARNESS, "fallback", "help.txt")
    helpdst = os.path.join(BUILD, "help.txt")
    if not os.path.exists(helpdst) or _read(helpdst) != _read(helpsrc):
        with open(helpdst + ".tmp%d" % os.getpid(), "wb") as f:
            f.write(_read(helpsrc))
        os.rename(helpdst + ".tmp%d" % os.getpid(), helpdst)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = _headers_hash()
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda s: _compile(variant, s, hh), sources))
        cc, flags = VARIANTS[variant]
        cmd = [cc] + flags + objs + LIBS + list(libs)
        key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, key))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (name, p.stderr[-4000:]))
            for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, variant))):
                if ".tmp" not in old:
                    try:
                        os.unlink(old)
                    except OSError:
                        pass
            os.rename(tmp, out)
        _prune()
        return out
    finally:
        lock.close()


def _prune(limit=1500):
    d = os.path.join(BUILD, "obj")
    ents = [os.path.join(d, e) for e in os.listdir(d) if e.endswith(".o")]
    if len(ents) > limit:
        ents.sort(key=lambda p: os.stat(p).st_mtime)
        for p in ents[:len(ents) - limit // 2]:
            try:
                os.unlink(p)
            except OSError:
                pass


def build_proxy(variant="asan"):
    return build("ctrlproxy", lib_sources() + src_sources(True) +
                 [os.path.join(HARNESS, "interpose.c")], variant)


def build_daemon(variant="asan"):
    return build("ctrlproxyd", lib_sources() + src_sources(False) + daemon_sources() +
                 [os.path.join(HARNESS, "interpose.c")], variant)


def build_harness(name, variant="asan", with_src=True, extra=()):
    return build(name, lib_sources() + (src_sources(False) if with_src else []) +
                 [os.path.join(HARNESS, name + ".c")] + list(extra), variant)


if __name__ == "__main__":
    print(build_proxy())
    print(build_daemon())
