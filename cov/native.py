"""Native drivers: compile /repo's current sources together with a driver."""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COV_REPO", "/repo")
CACHE = os.environ.get("COV_CACHE", os.path.join(VERIF, ".cache"))
FLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers_hash():
    h = hashlib.sha256()
    for d in ("src", "gcl", "meadowlark"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.h"))):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(src, flags, hh):
    key = sha(open(src, "rb").read(), src if not src.startswith(REPO) else src[len(REPO):], " ".join(flags), hh)
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        return obj, None
    os.makedirs(CACHE, exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-I" + REPO, "-I" + VERIF, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, src + ":\n" + r.stdout.decode(errors="replace")[-2000:]
    os.rename(tmp, obj)
    return obj, None


def build(driver, tus=None, extra=(), jobs=8):
    """-> (binary, error). tus None: the whole library"""
    hh = headers_hash()
    flags = FLAGS + list(extra)
    if tus is None:
        srcs = sorted(f for d in ("src", "gcl", "meadowlark") for f in glob.glob(os.path.join(REPO, d, "*.cc")))
    else:
        srcs = [os.path.join(REPO, t) for t in tus]
    drv = os.path.join(VERIF, "drivers", driver)
    hh2 = hh + sha(*[open(x, "rb").read() for x in sorted(glob.glob(os.path.join(VERIF, "drivers", "*.h")))])
    with ThreadPoolExecutor(jobs) as p:
        fs = [p.submit(compile_one, drv, flags, hh2)] + [p.submit(compile_one, s, [f for f in flags if not f.startswith("-DPART=")], hh) for s in srcs]
        rs = [f.result() for f in fs]
    errs = [e for _, e in rs if e]
    if errs:
        return None, errs[0]
    objs = [o for o, _ in rs]
    key = sha(*objs)
    out = os.path.join(CACHE, key + ".bin")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + [x for x in extra if x.startswith("-fsan")] + ["-o", tmp] + objs + ["-lz", "-lpthread"] +
                           (["-Wl,--unresolved-symbols=ignore-all"] if tus is not None else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, "link: " + r.stdout.decode(errors="replace")[-2000:]
        os.rename(tmp, out)
    return out, None
