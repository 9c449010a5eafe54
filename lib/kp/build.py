"""Builds the conformance driver from /repo's current working tree (content addressed)."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("KP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

FLAVOURS = {
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address",
             "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread"],
}
BASE = ["-std=c++14", "-include", "limits", "-w"]


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def build(flavour="plain"):
    """Returns the path of an up-to-date driver executable."""
    flags = BASE + FLAVOURS[flavour]
    src = os.path.join(REPO, "src")
    hdrs = sorted(glob.glob(src + "/*.hh") + glob.glob(src + "/*.h") + glob.glob(src + "/*.hpp"))
    hh = _h(*[os.path.basename(p).encode() + b"\0" + _read(p) for p in hdrs], " ".join(flags))
    pugi_h = _h(*[_read(p) for p in hdrs if os.path.basename(p).startswith("pugi")], " ".join(flags))
    srcs = sorted(glob.glob(src + "/*.cc") + glob.glob(src + "/*.cpp"))
    srcs.append(os.path.join(VERIF, "harness", "driver.cc"))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        key = _h(os.path.basename(s), _read(s),
                 pugi_h if os.path.basename(s).startswith("pugi") else hh)
        o = os.path.join(odir, os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    exe = os.path.join(BUILD, "driver-%s-%s" % (flavour, _h(*objs)))
    if os.path.exists(exe):
        return exe

    def comp(job):
        s, o = job
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-I" + src, "-c", s, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            os.replace(tmp, o)
        return s, r

    with ThreadPoolExecutor(8) as ex:
        for s, r in ex.map(comp, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))):
            if r.returncode != 0:
                raise BuildError("compilation of %s failed:\n%s" % (s, r.stdout.decode("replace")[-3000:]))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-o", tmp] + objs + ["-lcrypto", "-lz", "-ldl", "-pthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("link failed:\n" + r.stdout.decode("replace")[-3000:])
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(build(fl))
