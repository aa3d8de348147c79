"""Compiles the generated harness against the current working tree of /repo."""
import hashlib, os, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, "build", "cache")
CXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"
BASE = ["-std=c++20", "-O1", "-g0", "-w", "-include", "cstdint", "-ftrivial-auto-var-init=pattern", "-I" + VERIF + "/lib"]


class CompileError(Exception):
    pass


class ToolError(Exception):
    """the compiler itself was stopped: says nothing about the library"""


_alone = threading.Lock()


def compile_(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    for _ in range(2):
        if not (p.returncode and stopped(p)):
            break
        with _alone:  # out of memory, most likely
            time.sleep(5)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode and stopped(p):
        raise ToolError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p


def stopped(p):
    t = p.stdout
    return p.returncode < 0 or " error: " not in t or any(
        x in t for x in ("internal compiler error", "Killed", "No space left", "virtual memory exhausted", "Cannot allocate memory", "out of memory"))


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Builder:
    def __init__(self, workdir, flags=(), cxx=None):
        self.work = workdir
        self.flags = list(flags)
        self.cxx = cxx or CXX
        self.repo_h = tree_hash([REPO + "/include", REPO + "/src"])
        self.lib_h = tree_hash([VERIF + "/lib"])
        self.jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
        os.makedirs(CACHE, exist_ok=True)

    def obj(self, src, extra=(), uses_repo=True):
        """object file for src; content-addressed"""
        cmd = [self.cxx] + BASE + self.flags + list(extra)
        if uses_repo:
            cmd += ["-I" + REPO + "/include"]
        h = hashlib.sha256()
        h.update(repr(cmd).encode())
        with open(src, "rb") as f:
            h.update(f.read())
        h.update(self.lib_h.encode())
        if uses_repo:
            h.update(self.repo_h.encode())
        out = os.path.join(CACHE, h.hexdigest()[:32] + ".o")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        p = compile_(cmd + ["-c", src, "-o", tmp])
        if p.returncode:
            raise CompileError("%s\n%s" % (" ".join(cmd + [src]), p.stdout))
        os.replace(tmp, out)
        return out

    def build(self, units, exe):
        """units: list of (src, extra flags, uses_repo)"""
        with ThreadPoolExecutor(self.jobs) as ex:
            futs = [ex.submit(self.obj, *u) for u in units]
            errs, objs = [], []
            for f in futs:
                try:
                    objs.append(f.result())
                except CompileError as e:
                    errs.append(str(e))
        if errs:
            raise CompileError("\n\n".join(errs))
        cmd = [self.cxx] + self.flags + objs + ["-o", exe, "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            err = CompileError if "undefined reference" in p.stdout else ToolError
            raise err("%s\n%s" % (" ".join(cmd), p.stdout))
        return exe


def trim_cache(limit=3 << 30):
    try:
        fs = [(os.path.getmtime(os.path.join(CACHE, f)), os.path.getsize(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, sz, p in sorted(fs):
        if tot < limit:
            break
        os.unlink(p)
        tot -= sz
