"""Frontend: builds the exporter, exports one driver TU against /repo's current sources, loads it."""
import hashlib, json, os, re, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "export")


class AnalysisBroken(Exception):
    """the machinery could not analyse what it must (not a verdict about the property)"""


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "export.cpp")
    stamp = os.path.join(BUILD, "export.stamp")
    want = _hash(_read(src))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and _read(stamp).decode() == want:
            return
        cfg = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
        cfg = [c for c in cfg if not c.startswith("-std=")]
        ld = subprocess.run(["llvm-config-18", "--ldflags"], capture_output=True, text=True, check=True).stdout.split()
        tmp = TOOL + ".tmp"
        cmd = (["clang++-18", "-std=c++17", "-O1"] + cfg + ["-fno-rtti", "-w", src, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1"] + ld + ["-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build exporter: " + r.stderr[-2000:])
        os.replace(tmp, TOOL)
        with open(stamp, "w") as f:
            f.write(want)


_resdir = []


def resource_dir():
    if not _resdir:
        _resdir.append(subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True, check=True).stdout.strip())
    return _resdir[0]


def export(driver, flags=(), std="c++20", roots=None):
    """export a driver (path below /verif/drivers, or absolute) -> dict"""
    build_tool()
    if not os.path.isabs(driver):
        driver = os.path.join(VERIF, "drivers", driver)
    src = os.path.join(REPO, "src")
    roots = roots or [src]
    content = b"".join(_read(os.path.join(src, f)) + f.encode() for f in sorted(os.listdir(src)) if f.endswith(".h"))
    for r in roots:
        if os.path.isfile(r):
            content += _read(r)
    key = _hash(content, _read(driver), _read(TOOL), std, " ".join(flags), REPO, driver)
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + ".json")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        cmd = [TOOL, tmp, ":".join(roots), driver, "-std=" + std, "-I" + src, "-I" + os.path.join(VERIF, "drivers"),
               "-resource-dir", resource_dir(), "-w", "-ferror-limit=0"] + list(flags)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise AnalysisBroken(f"exporter failed on {driver}: {r.stderr[-1500:]}")
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f)


class Program:
    """resolved program of one TU"""

    def __init__(self, data):
        self.types = data["types"]
        self.funcs = {int(k): v for k, v in data["funcs"].items()}
        self.records = {int(k): v for k, v in data["records"].items()}
        self.globals = {int(k): v for k, v in data["globals"].items()}
        self.errors = data["errors"]
        self.files = data["files"]
        for k, v in self.funcs.items():
            v["id"] = k
        for k, v in self.records.items():
            v["id"] = k
        for k, v in self.globals.items():
            v["id"] = k
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(norm(f["q"]), []).append(f)
        self.g_by_q = {}
        for g in self.globals.values():
            self.g_by_q.setdefault(norm(g["q"]), []).append(g)
        self.r_by_q = {}
        for r in self.records.values():
            self.r_by_q.setdefault(norm(r["q"]), []).append(r)

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {"k": "other", "s": "?"}

    def ts(self, i):
        return self.ty(i).get("s", "?")

    def strip_ref(self, i):
        t = self.ty(i)
        while t["k"] in ("ref", "rref"):
            i = t["p"]
            t = self.ty(i)
        return i

    def psig(self, f):
        """parameter types as strings, typedef-free, without const& noise"""
        return tuple(simp(self.ts(self.strip_ref(p["t"]))) for p in f["ps"])

    def find(self, q, sig=None, nparams=None, body=True, all=False, pred=None):
        r = []
        for f in self.by_q.get(q, []):
            if f.get("dep"):
                continue
            if body and "body" not in f:
                continue
            if sig is not None and self.psig(f) != tuple(sig):
                continue
            if nparams is not None and len(f["ps"]) != nparams:
                continue
            if pred is not None and not pred(f):
                continue
            r.append(f)
        if all:
            return r
        if len(r) != 1:
            raise AnalysisBroken(f"anchor {q}{'' if sig is None else sig}: {len(r)} definitions found")
        return r[0]

    def glob(self, q):
        r = self.g_by_q.get(q, [])
        if len(r) != 1:
            raise AnalysisBroken(f"anchor global {q}: {len(r)} found")
        return r[0]

    def rec(self, q, all=False):
        r = [x for x in self.r_by_q.get(q, [])]
        if all:
            return r
        if len(r) != 1:
            raise AnalysisBroken(f"anchor record {q}: {len(r)} found")
        return r[0]


def norm(q):
    return q.replace("std::__cxx11::", "std::").replace("::__cxx11::", "::").replace("std::__detail::", "std::").replace("std::_V2::", "std::").replace("(anonymous namespace)::", "")


_strip = {}


def stripta(q):
    """qualified name without template arguments"""
    r = _strip.get(q)
    if r is None:
        if "operator" in q:
            i = q.index("operator")
            # keep operator<, operator<<, operator-> intact
            head, tail = q[:i], q[i:]
        else:
            head, tail = q, ""
        out, d = [], 0
        for ch in head:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out.append(ch)
        if tail and not re.match(r"operator[^A-Za-z_ ]", tail):
            t2, d = [], 0
            for ch in tail:
                if ch == "<":
                    d += 1
                elif ch == ">":
                    d -= 1
                elif d == 0:
                    t2.append(ch)
            tail = "".join(t2)
        r = "".join(out) + tail
        _strip[q] = r
    return r


_SIMP = [("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string"), ("std::basic_string<char>", "std::string"),
         ("std::basic_string_view<char, std::char_traits<char>>", "std::string_view"), ("std::basic_string_view<char>", "std::string_view"),
         ("std::__cxx11::", "std::"), ("std::basic_regex<char, std::regex_traits<char>>", "std::regex"), ("std::basic_regex<char>", "std::regex")]


def simp(s):
    if s.startswith("const "):
        s = s[6:]
    for a, b in _SIMP:
        s = s.replace(a, b)
    return s


def load(driver, flags=(), std="c++20", roots=None):
    p = Program(export(driver, flags, std, roots))
    if p.errors:
        raise AnalysisBroken("the driver %s does not compile against the current sources: %s" % (driver, p.errors[:2]))
    return p


def where(f, ln=None):
    p = f.get("file", "?")
    if p.startswith(REPO + "/"):
        p = p[len(REPO) + 1:]
    return f"{p}:{ln if ln else f.get('line')} ({f.get('q')})"
