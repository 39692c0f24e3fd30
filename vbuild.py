#!/usr/bin/env python3
"""Content-hashed incremental build of /repo's sources plus the harnesses in /verif/harness.

Objects live in /verif/build/<variant>/ (git-ignored). An object is reused only when the SHA-256 of
every file it was made from (source and every non-system header, from the compiler's depfile) and of
the command line is unchanged, so mtimes do not matter and a change in /repo is always seen.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, subprocess, sys, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SRC = REPO + "/sources"

COMMON = ["-std=c++17", "-D_FILE_OFFSET_BITS=64", "-DFUSE_USE_VERSION=29", "-I" + B + "/gen", "-I" + V + "/shim",
          "-I" + SRC, "-I/usr/include/fuse", "-w", "-pthread"]
VARIANTS = {
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=vptr,function", "-D_GLIBCXX_ASSERTIONS"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread"]),
    "plain": dict(cxx="clang++", flags=["-O1", "-g1"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=vptr,function"]),
}
LIBS = ["-lprotobuf", "-lcryptopp", "-largon2", "-lsqlite3", "-licuuc", "-licudata", "-lfuse", "-ldl", "-lpthread"]
_h = {}
_hl = threading.Lock()


def sha(path):
    with _hl:
        if path in _h:
            return _h[path]
    try:
        with open(path, "rb") as f:
            d = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        d = None
    with _hl:
        _h[path] = d
    return d


def write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp%d" % os.getpid(), "w") as f:
        f.write(text)
    os.replace(path + ".tmp%d" % os.getpid(), path)


class BuildError(Exception):
    pass


def gen():
    g = B + "/gen"
    os.makedirs(g, exist_ok=True)
    t = open(SRC + "/is_fuse_t.h.in").read().replace("@SECUREFS_IS_FUSE_T_VALUE_FOR_HEADER@", "false")
    write(g + "/is_fuse_t.h", t)
    # apt's abseil has its own string_view class: give it implicit conversions from and to
    # std::string_view (inline members only, so the compiled library is unaffected).
    a = "/usr/include/absl/strings/"
    t = open(a + "string_view.h").read()
    x = "  constexpr string_view() noexcept : ptr_(nullptr), length_(0) {}\n"
    assert t.count(x) == 1
    t = t.replace(x, x + "  constexpr string_view(std::basic_string_view<char> v) noexcept : ptr_(v.data()), length_(v.size()) {}\n"
                  "  constexpr operator std::basic_string_view<char>() const noexcept { return {ptr_, length_}; }\n")
    t = t.replace("#include <string>\n", "#include <string>\n#include <string_view>\n", 1)
    write(g + "/absl/strings/string_view.h", t)
    t = open(a + "str_cat.h").read()
    x = "  AlphaNum(absl::string_view pc) : piece_(pc) {}"
    assert t.count(x) == 1
    t = t.replace(x, "  AlphaNum(std::basic_string_view<char> v) : piece_(v.data(), v.size()) {}\n" + x)
    write(g + "/absl/strings/str_cat.h", t)
    t = open(a + "internal/str_split_internal.h").read()
    x = "  ConvertibleToStringView(absl::string_view s)"
    assert t.count(x) == 1
    t = t.replace(x, "  ConvertibleToStringView(std::basic_string_view<char> s) : value_(s) {}\n" + x)
    write(g + "/absl/strings/internal/str_split_internal.h", t)
    key = sha(REPO + "/protos/params.proto")
    try:
        old = open(g + "/proto.key").read()
    except OSError:
        old = ""
    if old != key:
        r = subprocess.run(["protoc", "-I" + REPO + "/protos", "--cpp_out=" + g,
                            REPO + "/protos/params.proto"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        write(g + "/proto.key", key)
    return g


def compile_one(variant, src, extra=()):
    v = VARIANTS[variant]
    g = B + "/gen"
    name = src.replace(REPO, "R").replace(V, "V").replace(B, "B").replace("/", "_")
    obj = f"{B}/{variant}/{name}.o"
    cmd = [v["cxx"], *v["flags"], *COMMON, "-I" + V + "/lib", *extra]
    if src.endswith("resettable_timer.cpp"):
        cmd += ["-include", V + "/shim/absl_condition_compat.h"]
    if variant == "tsan" and not src.endswith("/lib/fault.cpp"):
        cmd += ["-include", V + "/shim/tsan_mutex.h"]
    cmd += ["-c", src, "-o", obj]
    ck = hashlib.sha256("\0".join(cmd).encode()).hexdigest()
    try:
        m = json.load(open(obj + ".json"))
        if m["cmd"] == ck and os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return obj, m["key"]
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(obj + ".json"):
        os.remove(obj + ".json")
    r = subprocess.run(cmd + ["-MMD", "-MF", obj + ".d"], capture_output=True, text=True, cwd=V)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])
    d = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(obj + ".d")
    deps = {p: sha(p) for p in d}
    key = hashlib.sha256((ck + json.dumps(deps, sort_keys=True)).encode()).hexdigest()
    with open(obj + ".json", "w") as f:
        json.dump({"cmd": ck, "deps": deps, "key": key}, f)
    return obj, key


def repo_sources():
    return sorted(SRC + "/" + f for f in os.listdir(SRC)
                  if f.endswith(".cpp") and f != "win.cpp")


def build(*a, **k):
    """As build_unlocked. Two builds in one directory at once would mix up the objects of their trees."""
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_unlocked(*a, **k)


def build_unlocked(variant, out, harness, extra=(), link=(), with_main=False):
    """Compile repo sources + harness sources for the variant, link to build/<variant>/bin/<out>."""
    g = gen()
    srcs = repo_sources() + [g + "/params.pb.cc", V + "/shim/git-version.cpp"]
    if with_main:
        srcs.append(REPO + "/main.cpp")
    jobs = [(variant, s, ()) for s in srcs] + [(variant, s, tuple(extra)) for s in harness]
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        res = list(ex.map(lambda a: compile_one(*a), jobs))
    v = VARIANTS[variant]
    exe = f"{B}/{variant}/bin/{out}"
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    ARGS = [v["cxx"], *[f for f in v["flags"] if "no-link" not in f or True], *link,
            *[o for o, _ in res], "-fuse-ld=lld", *absl_libs(), *LIBS, "-o", exe]
    key = hashlib.sha256(("\0".join(ARGS) + "".join(k for _, k in res)).encode()).hexdigest()
    try:
        if open(exe + ".key").read() == key and os.path.exists(exe):
            return exe
    except OSError:
        pass
    if os.path.exists(exe + ".key"):
        os.remove(exe + ".key")
    r = subprocess.run(ARGS, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    with open(exe + ".key", "w") as f:
        f.write(key)
    return exe


_absl = None


def absl_libs():
    global _absl
    if _absl is None:
        r = subprocess.run(["pkg-config", "--libs", "absl_synchronization", "absl_time", "absl_strings",
                            "absl_str_format", "absl_flat_hash_map", "absl_inlined_vector",
                            "absl_failure_signal_handler", "absl_symbolize", "absl_hash"],
                           capture_output=True, text=True)
        _absl = r.stdout.split()
    return _absl


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], [os.path.abspath(x) for x in sys.argv[3:]]), round(time.time() - t, 1))
