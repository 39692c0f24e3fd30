#!/usr/bin/env python3
"""build.py REPO OUTDIR demo.cpp: compiles REPO's sources and demo.cpp (beside this file's parent) into OUTDIR/demo."""
import concurrent.futures as cf, os, subprocess, sys
K = os.path.dirname(os.path.abspath(__file__))
REPO, B, DEMO = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2]), os.path.abspath(sys.argv[3])
EXTRA = sys.argv[4:]
SRC = REPO + "/sources"
g = B + "/gen"


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(t)


write(g + "/is_fuse_t.h", open(SRC + "/is_fuse_t.h.in").read().replace("@SECUREFS_IS_FUSE_T_VALUE_FOR_HEADER@", "false"))
a = "/usr/include/absl/strings/"
t = open(a + "string_view.h").read()
x = "  constexpr string_view() noexcept : ptr_(nullptr), length_(0) {}\n"
t = t.replace(x, x + "  constexpr string_view(std::basic_string_view<char> v) noexcept : ptr_(v.data()), length_(v.size()) {}\n"
              "  constexpr operator std::basic_string_view<char>() const noexcept { return {ptr_, length_}; }\n")
t = t.replace("#include <string>\n", "#include <string>\n#include <string_view>\n", 1)
write(g + "/absl/strings/string_view.h", t)
t = open(a + "str_cat.h").read()
x = "  AlphaNum(absl::string_view pc) : piece_(pc) {}"
write(g + "/absl/strings/str_cat.h", t.replace(x, "  AlphaNum(std::basic_string_view<char> v) : piece_(v.data(), v.size()) {}\n" + x))
t = open(a + "internal/str_split_internal.h").read()
x = "  ConvertibleToStringView(absl::string_view s)"
write(g + "/absl/strings/internal/str_split_internal.h",
      t.replace(x, "  ConvertibleToStringView(std::basic_string_view<char> s) : value_(s) {}\n" + x))
subprocess.run(["protoc", "-I" + REPO + "/protos", "--cpp_out=" + g, REPO + "/protos/params.proto"], check=True)
FLAGS = ["-std=c++17", "-O0", "-D_FILE_OFFSET_BITS=64", "-DFUSE_USE_VERSION=29", "-I" + g, "-I" + K + "/shim", "-I" + K, "-I" + SRC,
         "-I/usr/include/fuse", "-w", "-pthread", *EXTRA]


def comp(s):
    o = B + "/" + os.path.basename(s) + ".o"
    c = ["clang++", *FLAGS]
    if s.endswith("resettable_timer.cpp"):
        c += ["-include", K + "/shim/absl_condition_compat.h"]
    r = subprocess.run(c + ["-c", s, "-o", o], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-3000:])
        raise SystemExit(3)
    return o


srcs = sorted(SRC + "/" + f for f in os.listdir(SRC) if f.endswith(".cpp") and f != "win.cpp")
srcs += [g + "/params.pb.cc", K + "/shim/git-version.cpp", DEMO]
srcs.sort(key=lambda s: -os.path.getsize(s))
with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
    objs = list(ex.map(comp, srcs))
absl = subprocess.run(["pkg-config", "--libs", "absl_synchronization", "absl_time", "absl_strings", "absl_str_format", "absl_flat_hash_map",
                       "absl_inlined_vector", "absl_failure_signal_handler", "absl_symbolize", "absl_hash"], capture_output=True, text=True).stdout.split()
link = [e for e in EXTRA if e.startswith("-fsanitize")]
r = subprocess.run(["clang++", *link, *objs, "-fuse-ld=lld", *absl, "-lprotobuf", "-lcryptopp", "-largon2", "-lsqlite3", "-licuuc", "-licudata", "-lfuse", "-ldl",
                    "-lpthread", "-o", B + "/demo"], capture_output=True, text=True)
if r.returncode:
    sys.stderr.write(r.stderr[-3000:])
    raise SystemExit(3)
