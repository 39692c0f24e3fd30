"""The checks: property id -> binaries (built from /repo's sources and /verif/harness) and manifest texts."""
import os


def pbt(pid, **kw):
    d = dict(name=pid, src=["harness/%s.cpp" % pid])
    d.update(kw)
    return d


MB = "model-based property testing (generated histories against a reference model, shrinking)"
WRAPDIR = ["-Wl,--wrap=" + f for f in ("readdir64", "rewinddir", "closedir")]
CHECKS = {
    "S01": dict(bins=[pbt("S01")], technique=MB,
        note="Random single- and multi-handle file histories through the fuse_operations table against a byte array; block sizes "
             "32 B to 1 MiB, all IV sizes in the supported range, padding on and off. Sampling, not exhaustive."),
    "S02": dict(bins=[pbt("S02")], technique=MB,
        note="As S01 for the full format, plus attributes kept by flush and reopen, and more files than the object cache holds."),
    "S30": dict(bins=[pbt("S30")], technique=MB,
        note="Offsets and sizes up to 2^63-1 on sparse backing files against a log-replay model; errors allowed only beyond the "
             "format's block limit, and they must leave the file unchanged."),
    "S08": dict(
        bins=[pbt("S08")],
        technique="stateful model-based property testing (random call histories against a POSIX tree model, shrinking)",
        note="Random histories of tree calls through the fuse_operations table on a real backing directory, compared call by "
             "call and by full tree dumps with an in-memory POSIX model, over random block/IV/padding/long-name settings. "
             "Assumes the kernel filters what it always filters (type mismatches, cycles)."),
    "S09": dict(
        bins=[pbt("S09")],
        technique="stateful model-based property testing (random call histories against a POSIX tree model, shrinking)",
        note="As S08 for the full format, over both file-table layouts, time storage and the name-comparison modes "
             "(model keyed by hand-made name equivalence classes)."),
    "S14": dict(bins=[pbt("S14")],
        technique="differential property testing against an independent decoder of the on-disk formats; golden repositories",
        note="Backing stores written by random histories are decoded by an independent implementation of both formats and compared with "
             "the mount and a model; the reference repositories of earlier releases are opened, compared, modified and decoded likewise."),
    "S15": dict(bins=[pbt("S15")], technique=MB,
        note="Random attribute histories on files and directories of both formats against a map, with every buffer-size class, plus "
             "tampering with stored values. Names and values stay below the backing file system's limits."),
    "S27": dict(bins=[pbt("S27")],
        technique="differential property testing against independent implementations of the public definitions",
        note="Random keys, texts and lengths against own implementations (anchored by RFC vectors) on Crypto++'s block primitives."),
    "S11": dict(bins=[pbt("S11")],
        technique="property-based testing of order laws and equivalence classes",
        note="Order laws over generated triples and equality against hand-made spelling classes. The Unicode library itself (uni-algo) is "
             "not installed; ICU stands in for it."),
    "S12": dict(bins=[pbt("S12")],
        technique="property-based testing: round trips, differential reader and generated tampering",
        note="Random parameters, secrets and small cost settings; related wrong secrets and altered configs must be refused, the "
             "right ones must return the parameters, checked against an independent reader and writer."),
    "S10": dict(bins=[pbt("S10")], technique=MB,
        note="One directory driven through growth and shrinkage to about 2500 entries in all four comparison modes against an ordered map; "
             "the stored index is decoded independently and checked page by page at every remount."),
    "S24": dict(bins=[pbt("S24")], technique=MB,
        note="Attributes of every object compared with a model after every change, by path, link and handle, across remounts and owner overrides."),
    "S19": dict(bins=[pbt("S19")], technique=MB,
        note="Up to nine handles on a few hard-linked, renamed, replaced and unlinked files, every handle and name compared after each change; "
             "backing files counted after releases."),
    "S20": dict(bins=[pbt("S20")], technique=MB,
        note="After random histories with failing calls mixed in, the backing store is walked by an independent reader: stored objects, reachable "
             "objects, link counts and the model must agree. Failures of the backing store itself belong to S16."),
    "S03": dict(bins=[pbt("S03")], technique="property-based testing with generated tampering against the recorded history of each stored block",
        note="Generated changes of the stored bytes of lite files; each block returned must be one the file with that header held at that position."),
    "S04": dict(bins=[pbt("S04")], technique="property-based testing with generated tampering against the recorded versions of each object",
        note="Generated changes of the stored bytes of full-format objects while unmounted; every call on them must fail or show the true content."),
    "S05": dict(bins=[pbt("S05")],
        technique="property testing over generated histories with an invariant over the whole history of the backing store (nonce record, secret search)",
        note="After every generated call all sealed units are located in the store by an independent reader and recorded: no nonce twice under a key, "
             "no ciphertext twice, distinct keys; the store is searched for pieces of all names, contents, targets, attributes and keys."),
    "S06": dict(bins=[pbt("S06")], technique=MB,
        note="Black-box: stored size minus the exact unpadded size of the model's length, after every generated call, must lie in [0, P] and stay "
             "the same; spread over 70 to 90 files of a case; sizes by path, by open handle and contents equal the model."),
    "S07": dict(bins=[pbt("S07")],
        technique="property-based testing: differential encoder, round trips, generated malformed encodings; mounts with foreign names",
        note="Paths and link targets of arbitrary bytes against an independent encoder (SIV, BLAKE2b, base32 of lib/decode), decoding and mutation; "
             "listings of mounts whose backing directories also hold names that are no valid encodings."),
    "S21": dict(bins=[pbt("S21")],
        technique="property-based testing: generated raw calls through the fuse_operations table with exact buffers under sanitizers",
        note="Every entry point with generated arguments and states; results must be zero, a proper count or an error number proper to the condition, "
             "an untouched file and the root must stay reachable. AddressSanitizer and UBSan watch buffers and behaviour."),
    "S23": dict(bins=[pbt("S23")],
        technique="property-based testing: secret search in the log after every generated call, differential against the same calls without a log",
        note="All calls at all levels, also failing and on damaged storage; the log is searched for pieces of secrets in clear, hex and base64."),
    "S25": dict(bins=[pbt("S25", link=WRAPDIR)],
        technique="model-based, differential and metamorphic property testing of the name modes (generated histories)",
        note="Call histories in every name mode against a model keyed by hand-made spelling classes, against the backing directory (plain names), against "
             "mounts that differ only in threshold and suffix, and before/after suffix changes. ICU stands in for uni-algo."),
    "S28": dict(bins=[pbt("S28", link=["-Wl,--wrap=_ZN8securefs15clean_exit_fuseEv"])],
        technique="property-based testing of generated activity patterns in real time, with an oracle over recorded call and trigger times",
        note="Timers and real mounts driven with generated patterns of calls and pauses; recorded trigger times are compared with the calls before them. "
             "Wide tolerances on lateness; earliness is judged from measured times and must repeat."),
    "S22": dict(bins=[dict(pbt("S22"), asan="max_allocation_size_mb=512")],
        technique="structure-aware fuzzing by generated damage and crafted objects under sanitizers (property: every call ends with a result or an error)",
        note="Random, truncated, mutated and well-sealed but senseless stores, tables and configs, then all kinds of calls; sanitizers, time and memory limits decide."),
    "S13": dict(bins=[pbt("S13", src=["harness/S13.cpp", "lib/fault.cpp"])],
        technique="model-based property testing of command sequences, with failures and interruptions injected at every disk operation",
        note="Generated sequences of create, chpass, info and migrate with all options; an independent reader opens each config; refused commands must alter no byte; "
             "commands are failed or ended at their disk operations and then repeated."),
    "S29": dict(bins=[pbt("S29")],
        technique="property-based testing of generated mount commands against a model of the documented options (libfuse's kernel side replaced)",
        note="Every option with generated values and orders, foreground and background; arguments for libfuse, threads, shutdown and the behaviour of the "
             "mounted file system are compared with the documentation. The kernel is not involved."),
    "S26": dict(bins=[pbt("S26", src=["harness/S26.cpp", "lib/fault.cpp"])],
        technique="stateful property-based testing of mounting processes with injected faults, deaths and generated interleavings of their file operations",
        note="Histories of three mounting processes against a model of who holds the repository, and two or three processes mounting and unmounting at "
             "once with each operation on the lock file (or the repository) scheduled by the generator."),
    "S16": dict(bins=[pbt("S16", src=["harness/S16.cpp", "lib/fault.cpp", "lib/script.cpp"])],
                technique="property-based testing of generated call histories with injected storage failures, against a model of the states before and after each call",
        note="Generated scripts of calls in which chosen operations on the store fail (once, lastingly, or cut short); results, the affected objects, all others, the "
             "remounted tree and open descriptors are compared with a model. Failures are injected at the libc boundary."),
    "S18": dict(bins=[pbt("S18", variant="tsan", tsan="suppressions=" + os.path.dirname(os.path.abspath(__file__)) + "/shim/tsan.supp", src=["harness/S18.cpp", "lib/fault.cpp", "lib/script.cpp"])],
        technique="property-based testing of generated concurrent histories under generated delays: linearizability search against a model, with ThreadSanitizer",
        note="Generated plans of calls for two to six threads run on one mount with generated delays at operations on the store; results and final trees must be "
             "explained by a sequential order found by search, and ThreadSanitizer (told about abseil's mutexes) reports races. Schedules are sampled, not enumerated."),
    "S17": dict(bins=[pbt("S17", src=["harness/S17.cpp", "lib/fault.cpp", "lib/script.cpp"])],
        technique="property-based testing of generated call histories with the process ending before a generated operation on the store (crash-point exploration against a model)",
        note="Scripts of calls from a model run in a process of their own that dies before a chosen change of the store; the remounted tree is compared with the "
             "model of the calls finished."),
}
