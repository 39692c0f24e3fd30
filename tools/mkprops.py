#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("S01", "Lite-format file contents behave as a plain byte array",
  "For a file stored in the lite format, any sequence of writes, reads, truncations, extensions and reopenings at any offsets and lengths gives exactly the bytes and the size an in-memory byte array would give: reads return what was last written, gaps and extended areas read as zeros, and reads are cut at the end of file. This holds for every supported block size, IV size and padding setting.",
  ["histories", "inputs", "configurations"], "All operation sequences on one file, all offsets/lengths (block-aligned or not), all block/IV/padding sizes.",
  "The unit tests do random writes on a couple of block sizes; boundaries between blocks, holes, shrink-then-extend and padding settings multiply far beyond that.",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/lite_format.cpp"],
  [("block read-modify-write", "BlockBasedStream in streams.cpp"), ("block seal/open", "AESGCMCryptStream in lite_stream.cpp")])
p("S02", "Full-format file contents behave as a plain byte array",
  "For a file stored in the full format (encrypted data plus a separate authenticated metadata file), any sequence of writes, reads, truncations, extensions, flushes and reopenings gives exactly the bytes and the size an in-memory byte array would give, and the stored mode, owner, link count and times survive unchanged. This holds for every supported block size, IV size, padding and time-storage setting.",
  ["histories", "inputs", "configurations"], "All operation sequences on one stored object, with flush and reopen anywhere, over all size settings.",
  "Tests run one fixed script on one block size; they cannot cover the product of positions, resize orders and flush points.",
  ["sources/streams.cpp", "sources/files.cpp"],
  [("AES-GCM block stream with metadata stream", "streams.cpp"), ("header and flush", "FileBase in files.cpp")])
p("S03", "Tampering with lite-format files never yields unauthentic data",
  "If an attacker changes the stored bytes of lite-format files in any way (bit flips, moving or copying blocks within a file or between files, swapping whole parts, cutting or extending), then with verification on every read either fails or returns at each position only data that the file really held at that position. No altered content is ever returned as if valid, apart from whole-block rollback, cut-off at a block boundary and holes of zeros that the format knowingly does not cover.",
  ["inputs", "histories"], "All file contents and histories, all modifications of the backing bytes.",
  "Unit tests flip a few bytes at most; the claim is over every modification and every block position.",
  ["sources/lite_stream.cpp"], [("per-block GCM tag, block number and per-file header as AAD", "AESGCMCryptStream")])
p("S04", "Tampering with full-format objects is detected",
  "If an attacker changes any stored byte of a full-format object's data or metadata, exchanges blocks, restores an old version of only one of the two, or swaps objects with one another, while the object is not open, then with verification on opening or reading that object fails or returns only the authentic bytes. Restoring both parts together to an old version is outside what the format covers. This covers regular files, directories and symbolic links.",
  ["inputs", "histories"], "All objects and histories, all modifications of data and metadata bytes.",
  "Unit tests have no adversary for whole objects; the claim is over every modification.",
  ["sources/streams.cpp", "sources/files.cpp", "sources/btree_dir.cpp"],
  [("HMAC over the metadata, GCM per block, object id as AAD", "streams.cpp")])
p("S05", "Nothing secret is readable on disk and nonces are never reused",
  "For any use of a mounted repository, no file content, encrypted file name, symbolic link target, extended attribute name or value, or key material appears in clear in the backing store. Each encryption of a block, header or attribute value uses a fresh random nonce, so that writing the same plaintext twice, in the same or another file, never gives the same ciphertext or repeats a nonce under a key.",
  ["histories", "inputs", "configurations"], "All operation histories and contents, both formats, all size settings.",
  "No test inspects the backing bytes across histories.",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/lite_format.cpp", "sources/files.cpp", "sources/params_io.cpp"],
  [("random IV per block write", "lite_stream.cpp, streams.cpp"), ("per-file session keys", "lite_stream.cpp")])
p("S06", "Size padding hides lengths yet never changes logical sizes",
  "With maximum padding P configured, each stored file is enlarged by an amount between 0 and P that differs from file to file, stays the same for a file over its whole life, and is never visible in the sizes and contents reported to users, whether the file is open or only looked up by path. With padding off the stored size is exactly determined by the logical size.",
  ["configurations", "histories", "inputs"], "All padding limits, block sizes and file sizes, both formats.",
  "Tests use padding 0 or 15 with a few sizes and do not compare open and unopened sizes.",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/lite_format.cpp", "sources/files.cpp"],
  [("padding derived from the per-file id", "lite_stream.cpp, PaddedStream in streams.cpp"), ("size translation", "calculate_real_size")])
p("S07", "Lite-format names and link targets encrypt reversibly and opaquely",
  "Every path maps component by component to a stored path that is deterministic for a given key, distinct for distinct names, decodes back to exactly the original name, is a legal and bounded file name for every original up to the reported maximum length, and differs under another key. Names that are not valid encodings are rejected rather than decoded to something, and symbolic link targets of any content come back byte for byte.",
  ["inputs", "configurations"], "All byte strings as names and paths, all keys, thresholds, suffixes and normalisation modes.",
  "Tests use a handful of names.",
  ["sources/lite_format.cpp", "sources/mystring.cpp", "sources/crypto.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("AES-SIV and base32 per component", "name translators in lite_format.cpp"), ("long-name hashing", "lite_format.cpp")])
p("S08", "A lite-format mount behaves as a POSIX directory tree",
  "Any sequence of file system calls on a lite-format mount (create, mkdir, unlink, rmdir, rename, link, symlink, readlink, readdir, getattr, truncate, read, write), with names short or longer than the long-name threshold and with remounts anywhere, gives the same results and error codes as a reference POSIX tree. A call that fails leaves the tree as it was, and every listing shows each existing name exactly once and nothing else.",
  ["histories", "configurations", "inputs"], "All call histories, short/long names, all directories, remounts.",
  "The test runs one fixed script; interactions such as rename over a long-named file or rmdir of a non-empty directory with long names need generated histories.",
  ["sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp", "sources/unix.cpp"],
  [("long-name table updated with each name-changing call", "lite_format.cpp")])
p("S09", "A full-format mount behaves as a POSIX directory tree",
  "Any sequence of file system calls on a full-format mount, with symbolic links resolved by the file system itself and with remounts anywhere, gives the same results and error codes as a reference POSIX tree; with case-insensitive or normalisation-insensitive names configured, names that compare equal denote the same entry and keep the spelling they were created with. A call that fails leaves the tree as it was.",
  ["histories", "configurations", "inputs"], "All call histories in all name-comparison modes, remounts anywhere.",
  "The test runs one fixed script; failing calls, rename over existing targets and link counts need generated histories.",
  ["sources/full_format.cpp", "sources/files.cpp", "sources/btree_dir.cpp", "sources/file_table_v2.cpp"],
  [("path resolution and directory updates", "full_format.cpp")])
p("S10", "An encrypted directory behaves as an ordered name map",
  "For any sequence of insertions, lookups, removals, enumerations, flushes and reopenings on an encrypted directory, of any size and in any order, the directory holds exactly the entries of an ordered map under the configured name comparison, duplicates are refused, and enumeration lists every entry once. The stored index stays structurally sound after each step and space of removed entries is reused.",
  ["histories", "inputs", "configurations"], "All operation sequences and name sets, all comparison functions, flush/reopen points.",
  "The test does random inserts and deletes with one comparison; page splits, merges, borrow and rebuild interleavings with reopen are far more numerous.",
  ["sources/btree_dir.cpp", "sources/btree_dir.h", "sources/files.cpp"],
  [("B-tree split/merge/rebuild", "btree_dir.cpp")])
p("S11", "Name comparison modes are consistent orders and equivalences",
  "Each name-comparison mode (exact, case-insensitive, normalisation-insensitive, both) is a consistent total order on names: reflexive, antisymmetric in sign and transitive, with equality exactly when the names agree after the case folding or normalisation that the mode ignores.",
  ["inputs"], "All pairs and triples of names.",
  "Tests compare a few strings; an inconsistent order loses directory entries only for particular triples.",
  ["sources/mystring.cpp", "sources/btree_dir.cpp"], [("comparison functions", "mystring.cpp")])
p("S12", "A repository config opens only with the right secret, unaltered",
  "Sealing repository parameters under a password and optional key file and opening them with the same secrets returns exactly the same parameters, for every password, key file and cost setting; opening with a different password, a different, missing or extra key file, or after any change of the sealed (encrypted and authenticated) bytes fails and returns nothing. Sealing twice never gives the same bytes.",
  ["inputs", "configurations"], "All parameters, passwords, key files, argon2 settings; all modifications of the sealed config.",
  "Tests decrypt fixed reference configs only with the right secrets.",
  ["sources/params_io.cpp", "protos/params.proto"], [("argon2id key derivation and AES-GCM sealing", "params_io.cpp")])
p("S13", "Create, chpass, info and migrate keep the repository accessible",
  "The command line's create, chpass and migrate-long-name commands always leave a config that opens with exactly the newly given secrets and no longer with the replaced ones, keep the data keys and all settings and every file reachable with its content, and refuse without altering anything when secrets or options are wrong or a repository exists already. An interrupted or failing chpass or migration leaves the old config or the new one, complete, and can be repeated to its end; a failing create leaves none.",
  ["histories", "inputs", "fault_sequences"], "All sequences of commands with all option combinations, secrets and injected failures.",
  "The integration test needs a FUSE mount and samples a few option combinations; failures are never injected.",
  ["sources/commands.cpp", "sources/params_io.cpp", "sources/lite_format.cpp"],
  [("write to temporary file then rename", "commands.cpp")])
p("S14", "The on-disk formats are stable and read as specified",
  "Repositories made by earlier releases (all format versions, config styles and padding settings) open and show exactly their known contents, and everything written now, in either format, can be decoded by an independent reader of the documented format from the keys alone, giving the same tree and contents.",
  ["histories", "inputs", "configurations"], "All generated trees and settings in both formats, all reference repositories.",
  "The regression test needs a FUSE mount and covers only old fixed data, never what is written now.",
  ["sources/lite_stream.cpp", "sources/streams.cpp", "sources/files.cpp", "sources/btree_dir.cpp", "sources/lite_format.cpp", "sources/params_io.cpp", "sources/crypto.cpp", "test/reference"],
  [("format constants, key derivation and layouts", "all stream and file sources")])
p("S15", "Extended attributes behave as an encrypted map per file",
  "On both formats, any sequence of setting, reading, listing and removing extended attributes on files and directories behaves as a map from names to byte strings: a value read back equals the last one set whatever buffer size at least as large is offered, a too small buffer gives a range error and a zero size the length, missing names give the no-attribute error, and create/replace flags are obeyed. An altered stored value is never returned as if valid. Values survive remounts and follow the file when it is renamed.",
  ["histories", "inputs"], "All attribute histories, names and values, buffer sizes, both formats.",
  "Tests set a few attributes and read them back with exact buffers.",
  ["sources/lite_format.cpp", "sources/files.cpp", "sources/xattr_name.cpp", "sources/full_format.cpp"],
  [("name and value encryption", "xattr_name.cpp, XattrCryptor, FileBase xattr functions")])
p("S16", "Failed storage operations are reported and corrupt nothing",
  "When any operation on the backing store fails (no space, I/O error, short write, too many files) in the middle of a call, either that call returns an error, or its effect is kept in memory and reaches the store once the fault is gone; the process keeps running, later calls work once the fault is gone, and all files and directory entries not being modified by the failed call keep their contents.",
  ["fault_sequences", "histories"], "All histories with a failure at every backing-store operation of every call.",
  "No test injects faults.",
  ["sources/full_format.cpp", "sources/lite_format.cpp", "sources/files.cpp", "sources/streams.cpp", "sources/unix.cpp", "sources/file_table_v2.cpp"],
  [("exceptions mapped to error codes, transactions on the long-name table", "lite_format.cpp, fuse_high_level_ops_base.cpp")])
p("S17", "Synced and closed files survive a crash at any point",
  "If the process dies at any point between two operations on the backing store, the repository can be mounted again without further ado, and every file, link, directory and attribute that was closed, flushed or fsynced before and not changed since is there with exactly its contents. When the process dies between two calls, this holds in both formats, whatever other handles are open. When it dies within a call, it holds in the lite format for everything but the objects and names that the call changes, a renamed object is found under its old or its new name, and directory listings show every untouched name, long ones included; in the full format it holds for everything that is not reached through a directory which the call changes (or, with stored times, passes).",
  ["crash_points", "histories"], "All histories and every crash point between backing-store operations.",
  "No test lets the process die.",
  ["sources/full_format.cpp", "sources/files.cpp", "sources/lite_format.cpp", "sources/streams.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("flush on release and fsync", "full_format.cpp, lite_format.cpp"), ("SQLite transactions around renames", "lite_format.cpp")])
p("S18", "Concurrent calls are race-free and linearizable",
  "When several threads use a mount at the same time, on the same or different files and directories, there is no data race, deadlock or crash, each read returns a state produced by complete writes, and the final tree and contents equal those of some sequential order of the calls.",
  ["schedules", "histories"], "All schedules of concurrent calls on shared and separate objects, both formats.",
  "Tests run one extra thread once.",
  ["sources/file_table_v2.cpp", "sources/files.h", "sources/full_format.cpp", "sources/lite_format.cpp", "sources/lite_format.h", "sources/thread_local.cpp", "sources/lock_guard.h"],
  [("per-file locks, sharded table locks, flock, thread-local cryptors", "file_table_v2.cpp, files.h, lite_format.h")])
p("S19", "Open handles stay coherent through rename, unlink and sharing",
  "Several handles open on the same file see one another's writes and truncations at once, a handle stays readable and writable after the file is renamed, unlinked or replaced until it is released, and hard links all show the same content and attributes. Opening with truncation empties the file, opening for reading never modifies it, and after the last release an unlinked file's storage is gone.",
  ["histories"], "All interleavings of several handles and name changes on the same objects, both formats.",
  "Tests hold one or two handles in a fixed order.",
  ["sources/file_table_v2.cpp", "sources/full_format.cpp", "sources/lite_format.cpp"],
  [("reference-counted open objects", "file_table_v2.cpp"), ("shared stream per descriptor with file locks", "lite_format.cpp")])
p("S20", "Full-format storage holds exactly the reachable objects",
  "After any sequence of full-format calls, failing ones included, and unmounting, the backing store contains exactly one data file and one metadata file for each object reachable from the root directory and nothing else besides the configuration and lock files: no orphans after deletion, replacement or failed creation, and no dangling directory entries. Stored link counts equal the number of directory entries.",
  ["histories"], "All call histories including failing calls, remounts and unlinked open files.",
  "No test looks at the backing store.",
  ["sources/file_table_v2.cpp", "sources/full_format.cpp", "sources/files.cpp"],
  [("link counts and removal of unlinked objects on close", "file_table_v2.cpp, full_format.cpp")])
p("S21", "Every call returns a defined result, whatever its arguments",
  "Every entry point offered to the kernel, called with any path, handle mode, size, offset or flag a kernel may pass, in any state of the tree, returns zero, a count, or a negative error number proper to the condition; no exception escapes, nothing crashes, and nothing is written outside the given buffers.",
  ["inputs", "histories"], "All arguments and tree states.",
  "Tests call with valid arguments.",
  ["sources/fuse_high_level_ops_base.cpp", "sources/fuse_tracer_v2.cpp", "sources/lite_format.cpp", "sources/full_format.cpp"],
  [("exception-to-errno wrapper around each call", "fuse_tracer_v2.h, fuse_high_level_ops_base.cpp")])
p("S22", "Arbitrary backing-store bytes cause errors, never crashes",
  "Whatever bytes the backing store and the config file hold (random, truncated, mutated or crafted, including with verification turned off), opening the config, mounting, listing, reading and writing end with a result or an error, without crash, undefined behaviour, endless loop or unbounded memory use.",
  ["inputs"], "All byte strings as config, stored files, metadata, directories, names and attributes.",
  "No test feeds malformed data.",
  ["sources/params_io.cpp", "sources/streams.cpp", "sources/files.cpp", "sources/btree_dir.cpp", "sources/lite_stream.cpp", "sources/lite_format.cpp", "sources/mystring.cpp"],
  [("size and tag checks before use", "all parsers")])
p("S23", "Logs reveal no sensitive data unless allowed",
  "At every log level, for every call and outcome, as long as sensitive logging is not allowed the log contains no file content read or written, no attribute value, no link target, no key material and no file or attribute name that was not itself an argument of the logged call; paths and attribute names given as arguments may appear. With sensitive logging allowed, trace logs show the data read and written. Logging never changes the result of a call.",
  ["histories", "configurations"], "All calls with all arguments, all log levels, successes and failures.",
  "No test looks at the log.",
  ["sources/fuse_high_level_ops_base.cpp", "sources/fuse_tracer_v2.cpp", "sources/logger.cpp"],
  [("redacted tracing", "fuse_tracer_v2, fuse_high_level_ops_base.cpp")])
p("S24", "File attributes are kept and reported faithfully",
  "Type, permission bits, owner, link count, size and (where stored) access and modification times reported for any object equal those last set by create, chmod, chown, utimens, write or link, before and after remounting; uid/gid overrides replace only the reported owner. Attribute changes on one object never affect another.",
  ["histories", "configurations"], "All sequences of attribute changes on all object types, both formats, time storage on and off.",
  "Tests check one mode and one uid.",
  ["sources/files.cpp", "sources/full_format.cpp", "sources/lite_format.cpp", "sources/stat_workaround.h"],
  [("object header", "files.cpp"), ("stat translation", "lite_format.cpp, full_format.cpp")])
p("S25", "Lite name modes keep their documented meaning",
  "With plain-text names the stored names equal the user's names; with case folding, Unicode normalisation or both, all spellings that the mode identifies reach the same file and other spellings do not; and the long-name threshold and suffix only change how names are stored, never which names work. Changing the long-name suffix of a repository keeps every file reachable under its name.",
  ["configurations", "inputs", "histories"], "All names, modes, thresholds, suffixes and trees.",
  "Tests check one spelling pair per mode.",
  ["sources/lite_format.cpp", "sources/internal_mount.cpp", "sources/lite_long_name_lookup_table.cpp"],
  [("name translator selection", "internal_mount.cpp, make_name_translator")])
p("S26", "A full-format repository is never mounted twice at once",
  "While a full-format repository is mounted, a second mount of it, by the same or another process, fails without changing anything, and of several mounts started at the same time at most one succeeds; a repository counts as mounted until the last write of its unmounting. After an unmount, after a mount that failed half-way and after the mounting process has died, it can be mounted again, with everything an unmounted mount wrote.",
  ["histories", "schedules"], "All sequences and interleavings of mounts and unmounts with operations.",
  "No test mounts twice.",
  ["sources/full_format.cpp", "sources/internal_mount.cpp", "sources/file_table_v2.cpp"],
  [("lock file", "RepoLocker in full_format.cpp")])
p("S27", "Cryptographic primitives match their public specifications",
  "The deterministic authenticated encryption equals RFC 5297 AES-SIV for all keys, plaintexts and associated data and rejects any altered input; key derivation (HKDF with SHA-256; without a salt its expand step alone), hashing, base32 and hex encodings equal their public definitions; and decoding inverts encoding for every input while text with characters outside the alphabet is refused.",
  ["inputs"], "All keys, messages, lengths and malformed encodings.",
  "Tests hold a few published vectors.",
  ["sources/crypto.cpp", "sources/mystring.cpp", "sources/myutils.h", "sources/myutils.cpp"],
  [("AES-SIV, HKDF, base32, hex", "crypto.cpp, mystring.cpp, myutils.cpp")])
p("S28", "The idle timer fires once idle, and never while in use",
  "With a maximum idle time configured, the shutdown is triggered after that time has passed without any call and not earlier than that after the latest call, whatever the pattern of calls; every kind of call counts as activity and its result is passed through unchanged; unmounting before that never hangs or triggers it.",
  ["schedules", "histories", "inputs"], "All patterns of activity in time, all calls.",
  "One test with a fixed pattern, not even linked in this build.",
  ["sources/resettable_timer.cpp", "sources/fuse_hook.h", "sources/fuse_hook.cpp", "sources/fuse_high_level_ops_base.cpp"],
  [("resettable deadline thread", "resettable_timer.cpp"), ("hook on each call", "fuse_hook.h")])
p("S29", "Mount options take effect exactly as documented",
  "The mount command passes each option to the file system with its documented meaning: disabled verification, name modes, overrides of owner, attribute support, idle time, sensitive logging, config path, key file and password sources, single- or multi-threaded serving; a wrong secret or missing config fails before anything is served, and the repository's own parameters are never overridden.",
  ["configurations", "inputs"], "All combinations of options and repositories.",
  "The integration tests need a kernel mount and use a few options.",
  ["sources/commands.cpp", "sources/internal_mount.cpp", "sources/fuse2_workaround.cpp", "protos/params.proto"],
  [("option to mount-parameter translation", "commands.cpp, internal_mount.cpp")])
p("S30", "Block layers never lose or disclose bytes across size limits",
  "Operations at extreme offsets and sizes (around every block boundary, around the largest representable position, with zero lengths, shrinking into and out of a block) either fail cleanly leaving the file as it was or act exactly on the requested range; bytes cut off by a truncation never reappear when the file is extended again.",
  ["inputs", "histories", "configurations"], "All offsets and lengths up to the limits, all block sizes, both formats.",
  "Tests stay within small files.",
  ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/full_format.cpp", "sources/lite_format.cpp"],
  [("length checks and partial-block rewriting", "streams.cpp, lite_stream.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
