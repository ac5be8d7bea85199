"""The properties: one entry per line of properties.jsonl; entries with na= are not claimed."""
PROPS = []
NOTES = ("All checks are static: they parse /repo's current sources with clang and decide by dataflow, "
         "typestate, effect and type rules over the resolved program. Level 'other' = static analysis. "
         "A check that finds its anchors gone or nothing to analyse exits 2, never 0.")
TRUST = ("Decided on the source by abstract interpretation; trusts clang's AST, the stand-in headers for the two "
         "libraries missing here, and the documented behaviour of external libraries. Loops are covered by "
         "generic iterations, so facts that need an unbounded number of distinct iterations are not derived.")


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note="", state=(), observe=(), na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why,
             anchors=dict(files=["sources/" + f if "/" not in f else f for f in files],
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    if na:
        d["na"] = na
    else:
        d["technique"] = technique
        d["note"] = (note + " " if note else "") + TRUST
    PROPS.append(d)


P("C01", "Every encryption uses a fresh random initialisation vector",
  "Whenever content blocks, file headers, extended attributes or the configuration are encrypted, the whole "
  "initialisation vector is newly drawn from the cryptographic random generator for that one encryption and used "
  "unmodified. No two encryptions share a vector, and a content block's vector is never all zeros, since that marks a hole.",
  ["inputs", "histories"], "every write of any block, header, attribute or configuration, in every order",
  "IV reuse leaves every round trip intact, so no test that reads back what it wrote can see it.",
  ["streams.cpp", "lite_stream.cpp", "files.cpp", "lite_format.cpp", "params_io.cpp", "crypto.cpp"],
  [("generate_random before EncryptAndAuthenticate", "sources/streams.cpp, sources/lite_stream.cpp, sources/files.cpp, sources/lite_format.cpp, sources/params_io.cpp"),
   ("do/while until the vector is not all zero", "sources/streams.cpp, sources/lite_stream.cpp")],
  "path-sensitive dataflow: IV argument covered by the CSPRNG output since the previous encryption")

P("C02", "Decrypted data is released only after its authentication succeeded",
  "When integrity checking is on, no read of file contents, extended attributes or the configuration returns normally "
  "with data whose authentication tag did not verify. The full 16-byte tag is always required, and only a block that is "
  "entirely zero on storage (data, vector and tag) may be delivered as zeros without verification.",
  ["inputs", "histories"], "every stored byte sequence an attacker or a failing disk may present, every read",
  "Tests feed intact data and a few corruptions; the property is about every possible corruption at every reader.",
  ["streams.cpp", "lite_stream.cpp", "files.cpp", "lite_format.cpp", "params_io.cpp"],
  [("DecryptAndVerify result checked", "every AEAD decryption site"),
   ("all-zero block passthrough", "read_multi_blocks of both block streams")],
  "typestate over all paths of every AEAD decryption site; region coverage for hole passthrough",
  note="One site (unauthenticated read of the encrypted file header) is accepted because what it consumes was "
       "read through the MAC-verified stream.")

P("C03", "File names whose authentication fails are never decrypted or used",
  "An encrypted name, symbolic-link component, long-name-table entry or attribute name is turned into plaintext only when "
  "its full 16-byte synthetic tag verifies against the whole recovered plaintext and its associated data. Stored names "
  "shorter than the tag are rejected before use. On failure nothing of the decrypted text is returned or acted upon.",
  ["inputs"], "every stored name, link target or attribute name, genuine or forged, of any length",
  "Tests decrypt names they encrypted; the property is about every name an attacker can put on the storage.",
  ["crypto.cpp", "lite_format.cpp", "xattr_name.cpp"],
  [("AES_SIV::decrypt_and_verify result decides", "sources/lite_format.cpp name translators"),
   ("size check before stripping the tag", "sources/lite_format.cpp, sources/xattr_name.cpp"),
   ("AES_SIV primitive", "sources/crypto.cpp")],
  "typestate over all paths of each SIV decryption; length lower bounds; dataflow inside the primitive")

P("C05", "Stored blocks and headers are bound to their file and position",
  "Each content block is authenticated together with its block number (with the file's identity as well where blocks of "
  "different files share keys), and each block's vector and tag are kept at a place of its own, so a block moved, swapped "
  "or copied to another position or file does not verify. File headers and attributes are bound to the identity of their "
  "file, attributes also to their name. Reader and writer use the same position.",
  ["inputs", "histories"], "every block of every file, every rearrangement of stored blocks",
  "A wrong binding still round-trips; only a rearrangement of stored data shows it, and there are unboundedly many.",
  ["streams.cpp", "lite_stream.cpp", "files.cpp"],
  [("block number as associated data", "sources/lite_stream.cpp"),
   ("file id as associated data, per-block vector and tag", "sources/streams.cpp"),
   ("header and attribute associated data", "sources/files.cpp")],
  "dataflow of associated data and storage offsets through the block loops; reader/writer agreement")

P("C06", "Block numbers never wrap: requests past the format's limit are refused",
  "No read or write of file contents encrypts, decrypts or touches storage for a block whose number is beyond the largest "
  "the format can represent. Such requests fail instead of reusing an earlier block's number, vector slot or storage place.",
  ["inputs"], "every offset and length a caller may pass",
  "The limit is at terabytes; no test writes there, and a wrapped number only shows as silent corruption.",
  ["streams.cpp", "lite_stream.cpp"],
  [("block-number limit check", "sources/lite_stream.cpp"), ("max_block_number check", "sources/streams.cpp")],
  "interval analysis: every cipher and storage access dominated by the bound")

P("C07", "Per-file metadata is covered by a MAC that is checked on open and kept current",
  "When integrity checking is on, opening the authenticated metadata stream fails unless a keyed MAC over the file's identity "
  "and the stream's entire content equals the 32 stored bytes. After any successful or failed modification the MAC is "
  "recomputed over everything and stored before the stream is flushed or destroyed.",
  ["inputs", "histories", "fault_sequences"], "every stored content, every sequence of reads, writes, resizes, flushes, and failures in between",
  "Tests check a few tampered streams; which bytes the MAC covers and when it goes stale depend on all contents and histories.",
  ["streams.cpp"],
  [("HMAC stream", "sources/streams.cpp"), ("dirty mark", "sources/streams.cpp")],
  "path-sensitive dataflow over construction, write, resize, flush and destruction of the MAC stream")

P("C08", "Every cipher has its own key, derived from the whole master key and file id",
  "Content, metadata, attribute, name and padding ciphers are keyed from different configuration keys, or from disjoint "
  "32-byte ranges derived from the whole master key and the whole file identity. A file's session key depends on all 16 bytes "
  "of its random id, which is stored at the start of the file.",
  ["configurations", "inputs"], "every key, file id and cipher in both formats",
  "Sharing or truncating keys leaves every round trip intact.",
  ["files.cpp", "lite_stream.cpp", "lite_format.cpp", "internal_mount.cpp"],
  [("hkdf subkeys", "sources/files.cpp"), ("session key from id", "sources/lite_stream.cpp, sources/lite_format.cpp"),
   ("keys per role", "sources/internal_mount.cpp, sources/lite_format.cpp")],
  "range-disjointness dataflow on derived bytes; whole-program origin analysis of key material")

P("C09", "All keys, salts, ids and vectors come whole from the secure random generator",
  "Everything that must be unpredictable is filled, over its whole length, from an operating-system-seeded cryptographic "
  "generator; no weak generator is used anywhere. Creating a repository draws every master key (32 bytes each) separately "
  "and never stores a configuration without them.",
  ["inputs", "configurations"], "every generated key, id, salt and temporary name",
  "Partially filled or predictable buffers pass every functional test.",
  ["crypto.cpp", "commands.cpp", "params_io.cpp", "files.cpp", "lite_stream.cpp", "file_table_v2.cpp"],
  [("generate_random", "sources/crypto.cpp"), ("randomize", "sources/commands.cpp, sources/params_io.cpp")],
  "coverage dataflow of every random-fill site; whole-program scan for weak generators")

P("C10", "The configuration's key depends on the whole password, salt and key file",
  "The key that wraps a configuration is derived by the configured costs from the whole password and the configuration's whole "
  "salt, and from the entire key file whenever one is given; all 32 derived bytes key the cipher. A failed derivation never "
  "yields a usable key.",
  ["inputs", "fault_sequences"], "every password, salt, key file of any length, and derivation failure",
  "A key that ignores part of its input still opens what it closed, so round-trip tests pass.",
  ["params_io.cpp"],
  [("compute_password_derived_key", "sources/params_io.cpp"), ("hmac_sha256 over the key file", "sources/params_io.cpp"),
   ("legacy derivations", "sources/params_io.cpp")],
  "path-sensitive dataflow of derivation inputs and outputs; loop induction on the key-file reader")

P("C12", "The configuration is replaced atomically and never overwritten in place",
  "Changing the password or upgrading writes the complete new configuration to a newly created file, flushes it to disk and "
  "only then renames it over the old one. Creating a repository never opens an existing configuration for writing. "
  "Only files the command itself created are removed when it fails.",
  ["crash_points", "fault_sequences"], "every crash or failure point of create, password change and migration",
  "The outcome after a crash between write and rename cannot be reached by a unit test.",
  ["commands.cpp"],
  [("create", "sources/commands.cpp"), ("password change", "sources/commands.cpp"), ("long-name migration", "sources/commands.cpp")],
  "typestate (open-exclusive, write, fsync, rename) over all paths of each command that stores a configuration")

P("E01", "No exception ever crosses the FUSE callback boundary",
  "Whatever a file system operation throws, the callback registered with FUSE for it catches it and returns an error "
  "number; no exception reaches the C library code that called the callback. Every type the program throws is a "
  "std::exception, so the handlers cover all of them.",
  ["inputs", "histories"], "every callback in fuse_operations, every failure in any code it can reach",
  "An exception through C frames kills the mounted file system for all its users; tests call the classes directly, not the callbacks.",
  ["fuse_high_level_ops_base.cpp", "fuse_tracer_v2.h", "exceptions.h"],
  [("FuseTracer::traced_call try/catch", "sources/fuse_tracer_v2.h"), ("FuseHighLevelOpsBase::build_ops", "sources/fuse_high_level_ops_base.cpp")],
  "exception-escape effect analysis: interprocedural fixpoint over the call graph with try/catch structure")

P("E02", "Failed operations report negative error numbers taken from the failure",
  "When an operation throws, its FUSE callback returns exactly the negated error number of that exception (or a negative "
  "constant for exceptions without one); when it returns, the callback passes the value on. The numbers exceptions carry "
  "are positive, and no operation returns a positive constant or un-negated errno as an error.",
  ["inputs", "histories"], "every callback and operation, every exception it can end with, every throw of a numbered exception",
  "A wrong sign turns a failed read or write into a success of that many bytes; only an injected failure of each call would show it.",
  ["fuse_high_level_ops_base.cpp", "fuse_tracer_v2.h", "exceptions.h", "exceptions.cpp", "lite_format.cpp", "full_format.cpp"],
  [("traced_call: -e.error_number()", "sources/fuse_tracer_v2.h"), ("throwVFSException, THROW_POSIX_EXCEPTION", "sources/exceptions.h")],
  "path-sensitive value analysis of the sign of error numbers in callbacks, throw sites and operation results")

P("E03", "A failed or partial system call is never reported as success",
  "Every function that makes a file system call either throws or returns a failure when that call fails; it ignores a "
  "failure only after testing errno for one specific accepted number. A write that transferred fewer bytes than requested "
  "is never treated as complete.",
  ["faults", "inputs"], "every file system call site in the sources, every failure or short count it may produce",
  "Ignoring a failed write, fsync or rename loses data only when the disk misbehaves, which tests never arrange.",
  ["unix.cpp", "platform.h", "fuse2_workaround.cpp", "commands.cpp"],
  [("UnixFileStream, OSService system calls", "sources/unix.cpp")],
  "path-sensitive result-check analysis of every system call site",
  note="Destructors and noexcept functions returning nothing cannot report and are only listed.")

P("E05", "Storage failures never terminate the process by throwing where it is forbidden",
  "No exception that reports a storage failure, failed verification or corrupt data can leave a destructor, a function "
  "declared noexcept, or a thread's entry function, where it would end the process and lose the data not yet written. "
  "Programmer-error exceptions (InvalidArgumentException) are excluded.",
  ["faults", "histories"], "every destructor, noexcept function and thread body, every exception reachable from it",
  "std::terminate from a destructor needs a storage failure at just that moment, on a path no test drives.",
  ["file_table_v2.cpp", "file_table_v2.h", "files.h", "streams.cpp", "lite_format.cpp", "fuse2_workaround.cpp"],
  [("FileTable::~FileTable", "sources/file_table_v2.cpp"), ("WriteCachedStream::~WriteCachedStream", "sources/streams.cpp"),
   ("LookupTable::finish, thread bodies", "sources/lite_long_name_lookup_table.h, sources/fuse2_workaround.cpp")],
  "exception-escape effect analysis restricted to functions that must not throw")

P("E06", "The error number reported is the one the failing call left in errno",
  "When a failing system call is reported with errno, errno is the value left by that failing call: no other call that may "
  "change errno runs between the failure and the read, and errno is never read after a call that succeeded. Otherwise "
  "the number is a constant or the call's own return code.",
  ["faults"], "every throw of a numbered exception and negated errno after a file system call, on every path",
  "A clobbered errno changes only the number seen after a failure, possibly to zero, which reads as success.",
  ["unix.cpp", "exceptions.h", "fuse2_workaround.cpp"],
  [("THROW_POSIX_EXCEPTION(errno, ...)", "sources/unix.cpp, sources/exceptions.h")],
  "dataflow with errno as a tagged value overwritten by intervening calls")

P("F01", "Every FUSE operation reaches its own implementation with its own arguments",
  "Each entry of the fuse_operations table is registered exactly when the file system says it supports that operation. Its "
  "callback calls the file system's operation of the same name, on the mounted object, exactly once, with the arguments "
  "FUSE gave it, unchanged and in order.",
  ["inputs"], "every operation of the table, every combination of supported operations, every argument",
  "Most callbacks are never driven by a test; two swapped arguments of the same type compile and look plausible.",
  ["fuse_high_level_ops_base.cpp", "fuse_high_level_ops_base.h", "fuse_tracer_v2.h"],
  [("FuseHighLevelOpsBase::build_ops", "sources/fuse_high_level_ops_base.cpp"), ("static_* callbacks", "sources/fuse_high_level_ops_base.cpp")],
  "symbolic evaluation of the table and of every callback; argument identity check")

P("F02", "Wrapper file systems forward every operation and its result unchanged",
  "A file system object that wraps another one (delegate, activity hook, special ioctl, special file, logging) overrides "
  "every operation and every support query, and forwards it to the operation of the same name of the wrapped object with "
  "the same arguments, returning its result. Only operations on a particular value (its special file or ioctl number) are "
  "answered by the wrapper itself.",
  ["inputs"], "every wrapper class, every operation and support query, every argument and result",
  "The base class has defaults for support queries, so a forgotten override silently disables a feature or loses an argument.",
  ["fuse_high_level_ops_base.cpp", "fuse_high_level_ops_base.h", "fuse_hook.h"],
  [("DelegateFuseHighLevelOps", "sources/fuse_high_level_ops_base.cpp"), ("HookedFuseHighLevelOps", "sources/fuse_hook.h")],
  "symbolic evaluation of every override; forwarding check against the interface's method list")

P("F03", "Idle unmount happens only after the full idle time, with no operation meanwhile",
  "When an idle time is configured, every file system operation notifies the activity hook before it runs, and each "
  "notification moves the deadline to the current time plus the configured seconds. The timer fires its callback only when "
  "the deadline in force has passed, never while being destroyed, and a changed deadline is always noticed by its thread.",
  ["schedules", "histories"], "every operation, every interleaving of operations with the timer thread",
  "A missed notification unmounts under the user only after minutes of idleness, or never; tests use one operation and short times.",
  ["fuse_hook.h", "fuse_hook.cpp", "resettable_timer.cpp", "resettable_timer.h", "commands.cpp", "internal_mount.cpp"],
  [("HookedFuseHighLevelOps", "sources/fuse_hook.h"), ("ResettableTimer", "sources/resettable_timer.cpp"), ("max_idle_seconds", "sources/internal_mount.cpp")],
  "per-operation must-call analysis; symbolic typestate of the timer thread and its wake-up flag",
  note="Operations already running when the timer fires are not waited for; how long one may run is not bounded here.")

P("F04", "Stored parameters and mount options reach the component they are meant for",
  "Each stored format parameter (block size, vector size, padding, long-name threshold, key-derivation costs, ...) and each "
  "mount option takes effect, unaltered and unmixed, in the component it names, and in no other. Names are left in the clear, "
  "case-folded or normalised, directory lookups ignore case or normalisation, attributes are offered, owners are overridden "
  "and sensitive values are logged exactly when the corresponding setting says so.",
  ["inputs", "configurations"], "every combination of stored parameters and mount options",
  "Tests mount a few default combinations; two settings of the same type swapped, or one ignored, show only with others.",
  ["internal_mount.cpp", "files.cpp", "file_table_v2.cpp", "full_format.cpp", "lite_format.cpp", "lite_stream.cpp", "streams.cpp", "params_io.cpp"],
  [("wiring of settings", "sources/internal_mount.cpp"), ("uses of settings", "sources/lite_format.cpp, sources/full_format.cpp, sources/streams.cpp")],
  "whole-program field-sensitive copy analysis of settings; path-sensitive conditions of each effect")

P("F05", "Command-line options end up in the setting they document",
  "For every command line, the setting a command stores or mounts with is the value of the option documented for it, each "
  "option only in its own setting and only for the formats it is documented for. Each password and key file comes from its own "
  "options: a given password is used, otherwise it is asked for unless a key file replaces it; changing the password opens the "
  "configuration with the old credentials and seals the same configuration with the new ones.",
  ["inputs", "configurations"], "every combination of command-line options",
  "No test parses a command line; a dropped or swapped option weakens the file system silently.",
  ["commands.cpp", "commands.h"],
  [("CreateCommand, MountCommand, ChangePasswordCommand, MigrateLongNameCommand", "sources/commands.cpp")],
  "symbolic run of each command with every option's value as one symbol; comparison of final settings per path",
  note="Windows- and macOS-only options, and options passed through to FUSE, are not covered.")

P("F06", "Older configurations describe the volume they described then",
  "For every configuration written by an earlier release and every version it may carry, the master key is opened the way that "
  "release sealed it: recorded derivation and costs, either historical way of mixing in a key file, and that version's header. "
  "Block size, IV size and padding are the recorded ones or the defaults of that time, and each key is the part of the master "
  "key where that version kept it. The old table layout, stored times and long names apply exactly to the versions that had them.",
  ["configurations", "histories"], "every version and every combination of settings recorded or absent",
  "No test opens a configuration of an earlier release; a wrong default or a swapped key makes an old volume unreadable, or writes files the old key cannot read.",
  ["params_io.cpp"],
  [("decrypt(const LegacySecurefsJsonParams&, ...)", "sources/params_io.cpp")],
  "symbolic run with version, recorded settings, derivations and verification as symbols; comparison of keys tried and parameters produced per path",
  note="The values themselves (defaults, key positions, which version had what) are the format's, stated in the rule.")

P("L01", "Shared state is only used under the lock that guards it",
  "Whatever operations run concurrently, the state of an open file or directory object (header, times, data, attributes, "
  "directory contents, cached nodes, read position of a listing), the tables of open files, the long-name table, the parent "
  "link and the idle timer are read and changed only while the lock that guards that very object or table is held. Only "
  "objects no other thread can know yet, or any more, are exempt.",
  ["schedules", "histories"], "every interleaving of operations, including failing ones",
  "A data race needs two threads in the same few instructions; tests run one operation at a time.",
  ["full_format.cpp", "files.h", "files.cpp", "file_table_v2.cpp", "lite_format.cpp", "lite_format.h", "resettable_timer.cpp", "thread_local.cpp", "btree_dir.cpp"],
  [("FileLockGuard in every operation", "sources/full_format.cpp"), ("LockGuard<File>, LockGuard<Directory>", "sources/lite_format.cpp"),
   ("Shard::mu", "sources/file_table_v2.cpp")],
  "lock-set analysis on canonical object names, requirements lifted through the call graph; guarded fields annotated or inferred",
  note="Locks are recognised as scoped guards and raw lock()/unlock() pairs; aliasing is by name, so two names of one object are taken for two objects.")

P("L02", "Locks are taken in one global order: operations cannot deadlock",
  "No set of concurrent operations can wait for each other's locks in a circle, and no thread waits for a lock it already holds. "
  "In particular two files or directories are only ever locked together in a way that cannot deadlock, whichever order they are "
  "named in and even if they are the same object, and a file handle is never closed while the lock of a file is held.",
  ["schedules"], "every interleaving of operations; every pair of operands, equal ones included",
  "A deadlock needs a particular interleaving or operand pair (rename of a name to itself, link next to its source).",
  ["full_format.cpp", "files.h", "file_table_v2.cpp", "lite_format.cpp", "sqlite_helper.h"],
  [("DoubleFileLockGuard", "sources/files.h"), ("holders declared before the guard", "sources/full_format.cpp"),
   ("FileTable::close", "sources/file_table_v2.cpp")],
  "whole-program lock-order graph over calls, virtual targets and destructors; symbolic run of guards of two objects",
  note="Locks of one class are one node of the graph, so any nesting within a class is rejected. Lock files on the underlying file system count as one class.")

P("L03", "Every lock is released whatever happens",
  "After an operation has returned, successfully or by failing anywhere within it, none of the locks it took is held any more, and "
  "no lock is released that is not held. Taking a lock that consists of several parts either takes all of them or leaves "
  "none taken.",
  ["schedules", "faults"], "every exit of every function that takes a lock, with any call in it failing",
  "A lock leaked on an error path hangs the next operation on the file for good; tests do not make calls fail there.",
  ["lock_guard.h", "files.h", "lite_format.h", "lite_format.cpp", "lite_long_name_lookup_table.h"],
  [("LockGuard, UniqueLock, FileLockGuard, DoubleFileLockGuard", "sources/lock_guard.h, sources/files.h"),
   ("File::lock", "sources/lite_format.h"), ("vgetattr", "sources/lite_format.cpp")],
  "symbolic execution of lock implementations, guards and raw locking with every opaque call allowed to throw")

P("L05", "Objects all threads share are immutable, locked or per thread",
  "Everything all operations use in common (the file system object, its key material and ciphers for names, sessions, padding and "
  "attributes, the openers and tables, random generators) is not changed after mounting unless it is atomic, guarded by a lock, or kept "
  "separately per thread. A per-thread object is only ever handed to the owner that created it.",
  ["schedules"], "every interleaving of operations on all threads",
  "A cipher object shared by two threads garbles names or data only when both use it at the same instant.",
  ["thread_local.h", "thread_local.cpp", "lite_format.cpp", "lite_format.h", "full_format.h", "crypto.cpp"],
  [("ThreadLocal", "sources/thread_local.h"), ("name_aes_siv_, xattr_name_cryptor_, content_ecb", "sources/lite_format.cpp, sources/lite_format.h")],
  "effect analysis of everything reachable from the operations on all classes reachable from the file system object")

P("D06", "Directory entries and link counts move together",
  "In the full format every operation that changes the tree leaves each object with as many links as there are entries naming it: a "
  "new entry names a new object with one link or adds a link to an existing one, removing or replacing an entry drops one, a move "
  "keeps the number. Entries are added, replaced and removed under the names the caller gave, with the type of the object they name.",
  ["histories", "inputs"], "every path of every operation, any mix of files, directories and existing entries",
  "A wrong link count shows only when the last or last but one name goes: data lost early or storage never freed.",
  ["full_format.cpp", "files.h", "files.cpp", "btree_dir.cpp"],
  [("vrename, vlink, vunlink, vrmdir, internal_create", "sources/full_format.cpp"), ("unlink, initialize_empty, is_unlinked", "sources/files.h")],
  "symbolic run of each operation over a ghost tree of entry slots and link-count changes; balance required at every exit",
  note="Decides the effect on the tree of one operation under the lock of the directory; contents of the directory structure are C01's.")

P("D07", "A refused operation changes nothing in the tree",
  "An operation on the directory tree that fails because of what it finds (name exists or is missing, wrong type, directory not empty) "
  "leaves every name and every link count as they were; a refused rmdir also keeps the directory's table of long names. In "
  "particular, removing or replacing a directory that still has entries is refused.",
  ["histories", "inputs"], "every refusing path of every operation that changes the tree",
  "Refusals are rarely tested, and then only for their return code, not for what they left behind.",
  ["full_format.cpp", "files.h", "lite_format.cpp"],
  [("vrmdir, vrename, internal_create", "sources/full_format.cpp"), ("vrmdir", "sources/lite_format.cpp")],
  "symbolic run over the ghost tree of D06: on each refusing path all changes must have been undone",
  note="Failures of the underlying storage in the middle of an operation are out of scope; the formats are not journalled.")

P("D04", "What is recorded about a file reads back as it was, and is what is reported",
  "Every number and name a full-format file header, directory record or directory page is written with is read back from the same bytes, at the same width, into the same field, in each of the forms it can take; "
  "fields share no bytes and names are bounded so that their end fits. "
  "Type, permissions, owner, link count, times and size are reported from their own fields, changed only by their own operation to what was asked for, and a change of the file or its contents moves its times.",
  ["inputs", "states", "histories"], "every header and record layout in both header forms, every argument of create, chmod, chown and utimens, every path of the reporting functions",
  "A field stored at another's place or narrower than it is shows only with values that differ there, after the file was closed and opened again.",
  ["files.h", "files.cpp", "btree_dir.cpp", "full_format.cpp", "streams.cpp"],
  [("FileBase::flush, initialize_empty, read_header, stat, utimens and setters", "sources/files.cpp"), ("SimpleDirectory::subflush and initialize", "sources/files.cpp"),
   ("BtreeDirectory node reading and writing", "sources/btree_dir.cpp"), ("vgetattr, vchmod, vchown, vutimens, vcreate, vmkdir, vsymlink", "sources/full_format.cpp")],
  "symbolic byte layouts of the writing and the reading function compared slot by slot (closed forms of loop variables); bit-level value flow from operation arguments to persisted fields",
  note="Lite files keep no record of their own: their attributes are the host's (A01, G02 for sizes). Times taken by reading (access time) are not judged.")

P("D08", "A directory keeps exactly the names put into it through splits and merges",
  "After any number of additions and removals a full-format directory finds, lists and removes every name that was added and not removed, each with its own file, and no other, however many names it holds. "
  "Splitting, merging and rotating pages of its tree, replacing an inner entry, growing and collapsing the top, giving up and reusing pages and starting the tree anew lose, duplicate and reorder nothing. "
  "A failure to read some page while that happens takes no name away from the others.",
  ["inputs", "histories", "states"], "every path of every operation on the tree, from any state that satisfies the invariants of a stored tree, at every depth and page size",
  "A lost or misplaced entry needs a directory of hundreds of names changed in an order that makes a particular page split, borrow or merge on a particular side.",
  ["btree_dir.h", "btree_dir.cpp"],
  [("insert_and_balance, balance_up, rotate, merge, replace_with_sub_entry", "sources/btree_dir.cpp"), ("find_node, get_entry_impl, add_entry_impl, remove_entry_impl", "sources/btree_dir.cpp"),
   ("allocate_page, deallocate_page, rebuild, recursive_iterate", "sources/btree_dir.cpp")],
  "symbolic sequence domain: the entries and children of each node as stretches of what nodes held before; per-path contracts (conservation and order of entries, parent and child links, page ownership) as one inductive step of the tree's invariants",
  note="Inductive step: each operation is judged from a state satisfying the invariants, recursion on the parent being the same contract one level up. That a name compares the same in every mount (the case-sensitivity option is not recorded) and that written pages are read back (D04) and kept together in a crash are outside it.")

P("D09", "A path leads component by component, and what is missing is reported so",
  "In the full format every component of a path is looked up in the directory the components before it lead to, '..' leads to the directory an object was found in, and a symbolic link is followed from its own directory, at most a bounded number of times. "
  "An object is opened as the entry found names it, with its own type. An operation on a name that is not there fails with ENOENT and one that needs a free name fails with EEXIST when it is taken; neither reports success.",
  ["inputs", "states"], "every path, directory content and chain of links, and every outcome of each lookup on the way",
  "Wrong turns need particular shapes of trees, such as links in the middle, '..' after a link or loops of links; tests use flat ones.",
  ["full_format.cpp", "full_format.h", "files.h"],
  [("FuseHighLevelOps::generic_open, open_base, open_all, create", "sources/full_format.cpp"), ("all operations on names", "sources/full_format.cpp")],
  "symbolic path enumeration with lookups as ghost state; one generic turn of the function that follows paths",
  note="Which operations follow a link at the end of the path is not judged. That add, get and remove do what they say is D08 and D06. In the lite format paths are resolved by the underlying system.")

P("D05", "Changed metadata is marked, and everything marked is written",
  "Every change of a header field, directory node or allocation record that is kept on disk marks its object as changed, on every path and "
  "with a defined value; the write that clears the mark comes first and writes every field and every node the mark stands for. "
  "A newly created object is marked, so that it gets a header of its own.",
  ["histories", "crashes"], "every change of persistent state in any order, every path of every writer",
  "An unmarked change is lost only when no other change marks the object before it is closed; tests change several things at once.",
  ["files.h", "files.cpp", "btree_dir.h", "btree_dir.cpp", "streams.cpp"],
  [("setters, m_dirty, flush", "sources/files.h"), ("mutable_*, flush_cache", "sources/btree_dir.h, sources/btree_dir.cpp"),
   ("HMACStream::is_dirty", "sources/streams.cpp")],
  "marks discovered from their use (set, cleared by the writer); symbolic check that each change is marked and each clearing follows the write",
  note="Decides marking and completeness of writers, not the byte layout they write.")

P("D03", "Flush and fsync push buffered changes all the way down",
  "Flushing or syncing a file brings everything buffered above the underlying file down to it: directory nodes and allocation records "
  "are written before the header that points to them, each layer flushes the layers under it after its own last write, and fsync asks the "
  "system to sync data and metadata after that. Both formats' flush and fsync operations do this for the file they are given.",
  ["crashes", "histories"], "every path of every flush and fsync implementation and of the operations that call them",
  "Data that stayed in a buffer is lost only if the machine or process stops at that moment; reads in tests see the buffer.",
  ["files.h", "files.cpp", "streams.cpp", "btree_dir.cpp", "full_format.cpp", "lite_format.cpp", "unix.cpp"],
  [("FileBase::flush, fsync", "sources/files.h"), ("stream flush/fsync", "sources/streams.cpp"), ("vflush, vfsync", "sources/full_format.cpp, sources/lite_format.cpp")],
  "order and completeness of flush calls along all paths, over the discovered family of stream layers")

P("D01", "One object per open file; nothing dropped unsaved; storage freed last",
  "However files are opened, reopened and closed, there is at most one object per file, found again while in use or kept for reuse. "
  "An object is taken out of use only when no handle is left and its changes have been written, and the storage of a file is deleted "
  "exactly when it has neither names nor handles; at unmount everything still held is written.",
  ["histories", "schedules"], "every order of opening, closing, removing and evicting files, on every path",
  "Two objects for one file, or one dropped unsaved, need a particular order of open, close, unlink and eviction.",
  ["file_table_v2.h", "file_table_v2.cpp", "files.h"],
  [("open_as, create_as, close_internal, ~FileTable", "sources/file_table_v2.cpp"), ("FileTableCloser", "sources/file_table_v2.cpp"),
   ("incref, decref, getref, is_unlinked", "sources/files.h")],
  "symbolic run of every function of the file table with container, reference-count and storage operations as events; per-path obligations",
  note="Runs under the shard lock (L01). That storage errors of the flush itself lose nothing is not decided.")

P("D02", "Handles given to FUSE are owned once and ended once",
  "An operation that opens or creates gives out exactly one handle, whose object nothing else will destroy, exactly when it succeeds; if it "
  "fails, nothing is given out or leaked. Release ends a handle exactly once, no other operation ends it, and a handle is read back "
  "as the type it was stored as.",
  ["histories"], "every path of every operation that has a handle",
  "A handle whose object is also destroyed elsewhere works until the memory is reused.",
  ["full_format.cpp", "full_format.h", "lite_format.cpp"],
  [("vopen, vcreate, vopendir, vrelease, vreleasedir", "sources/full_format.cpp, sources/lite_format.cpp"), ("set_file, get_file, get_base", "sources/full_format.h, sources/lite_format.cpp")],
  "ownership tracking from unique_ptr::release to fuse_file_info::fh and back, on every path")


P("L06", "One process at a time serves a full-format volume for writing",
  "However mounts and unmounts of the same full-format volume by different processes overlap, at most one of them that may "
  "write has the volume open. The lock is taken before anything of the volume is read and given up only after the last "
  "cached change was written; one left behind is taken over only if its holder no longer runs.",
  ["schedules", "histories"], "every overlap of mounting, serving, unmounting and crashing processes",
  "Needs two processes and a particular overlap; two holders of cached metadata overwrite each other's trees.",
  ["full_format.h", "full_format.cpp", "internal_mount.cpp", "unix.cpp"],
  [("RepoLocker", "sources/full_format.cpp, sources/full_format.h"), ("make_full_format_fuse_high_level_ops", "sources/internal_mount.cpp"),
   ("OSService::is_process_running", "sources/unix.cpp")],
  "symbolic run of taking and giving up the lock and of making the operations; destruction order from the member order",
  note="Processes on other machines sharing the storage are not covered. Known finding: the lock file is created, and taken over, in steps that another process can interleave.")

P("A01", "Extended attributes read back exactly what was set, whatever the buffer",
  "A value set as an extended attribute, of any length and including the empty one, is read back unchanged into any buffer large enough, and the "
  "size reported when only the size is asked is its length. Setting reports success only after the whole value with everything needed to "
  "decrypt it has been stored, removing removes all of that, and storage errors are reported. A buffer too small is refused and never overrun.",
  ["inputs"], "every attribute name, value length and buffer size in both formats",
  "Tests here never use attributes; the size of the caller's buffer and the length of the value are unbounded inputs.",
  ["lite_format.cpp", "files.cpp", "xattr_name.cpp", "full_format.cpp"],
  [("XattrCryptor, vgetxattr, vsetxattr", "sources/lite_format.cpp"), ("FileBase::getxattr, setxattr, removexattr", "sources/files.cpp"),
   ("wrapped_listxattr", "sources/xattr_name.cpp")],
  "symbolic layout of the stored value on every path of the attribute operations; writer/reader agreement; bounds as linear terms",
  note="Assumes the system's getxattr returns no more than the buffer it was given.")


P("C15", "The table of long names follows the files of its directory",
  "Creating, renaming or removing an entry whose name is too long to be encrypted in place records or removes the pair of its hash and its encrypted "
  "name in the table of the directory the entry is in, in one transaction with the operation on the underlying file. If that operation "
  "fails the transaction is rolled back, and changing the suffix of long names moves each file together with its pair.",
  ["histories", "inputs"], "every operation on entries of the lite format, every combination of long and short names, every outcome of the underlying call",
  "A pair lost or left behind is seen only when the directory is listed again later; tests here contain no long names on disk.",
  ["lite_format.cpp", "lite_long_name_lookup_table.cpp", "lite_long_name_lookup_table.h"],
  [("process_possible_long_name, vrename, open", "sources/lite_format.cpp"), ("change_long_name_suffix", "sources/lite_format.cpp"),
   ("LookupTableBase, DoubleLongNameLookupTable", "sources/lite_long_name_lookup_table.cpp")],
  "table methods read as SQL; symbolic run of every operation over translator, table and file-system events, with the transaction they fall in",
  note="Trusts SQLite for the transaction itself; a crash of the machine between the two stores is out of scope.")

P("E04", "The system is asked for exactly what was asked, and its answer passed on",
  "Each operation of the operating-system layer acts on the file, directory entry, range, attribute or owner its caller named: relative paths are taken "
  "in the directory of the mount, nothing at the end of a path is followed if it is a symbolic link, and counts and answers come back "
  "unchanged. Success, also of zero bytes, is never reported as failure. Every failure code of the name database is raised, and the values "
  "bound and read are the caller's.",
  ["inputs", "failures"], "every path of every method that makes a system or database call",
  "Swapped or relaxed arguments matter only for symbolic links, relative data directories, empty values or errors that tests do not produce.",
  ["unix.cpp", "platform.h", "sqlite_helper.cpp", "sqlite_helper.h"],
  [("UnixFileStream, OSService", "sources/unix.cpp"), ("SQLiteDB, SQLiteStatement", "sources/sqlite_helper.cpp")],
  "role of every argument of every system and database call against the parameters of the method, and of the result on every path",
  note="The roles are a table for the POSIX calls and the interface; methods with other parameters are listed, not judged. Windows is not analysed.")

P("N01", "A listing shows every entry once, under its own name, and no other",
  "Listing a directory yields each entry that has a decodable name exactly once, under the name it was created with and with its own kind and number, "
  "and besides those only the dot entries, the latter standing for the directory and its parent. Names that do not decode are left "
  "out without ending the listing or being shown as something else, and encrypted names are never shown as they are. A listing cut short by an error or a full buffer is never reported as complete.",
  ["inputs"], "every directory content and every error while reading one, in both formats",
  "Foreign files, long names, undecodable names, errors of readdir and full buffers are combinations the tests here do not produce.",
  ["lite_format.cpp", "full_format.cpp", "btree_dir.cpp", "files.h", "unix.cpp"],
  [("DirectoryImpl::next, vreaddir", "sources/lite_format.cpp"), ("vreaddir", "sources/full_format.cpp"), ("recursive_iterate", "sources/btree_dir.cpp"),
   ("UnixDirectoryTraverser::next", "sources/unix.cpp")],
  "symbolic run of every listing step; correspondence of entries read and entries handed out on every path",
  note="That the underlying directory stream yields each file once, and that B-tree nodes form a tree, are assumed.")

P("N02", "Encoded names and link targets decode to what they were",
  "Every name, link target and attribute name that is stored encrypted decodes, with the same key and settings, to exactly the text it was made from (or its normal form, where "
  "the volume asks for one), whatever its length, characters and number of components; for names over the length limit the encrypted full name is what is recorded, and the stored name carries the suffix that tells it from a short one. "
  "Reading a link returns the text given when it was made, cut only at the caller's buffer and always terminated.",
  ["inputs"], "every name, path and link target, every length and every setting of the translator",
  "Off-by-one errors at component ends, piece sizes and thresholds show only for particular lengths.",
  ["lite_format.cpp", "xattr_name.cpp", "mystring.cpp", "full_format.cpp", "files.h"],
  [("NewStyleNameTranslator, LegacyNameTranslator, PathNormalizingNameTranslator", "sources/lite_format.cpp"), ("encrypt_xattr_name, decrypt_xattr_name", "sources/xattr_name.cpp"),
   ("base32_encode, base32_decode", "sources/mystring.cpp"), ("Symlink::get, set", "sources/files.h"), ("vreadlink, vsymlink", "sources/full_format.cpp")],
  "symbolic run of encoders and decoders with a byte-range trace; constant evaluation of the base32 helpers",
  note="That SIV decryption inverts encryption is C01/C03's concern. A long-name suffix made only of letters and digits of the encoding could be the end of a short name by chance: the statement is for suffixes with another character, as the default has.")

P("G03", "The size reported of a file is the number of bytes it reads as",
  "Whenever attributes are reported with success, by path or of an open file, the size of a regular file is that of its contents, not that of what is stored for it: it is taken from the stream that reads come from, or computed with the "
  "block and nonce sizes that stream is opened with, and only while nothing is padded. The size of a symbolic link is the length of the target that readlink gives.",
  ["inputs", "states"], "every kind of stored object, stored size, padding, block and nonce size, and whether names are encoded",
  "A size off by the padding, or by one header, needs a mount with padding or a nonce size other than the default one to show, and only stat shows it.",
  ["lite_format.cpp", "lite_format.h", "files.cpp"],
  [("FuseHighLevelOps::vgetattr", "sources/lite_format.cpp"), ("File::fstat, StreamOpener::compute_virtual_size, can_compute_virtual_size", "sources/lite_format.h"), ("FileBase::stat", "sources/files.cpp")],
  "symbolic path enumeration of what fills in attributes, with the padding's own conditions refuted on each path",
  note="That the stream's own size is right is G02. Sizes in directory listings are not judged: the system's traverser gives none on POSIX. Special files and directories keep the stored size.")

P("G02", "Bytes asked for are the bytes read, written and kept",
  "Reading, writing, extending or shortening a file at any offset and length touches exactly those bytes: the blocks taken are those the range lies in, the bytes before and after the range in the first and last block "
  "are kept, a gap is filled with zeros, and the count given back is what was there. Each block is stored in its own place in the underlying file, apart from its neighbours and the header, with its data, IV and "
  "tag where reading looks for them, and the size reported is the one that was written or set.",
  ["inputs", "states"], "every offset, length, old and new size and block size, and every position of the range's ends in a block",
  "Errors of one at block ends need a particular offset, length and old size together; tests sample a few.",
  ["streams.cpp", "streams.h", "lite_stream.cpp", "lite_stream.h"],
  [("BlockBasedStream::read, write, unchecked_write, unchecked_resize", "sources/streams.cpp"), ("AESGCMCryptStream::{read,write}_multi_blocks, adjust_logical_size, size", "sources/lite_stream.cpp"),
   ("internal::AESGCMCryptStream, HMACStream, PaddedStream", "sources/streams.cpp")],
  "symbolic path enumeration with polynomial case analysis of offsets over the block size; inductive check of one generic loop turn",
  note="A read of a block that is only partly there is assumed to give its length as the block function says; that a decrypted block is the one encrypted is C01. WriteCachedStream is used by nothing and not judged.")
