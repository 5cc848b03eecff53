#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Stored file content reads back byte for byte",
 "Whatever bytes are given to the store as one file, of any length and with any content, reading the returned key back yields exactly those bytes, also when other files are stored before or after in the same store. How the input stream delivers them (short reads, interrupted reads) makes no difference, and an input stream that fails is reported as an error.",
 ["inputs", "fault_sequences"],
 "all byte sequences (including ones whose rolling hash promotes chunks to every level of the blob tree, and ones long enough to fill a tree level), all ways a reader may deliver them, all prior store contents",
 "identity_read_write uses byte vectors of at most ~100 bytes and sanity_check 128 fixed random buffers below 1 MiB, always delivered in full reads: no test reaches the second or higher levels of the chunk tree, the level fan-out limit, a boundary aligned end of file, or a fragmented/failing reader.",
 ["src/file.rs", "src/object.rs", "src/ds/mod.rs"],
 [("content-defined/forced chunk cuts and multi level key buffers", "src/file.rs put_data"), ("recursive reassembly in key order", "src/file.rs read_data")],
 [("key_bufs", "pending keys per tree level", "src/file.rs"), ("current_chunk/chunk_buffer", "bytes not yet stored", "src/file.rs")],
 ["put_data / read_data", "snapcd insert + fetch / show"])

prop("C02", "A stored directory tree is restored identically",
 "After a directory tree (or single file) is inserted or committed, fetching its key into a new place recreates exactly the same set of directories and files, with the same names and the same contents, including empty files and empty directories. Storing never modifies the source, and a tree that cannot be represented (for example a name that is not valid Unicode) is refused with an error instead of being stored differently.",
 ["inputs"],
 "all trees of regular files and directories (any nesting, any names, any contents; symbolic links are followed when storing), stored whole or by any sub-path",
 "No test stores or fetches a directory at all; only single blobs in memory are round-tripped.",
 ["src/dir.rs", "src/file.rs", "src/main.rs"],
 [("recursive put of entries with parallel names/children lists", "src/dir.rs put_fs_item"), ("recursive restore", "src/dir.rs get_fs_item")],
 [("FSItem.children_names/children", "parallel lists of names and child keys", "src/dir.rs")],
 ["snapcd insert/commit then fetch, compared on disk"])

prop("C03", "A key depends only on content, and identifies it",
 "Storing the same content always gives the same key: regardless of location, file creation order, timestamps, how the bytes arrive, which command stores it, and what the store already holds. Contents that differ in any byte, name, or in structure get different keys.",
 ["inputs", "histories"],
 "all pairs of equal contents reached along different routes, and all pairs of contents that differ by a small mutation",
 "Tests never store one content twice by two routes, never compare keys of different contents, and never store a directory.",
 ["src/file.rs", "src/dir.rs", "src/ds/mod.rs", "src/object.rs"],
 [("hash of the encoded object is the key", "src/ds/mod.rs put/hash"), ("deterministic encoding of objects", "src/object.rs, src/dir.rs TryInto<Object>"), ("deterministic order of directory entries", "src/dir.rs put_fs_item")],
 observe=["keys printed by insert/commit/ref log", "put_data, put_fs_item, hash_fs_item return values"])

prop("C04", "Stored objects keep the documented, version-stable format",
 "Every object is stored as the documented CBOR record (data, keys, objtype) under the Blake3 hash of those bytes, and files, directories and commits always encode and chunk to the same records and keys as they always have. Conversely, a repository written by an independent implementation of that format is read back exactly by fetch, show, log and status.",
 ["inputs"],
 "all file contents, directory trees and commits, in both directions (written by snapcd and checked, written by the reference and read by snapcd)",
 "Tests only read back what the same build wrote, so any symmetric change of hash, encoding, chunking, entry order or key layout passes them while orphaning every existing repository.",
 ["README.md", "hash-encoding.txt", "src/object.rs", "src/dir.rs", "src/commit.rs", "src/file.rs", "src/key.rs", "src/ds/sqlite.rs"],
 [("serde encoding of Object/FSItem/CommitAttrs", "src/object.rs, src/dir.rs, src/commit.rs"), ("chunk size and fan-out constants", "src/file.rs"), ("key prefix bytes/letters", "src/key.rs"), ("table layout", "src/ds/sqlite.rs")],
 observe=["rows of the data/state/reflog tables", "printed keys", "fetch/show/log/status output"])

prop("C05", "The store is always sound: objects valid, references resolved",
 "After any sequence of commands, successful or failed, every object in the repository hashes to its own key, is well formed, and refers only to objects that are present and of a fitting kind. Every ref entry made by a commit names a stored commit whose tree and parents are stored.",
 ["histories"],
 "all sequences of init/insert/commit/compare/status/ref update/checkout-head/commit-tree commands (given keys of the kind they expect) over changing working trees, including commands that fail half way",
 "No test inspects the database or runs more than one store operation in sequence.",
 ["src/dir.rs", "src/file.rs", "src/commit.rs", "src/ds/sqlite.rs", "src/main.rs"],
 [("children are stored before the object that names them", "src/dir.rs, src/file.rs, src/commit.rs"), ("one transaction per command, rolled back on error", "src/main.rs main")],
 [("data table", "key -> encoded object", "src/ds/sqlite.rs"), ("reflog table", "history of refs", "src/ds/sqlite.rs")],
 ["independent fsck over the SQLite file"])

prop("C06", "Nothing once stored is ever lost or changed",
 "Once a command that stores or commits something has succeeded, everything it stored stays retrievable under the same key with exactly the same content, whatever commands are run afterwards, whether they succeed or fail. No command other than checkout changes any file of the working directory.",
 ["histories"],
 "all later sequences of commands (including failing ones, re-init, ref updates, commits of unrelated content) after each stored snapshot",
 "Tests use a fresh in-memory store per case and never run a second command against it.",
 ["src/ds/sqlite.rs", "src/main.rs", "src/dir.rs"],
 [("insert-or-ignore, no delete path", "src/ds/sqlite.rs raw_put"), ("append-only reflog", "src/ds/sqlite.rs reflog_push")],
 [("data table", "only ever grows", "src/ds/sqlite.rs"), ("reflog table", "only ever grows", "src/ds/sqlite.rs")],
 ["fetch/show/ref log of every earlier key at the end of a history"])

prop("C07", "Damaged objects are detected, never returned as good data",
 "If the bytes of any stored object that a read depends on are altered, truncated, swapped with another object's or missing, then a fetch, show, log or compare that needs it reports failure. It never completes as if nothing were wrong with content that differs from what was stored.",
 ["fault_sequences", "inputs"],
 "all repositories, all stored objects reachable from the requested key, all alterations of their stored bytes",
 "No test corrupts a store; damaged data simply decodes to something else unless it is checked.",
 ["src/ds/mod.rs", "src/file.rs", "src/dir.rs", "src/commit.rs"],
 [("object bytes are checked against their key when read", "src/ds/mod.rs get"), ("decode errors are propagated", "src/ds/mod.rs get_obj")],
 observe=["exit status/\"fatal:\" line and restored files after damaging rows of the data table"])

prop("C08", "Fetch never overwrites a file and stays inside the destination",
 "Fetching never changes, truncates or removes anything that already exists: if a file to be written already exists the fetch fails and that file keeps its content. Everything a fetch creates lies at or below the destination path, even when a stored directory contains hostile entry names.",
 ["inputs", "fault_sequences"],
 "all stored trees (including crafted ones with names such as '..', absolute paths or embedded separators) and all prior contents of the destination and its surroundings",
 "No test extracts anything to a file system.",
 ["src/dir.rs", "README.md"],
 [("create_new when opening destination files", "src/dir.rs get_fs_item"), ("entry names are joined below the destination", "src/dir.rs get_fs_item")],
 observe=["file system around the destination before and after fetch"])

prop("C09", "status and compare list exactly the real differences",
 "Comparing a directory with a stored tree lists as added, deleted and modified exactly the paths that were added, deleted (including changes between file and directory) or whose content changed, with whole added or deleted directories collapsed to their top. It lists nothing exactly when the directory equals the stored tree, and checkout-head refuses to switch exactly when there is a difference.",
 ["inputs", "histories"],
 "all stored trees, all later states of the working directory, compared by status, compare (with or without a path or key) and checkout-head, from any current directory",
 "No test calls the comparison code.",
 ["src/diff.rs", "src/dir.rs", "src/main.rs"],
 [("walk both sides and compare by path and key", "src/diff.rs compare"), ("collapse children of added/deleted directories", "src/diff.rs simplify"), ("walks", "src/dir.rs walk_fs_items, walk_real_fs_items")],
 observe=["stdout of status/compare", "HEAD after checkout-head"])

prop("C10", "The hash cache never changes any answer",
 "The output of every command is the same whether the hash cache is absent, fresh, warm, or shared with other repositories, for every history of edits to the working directory, including edits that keep a file's size and modification time or follow quickly on one another, and file replacements that reuse an inode.",
 ["histories", "configurations"],
 "all interleavings of edits, time stamp changes, commits and comparisons, over one or several repositories sharing one cache directory",
 "No test creates a cache.",
 ["src/cache.rs", "src/dir.rs", "src/main.rs"],
 [("cache key from inode, times and size", "src/cache.rs, src/dir.rs hash_fs_item"), ("cached entry is used only if valid for this store", "src/dir.rs hash_fs_item")],
 [("cache table", "file identity -> key", "src/cache.rs")],
 ["status/compare with shared cache against the same commands with an empty cache", "Cache get/put"])

prop("C11", "Patches and line counts describe a change exactly",
 "The patch shown for a commit contains, for every file it adds, deletes or modifies and for no other, hunks whose ranges agree with their bodies and which, applied to the old lines, give exactly the new lines; a file that is not valid text makes it fail rather than print something else. The line statistics give for every such file the number of lines added and removed (a CR before a line feed belongs to the line end; added and deleted files count their line feeds).",
 ["inputs"],
 "all pairs of old and new trees with arbitrary text (any number of changed regions, repeated lines, missing final newline, CR characters) and binary files",
 "patch_from_file_string_doesnt_panic only checks absence of panics; no test looks at the text of a patch or at a count.",
 ["src/diff.rs", "src/display.rs"],
 [("grouping of changed lines with context into hunks", "src/diff.rs patch_from_file_string"), ("add/remove patches", "src/diff.rs create_diff_patch_result"), ("line counts", "src/diff.rs line_stat")],
 observe=["stdout of show, log and compare --stat"])

prop("C12", "A key, prefix or ref name resolves to exactly what it names",
 "A full key or a key prefix (letter case of the encoded part ignored) resolves to the stored object whose printed key starts with it when there is exactly one, is reported as ambiguous when there are several and as not found when there is none. '/name' resolves to the newest entry of that local ref and 'remote/name' to the newest one of that remote's ref; any other text is rejected with an error and never crashes.",
 ["inputs"],
 "all stores (including keys that share long prefixes or sit at the ends of the key space), all prefixes of every length, mutated keys, arbitrary text, all ref/remote names",
 "Tests check that parsing does not panic and that a full key parses back; none resolves anything against a store.",
 ["src/keyish.rs", "src/base32.rs", "src/key.rs", "src/ds/mod.rs", "src/ds/sqlite.rs"],
 [("prefix to half-open key range", "src/keyish.rs from_str"), ("range query", "src/ds/sqlite.rs raw_between"), ("canonicalize", "src/ds/mod.rs")],
 observe=["Keyish::from_str + canonicalize", "key arguments of fetch/show/debug pretty-print"])

prop("C13", "Refs, HEAD and commits record exactly what was commanded",
 "Each commit on a ref stores the current working tree with the given message, has that ref's previous newest entry as its only parent (none for the first), and becomes the newest entry of that ref, leaving HEAD and all other refs as they were. Ref update, set-head, checkout-head and init change only what they name; refs of different names or remotes never mix; and a ref's log lists all its entries, newest first.",
 ["histories"],
 "all sequences of commit (default or named ref), ref update, reflog-push with and without remote, set-head, checkout-head, re-init",
 "No test touches refs, HEAD or commits.",
 ["src/main.rs", "src/ds/sqlite.rs", "src/commit.rs"],
 [("parent lookup before storing", "src/main.rs commit_cmd"), ("reflog table queries by ref and remote, ordered by id", "src/ds/sqlite.rs"), ("HEAD state row", "src/ds/mod.rs get_head/put_head")],
 [("state[HEAD]", "current ref name", "src/ds/mod.rs"), ("reflog", "entries per (ref, remote)", "src/ds/sqlite.rs")],
 ["ref log, debug get-head, debug reflog-get, log, stored commit objects"])

prop("C14", "Excluded paths and the repository folder are left out everywhere",
 "Below the path a command is given, a path matched by an exclude pattern, and everything inside the repository's own database folder wherever it lies, is never stored by insert or commit, never listed as added or modified by compare or status, and never changed or removed by checkout. Every path that is not excluded, and has no excluded ancestor, is treated as usual.",
 ["inputs", "configurations"],
 "all trees, all sets of exclude patterns, all placements and names of the database folder, path arguments given absolute, relative or with a leading './'",
 "No test builds a filter or runs a command with one.",
 ["src/filter.rs", "src/dir.rs", "src/diff.rs", "src/main.rs"],
 [("glob set and canonical-prefix test", "src/filter.rs make_filter_fn"), ("filter consulted for every directory entry", "src/dir.rs put_fs_item, internal_walk_real_fs_items, checkout_fs_item")],
 observe=["debug walk-tree / fetch of the stored tree", "status/compare output", "working directory after checkout"])

prop("C15", "A crash at any moment leaves the state before or after a command",
 "If the process or the machine stops at any moment while a command runs, the next command finds the repository exactly as it was before the interrupted command or exactly as if it had completed: objects, refs and HEAD all from one of the two. A command that has reported success keeps its full effect on the repository even if power fails right afterwards. (An interrupted first init, leaving no object, ref or HEAD, counts as before.)",
 ["crash_points", "histories"],
 "all commands, all points between their file operations, and for power loss all losses of writes not yet synced, after any earlier history",
 "No test runs against an on-disk database or interrupts anything.",
 ["src/main.rs", "src/ds/sqlite.rs"],
 [("begin/commit around each command", "src/main.rs main"), ("SQLite rollback journal and synchronous=FULL", "src/ds/sqlite.rs SqliteDS::new")],
 [("snapcd.db and its journal", "on-disk state", "src/ds/sqlite.rs")],
 ["database reopened after a simulated crash at every recorded file operation"])

prop("C16", "Success is reported only when the whole effect took place",
 "When a read, write, sync, open or other file operation fails during a command, or the database is locked by another process, the command either still completes with its full effect or reports failure. The same goes for a command that cannot be done at all. A failure is reported by the exit status too. It never reports success with a part of its effect missing, and a failed command leaves the repository's refs, HEAD and stored objects as before or as if complete.",
 ["fault_sequences"],
 "all commands and all single (and repeated) failures of each kind at each file operation they perform, and all lock states held by another process",
 "No test injects an I/O error or holds a lock.",
 ["src/main.rs", "src/ds/sqlite.rs", "src/file.rs", "src/dir.rs"],
 [("errors propagate with ? up to main", "src/*.rs"), ("rollback on error, commit result checked", "src/main.rs main")],
 observe=["exit status and stdout against the database and the restored files, under injected faults"])

prop("C17", "Concurrent commands behave as if run one after another",
 "When two commands run at the same time on one repository, the result is the same as running those that report success one after the other in some order, and those that report failure have no effect (a failed first init may leave an empty repository that works). In particular no successful commit is lost from its ref's history or forks it.",
 ["schedules"],
 "all pairs of storing commands and all points of the first one's file operations at which the second one runs or starts",
 "No test runs two processes or two connections.",
 ["src/main.rs", "src/ds/sqlite.rs"],
 [("one SQLite transaction per command, read of the parent inside it", "src/main.rs main, commit_cmd")],
 observe=["refs, HEAD and objects after a schedule in which one process is stopped at a chosen operation while another runs"])

prop("C18", "The data store behaves as a transactional append-only map",
 "Through the library interface, objects, state entries and ref entries behave like simple maps and lists: a get returns what was put, existence and key-range queries agree with it, an object key keeps its first value while a state entry takes its last, ref entries come back newest first per (name, remote). Rolling back restores exactly the contents at the begin, committing keeps them, and reopening the store shows exactly the committed contents.",
 ["histories"],
 "all sequences of put/get/exists/range/state/ref operations, begin/commit/rollback and close/reopen, with arbitrary binary keys and values",
 "between_test covers one range query on a fresh store; nothing covers transactions, state, refs, overwriting, or reopening.",
 ["src/ds/mod.rs", "src/ds/sqlite.rs"],
 [("SQL statements of the sqlite store", "src/ds/sqlite.rs"), ("BEGIN/COMMIT/ROLLBACK", "src/ds/sqlite.rs Transactional")],
 [("data, state, reflog tables", "the three maps", "src/ds/sqlite.rs")],
 ["DataStore trait methods against an in-memory model"])

prop("C19", "Checkout makes the directory equal the tree, or refuses untouched",
 "Inside the one directory where it is enabled, a checkout that reports success leaves the working directory equal to HEAD's tree, apart from excluded paths and the database folder, which it never touches. Anywhere else it never creates, changes or deletes a file, and fails if there is anything to write.",
 ["inputs"],
 "all stored trees and all prior states of the working directory, inside and outside the enabled directory",
 "No test calls checkout.",
 ["src/dir.rs", "src/main.rs"],
 [("path guard before any change", "src/dir.rs checkout_fs_item"), ("removal of extra entries, creation of missing ones", "src/dir.rs checkout_fs_item")],
 observe=["working directory before and after checkout"])

prop("C20", "Unchanged data is stored once; small edits cost little",
 "Storing content that is already stored adds no object. Overwriting a few bytes in place or appending to a large file adds only objects proportional to the changed region and the tree above it, not to the file, and equal files or chunks anywhere are stored once.",
 ["inputs", "histories"],
 "all large files, all in-place edits of a bounded region and appends, all trees with repeated content",
 "No test counts objects or looks at how a file is split; a chunker that never cuts, or cuts differently every time, still round-trips.",
 ["src/file.rs", "src/ds/sqlite.rs", "src/dir.rs", "README.md"],
 [("chunking into bounded blobs", "src/file.rs put_data"), ("content addressing with insert-or-ignore", "src/ds/mod.rs put, src/ds/sqlite.rs raw_put")],
 observe=["rows of the data table before and after a second store"])

prop("C21", "Keys and objects convert to text/bytes and back; bad ones are refused",
 "Every key, object, directory item and commit converts to its printed or binary form and back without loss, keys order as their bytes do, and the case rules of printed keys hold. Arbitrary text or bytes given to any of the parsers is either decoded to a value that converts back to an equivalent form or refused with an error; it never crashes.",
 ["inputs"],
 "all keys, all objects, all byte strings and texts, including valid encodings with small mutations",
 "Existing property tests cover keys and base32 with fresh random bytes only; objects, directory items and commits are never decoded from anything but what was just encoded, and never from mutated encodings.",
 ["src/base32.rs", "src/key.rs", "src/keyish.rs", "src/object.rs", "src/dir.rs", "src/commit.rs"],
 [("table lookup with case folding", "src/base32.rs"), ("db key prefix and length checks", "src/key.rs"), ("serde decoding and conversion", "src/object.rs, src/dir.rs, src/commit.rs")],
 observe=["library conversion functions"])

prop("C22", "Commands find the enclosing repository from any directory",
 "Run from any directory below it, a command uses the nearest enclosing repository (of the given folder name) and acts on that repository's whole working tree, with the same result as when run at its root. Without an enclosing repository a command fails without creating or changing a repository.",
 ["configurations", "inputs"],
 "all nestings of directories and repositories, all current directories, all database folder names given with -d",
 "No test runs the program.",
 ["src/main.rs"],
 [("upward search for the database folder", "src/main.rs find_db_folder"), ("repository path is its parent", "src/main.rs main")],
 observe=["output and effects of commit/status/compare/ref log from different directories"])

prop("C23", "show, log and the inspection commands tell the truth",
 "Showing a file prints exactly its content; the log of a commit lists every commit on its first-parent chain once, newest first, each with its key, its message and the changes against its parent; walking a tree lists every path in it with the right kind and key. None of these changes the repository.",
 ["inputs", "histories"],
 "all stored contents, all commit histories (including merges made with commit-tree), all messages",
 "No test runs the display code.",
 ["src/display.rs", "src/main.rs", "src/commit.rs", "src/object.rs"],
 [("first-parent walk", "src/display.rs log_obj"), ("kind dispatch", "src/display.rs display_obj"), ("tree walk", "src/dir.rs walk_fs_items")],
 observe=["stdout of show, log, debug pretty-print, debug walk-tree"])

prop("C24", "Files that change while a command runs are taken as they were at a moment",
 "When other programs replace, append to, add, move or remove files while a command reads the working directory, the command either fails and leaves the repository as it was, or takes every path as it was at some moment of its run: a stored file has exactly the content it had at one moment, with the right size and under its usual key, a path that was there all the time is not left out, and one that never was is neither stored nor listed. Afterwards status lists exactly the remaining differences.",
 ["schedules", "histories"],
 "all moments of a running insert, commit, status, compare or checkout-head, and all changes of files and directories at those moments that take effect at once",
 "No test lets anything happen to a file while it is being read.",
 ["src/dir.rs", "src/file.rs", "src/diff.rs", "src/cache.rs"],
 [("size counted while reading", "src/dir.rs put_fs_item, hash_fs_item"), ("one pass over the stream up to its end", "src/file.rs put_data"), ("walk first, then hash", "src/diff.rs compare")],
 observe=["stored objects and ref entries", "output of status and compare"])

prop("C25", "A repository answers the same wherever it lies and however it is run",
 "A working directory copied elsewhere together with its repository folder gives the same: every command succeeds or fails as it does in the original, prints the same (apart from colors), stores the same objects, refs and HEAD and fetches the same files. That is so for any place, any home directory (with or without a cache), and any locale, time zone, terminal, verbosity and way to name the folder; nothing in the copy depends on the original.",
 ["configurations", "histories"],
 "all histories before and after the copy, all places, all environments",
 "No test runs the program, or looks at a store from another place than the one where it was made.",
 ["src/main.rs", "src/ds/sqlite.rs", "src/commit.rs", "src/dir.rs", "src/display.rs"],
 [("objects and refs hold no paths, times or users", "src/commit.rs, src/dir.rs, src/ds/sqlite.rs"), ("the cache is only a cache", "src/cache.rs, src/dir.rs hash_fs_item"), ("messages for the log go to standard error", "src/main.rs setup_logging")],
 observe=["exit status and standard output of every command", "database contents", "fetched files"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
