"""The properties, one entry each; tools/gen.py writes properties.jsonl, MANIFEST.json and the tables of DESIGN.md from it."""

def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, design=None, na=None, state=None, thorough=True):
    return dict(id=id, title=title, statement=' '.join(statement.split()), over=over, quant=' '.join(quant.split()), why=' '.join(why.split()),
                files=files.split(), mech=mech, technique=technique, note=note and ' '.join(note.split()),
                design=design and '\n'.join(x.strip() for x in design.strip().split('\n')), na=na and ' '.join(na.split()), thorough=thorough)

PROPS = [
P('C01', 'Every lock taken is given back on every way out',
  '''Every operation of the library, when it returns (with success or with any error), has released every lock it took. It never releases a lock it
  does not hold, and never takes again a lock it already holds that cannot be taken twice.''',
  ['inputs', 'fault_sequences', 'schedules'],
  'every entry point of the library (public functions, filesystem methods, file and directory methods), every argument, every outcome of every call it makes',
  '''The tests run one thread and mostly successful calls; a lock lost on an error path shows only as a later deadlock, and only in a threaded build.''',
  'src/evfs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c src/fatfs_fs.c src/littlefs_fs.c src/shim_jail.c src/shim_rotate.c src/evfs_pthread.c src/evfs_c11_thread.c',
  [('LOCK/UNLOCK macros over evfs__lock/evfs__unlock', 'src/evfs_internal.h'), ('per-filesystem path and media locks', 'src/*_fs.c, src/shim_*.c'), ('registry lock', 'src/evfs.c')],
  'path-sensitive lock-state analysis of LLVM IR (abstract interpretation, interprocedural)',
  '''All paths of all entry points in the pthread and C11 thread builds, loops by fixpoint, error outcomes of every call included. Trusts the threading library and
  clang's IR; a lock is identified by the address expression it is taken through.''',
  '''Every entry point is run by the abstract interpreter with the lock state as part of the state; at each return the set of held locks must equal the set on entry;
  an unlock of a lock not held and a second lock of a held non-recursive lock are reported where they happen. Lock functions are found as the functions that call
  pthread_mutex_* / mtx_*; a lock's kind (recursive or not) comes from the initialisation. Oracle: the balance rule itself. Bounds: none on loops (widening);
  recursion through virtual calls on other filesystems is by contract (a method leaves locks as it found them, which is what is proved for each).'''),
P('C02', 'Memory and open files are never leaked, reused after release or released twice',
  '''Whatever any operation of the library allocates or opens for itself is, when it returns, either released or reachable by the caller or by the
  filesystem that keeps it, on success and on every failure. Nothing is released twice, and nothing is used after it was released.''',
  ['inputs', 'fault_sequences'],
  'every entry point of every translation unit, every argument, every combination of failing allocations, opens, reads and registrations on its paths',
  '''Failure paths need a failing allocation, a failing registration or a damaged image at one particular call; the tests take almost none of them and run without leak checking.''',
  'src/evfs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c src/fatfs_fs.c src/littlefs_fs.c src/stdio_fs.c src/shim_jail.c src/shim_rotate.c src/shim_trace.c src/util/dhash.c src/romfs_common.c src/littlefs_image.c src/fatfs_image.c',
  [('evfs_malloc/evfs_free', 'include/evfs_config.h'), ('open/close of base files and directories', 'src/*.c'), ('goto-style cleanup in the registration functions', 'src/*_fs.c')],
  'ownership and typestate analysis of LLVM IR (abstract interpretation, interprocedural)',
  '''Heap blocks and file/directory handles carry a state (owned, escaped, released) along every path of every entry point; internals of the hash table and path
  text are by contract. A leak is reported only when the block is unreachable from the caller, the filesystem object and globals at return.''',
  '''Each allocation site and each open call creates an owned resource with its success condition attached; a return with an owned and unreachable resource, a release of a
  released resource and a use after release are reported. Alarms found at the coarse level are only kept when every finer level confirms them. Bounds: loops by
  widening; blocks stored in containers count as reachable.'''),
P('C03', 'Each public call does exactly its operation on the filesystem it names',
  '''Every public function looks up the filesystem its caller names (the default one when none is named or none has that name), performs the one operation it stands for exactly once with
  the caller's arguments in their places, and returns that operation's result. When there is no such filesystem it performs nothing and reports that
  error. A handle is given to the caller only when opening succeeded, and closing releases the handle exactly once, whatever the close reported.''',
  ['inputs', 'fault_sequences'],
  'every public function that operates on a filesystem, file or directory; every argument, default and named filesystem, every result of the operation',
  '''The tests call most functions with one or two argument sets against one filesystem; a swapped argument, a dropped result or a lookup of the wrong
  filesystem shows only for arguments and failures they do not use.''',
  'src/evfs.c include/evfs.h',
  [('get_vfs / evfs__get_vfs resolution', 'src/evfs.c'), ('evfs_*_ex and evfs_vfs_* wrappers', 'src/evfs.c'), ('inline shorthand functions', 'include/evfs.h')],
  'path summaries over LLVM IR: recorded virtual calls compared with the operation table',
  '''All paths of each wrapper, values compared as symbolic terms. The table of which function stands for which operation is stated in the checker and follows the public header.''',
  '''Each public function is followed on every path with virtual calls recorded; the rule demands: lookup by the given name (or the default), exactly one call of the
  corresponding method with the caller's arguments in place, result returned unchanged. Functions found missing from the table or from the code fail the run as broken.'''),
P('C04', 'A shim hands every operation on to the filesystem it wraps, unchanged',
  '''The jail, trace and rotate shims pass every operation on an ordinary file, directory or path to the filesystem or handle they wrap: the same operation, exactly once,
  with the caller's arguments in place, and return its result. The data buffers passing through are not changed. Only the paths of a jail are
  rewritten, and only rotating container files behave differently.''',
  ['inputs'],
  'every file, directory and filesystem method of the three shims, every argument and every result of the wrapped operation',
  '''The shim tests run a few operations with one size, offset and result each; a wrong origin, a dropped flag or a swallowed error needs another value.''',
  'src/shim_jail.c src/shim_trace.c src/shim_rotate.c',
  [('method tables of the shims', 'src/shim_*.c'), ('handle layout with the wrapped handle behind the shim handle', 'src/shim_*.c')],
  'path summaries over LLVM IR: recorded virtual calls compared with the receiving method',
  '''All paths of each method, argument and result terms compared. Container files of the rotate shim have semantics of their own and are left out.''',
  '''Every method of a shim is followed on every path; it must make exactly one call of the same method on an object loaded from the shim's own state, with every argument in its place,
  must return that result, and must not write the buffers passing through. Exceptions written in the checker: the jail's own current directory and root handling.'''),
P('C05', 'Missing arguments are rejected before anything is done',
  '''Every public function given NULL for a path, object, structure or buffer it needs performs no operation on any filesystem, file or directory, touches no memory
  through it, and reports an error (a negative status, false, or no object).''',
  ['inputs'],
  'every public function of the library and path API, every pointer argument that is not optional, every value of the other arguments',
  '''The tests pass NULL to a handful of the functions; a missing or misplaced check crashes or acts on the wrong object only for that argument of that function.''',
  'src/evfs.c src/evfs_path.c include/evfs.h',
  [('CHECK_NULL / PTR_CHECK at the head of the public functions', 'src/evfs.c'), ('path API argument checks', 'src/evfs_path.c')],
  'null-flow analysis of LLVM IR, one argument NULL at a time (abstract interpretation)',
  '''One argument is missing at a time. Optional arguments (filesystem name, copy buffer, control parameter) are listed in the checker. Which error code is not decided.''',
  '''Each pointer parameter is set to NULL in turn, all others symbolic; every path must end in an error without a recorded virtual call, and no load, store or string function
  may take the null pointer. Oracle: the rule; bounds: none.'''),
P('C06', 'Archive filesystems cannot be changed through the library',
  '''A filesystem made from a tar file, a tar resource or a romfs image is read-only: opening with any flag that asks for writing, creating, overwriting or appending fails,
  writing and truncating fail, and deleting, renaming and making directories fail. Nothing these filesystems do writes to the image file or to the resource memory.''',
  ['inputs'],
  'every combination of open flags, every argument of every method of the three filesystems, everything reachable from them in the call graph',
  '''The tests try few flag combinations; an archive is usually shared or in flash, and a write slipping through one flag or one method damages it.''',
  'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/tar_iter.c src/tar_iter_rsrc.c src/romfs_common.c src/evfs.c',
  [('flag test in m_open', 'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c'), ('m_write, m_truncate', 'method tables of the archives'), ('default__delete, default__rename, default__make_dir', 'src/evfs.c')],
  'path summaries, call-graph effect analysis and store analysis of LLVM IR',
  '''All flag combinations and paths. What the image file does on being read is its own filesystem's matter. Stores are followed through the pointers the archive keeps.''',
  '''m_open is followed with every flag combination that asks for more than reading, the changing methods (or the defaults that fill an empty slot) with symbolic arguments: every path
  must end in an error and record no changing call. The call graph below every entry point of the archive units must contain no changing call, and
  no method may store through a pointer to memory the archive only refers to. Oracle: the rule. Bounds: none.'''),
P('C07', 'Reading an archive member stays inside it and its position is exact',
  '''A read of a file in a tar file, tar resource or romfs image delivers bytes of that file from its current position, never past its end nor more than asked for, and moves the position by exactly
  what was delivered; an error moves nothing. Seeking goes to the requested place, stopping at the start and the end of the file. Position, size and
  end-of-file are reported accordingly and asking for them changes nothing. A member opens at its start, with the size and place its entry records, and only a plain file opens.''',
  ['inputs', 'histories', 'fault_sequences'],
  'every position, size, request and seek (three origins) of an open member; every result of seeking and reading the image',
  '''The tests read whole files from intact images; a short read of the image, a failing seek, or a request crossing the end gives wrong data or a wrong position.''',
  'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/evfs.c',
  [('m_read, m_seek, m_tell, m_size, m_eof', 'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c'), ('evfs__absolute_offset', 'src/evfs.c'), ('romfs_read_image, romfs_read_rsrc', 'src/romfs_fs.c')],
  'symbolic path summaries over LLVM IR compared with the position rule (linear terms)',
  '''All paths of one operation from every state with 0 <= position <= size; by induction all histories. Integer overflow is not modelled; the recorded member size is trusted.''',
  '''The position and size cells are discovered from what tell and size return. From an arbitrary state within the invariant each method is followed on every path and the final
  cells, the transfer (place, length, buffer) and the result are compared with the rule as linear terms. Opening is followed with the entry lookup summarised; the cells it leaves are compared
  with the entry's fields. Bounds: none.'''),
P('C08', 'Every path a jail passes on lies behind its root',
  '''Every path a jail hands to the filesystem it wraps is the jail's root directory followed by the caller's path, which the jail made absolute against its own current
  directory; the caller's own text is never passed on. When that conversion fails the operation fails and nothing reaches the wrapped filesystem. A jail is
  registered only with a root directory that was made absolute successfully on the filesystem it wraps.''',
  ['inputs', 'fault_sequences'],
  'every path-taking operation of a jail, every path, every result of converting it; every registration',
  '''The tests walk a few well-behaved paths; an over-long path, a path that looks like a real one or a forgotten conversion of one argument leaves the jail.''',
  'src/shim_jail.c src/evfs_path.c',
  [('unjail_path and its callers', 'src/shim_jail.c'), ('evfs_register_jail', 'src/shim_jail.c')],
  'provenance analysis of the path buffers over LLVM IR (path summaries)',
  '''All paths of the six operations and the registration. The text the path functions themselves produce (normalisation) is not decided.''',
  '''Writes of text into buffers, path conversions and virtual calls are recorded in order on every path. The buffer handed to the wrapped filesystem must have received the root kept at
  registration and then, behind it, the successfully converted argument that belongs to this position; the cell of the root is found from the registration. Oracle: the rule. Bounds: none.'''),
P('C09', 'The current directory a filesystem keeps is one it found to exist',
  '''Changing the current directory of a tar, romfs, littlefs or jail filesystem succeeds only for a directory the filesystem itself reports to exist, and the current directory
  is then that directory. When the change fails, for whatever reason, the current directory is what it was. Asking for it delivers it and changes nothing.''',
  ['inputs', 'fault_sequences'],
  'absolute and relative paths of any length, every result of the lookup, of joining and of normalising',
  '''The tests change to existing directories with short names; a failing lookup or an over-long path leaves all later relative paths pointing somewhere else.''',
  'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/littlefs_fs.c src/shim_jail.c src/evfs.c',
  [('m_set_cur_dir, m_get_cur_dir', 'src/*_fs.c src/shim_jail.c'), ('evfs__vfs_existing_dir', 'src/evfs.c')],
  'provenance analysis of the path text over LLVM IR (path summaries)',
  '''All paths of both operations in the five filesystems that keep a current directory; stdio and FAT leave it to the host. The text the path functions produce is not decided.''',
  '''The cell is found from what the reporting operation copies out. Every successful path of the changing operation must have a positive existence test, by the filesystem itself, of the caller's
  path (or of it joined behind the old directory) and then keep exactly that text; failing paths must not write it. The existence test is checked against its three cases. Bounds: none.'''),
P('C10', 'A host-backed filesystem reports exactly what its host did',
  '''On the filesystems backed by the C library, littlefs and FatFs every operation performs the one host operation it stands for, on the object the handle was opened with and with
  the caller's buffer, length, offset or path. It succeeds exactly when the host succeeds; counts, sizes and positions are the host's, an error of the host is always reported as an
  error, and the end of a file or directory is never confused with one. Seeking from the start, the position and the end, and truncating, reach exactly the place asked for.''',
  ['inputs', 'fault_sequences'],
  'every operation of the three filesystems, every argument, every outcome of every host call',
  '''The tests run on a healthy host: a failing close, read, seek or directory scan never occurs in them, and none looks at what exactly reached the host.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/evfs.c',
  [('file, directory and filesystem methods', 'src/stdio_fs.c'), ('file, directory and filesystem methods', 'src/littlefs_fs.c'), ('file, directory and filesystem methods', 'src/fatfs_fs.c')],
  'symbolic path summaries over LLVM IR matched with a table of host operations',
  '''All paths of each method in the state a successful open leaves. Trusts the documented interfaces of the hosts (littlefs sources are not in the tree); which host error becomes which library error
  is not compared, nor are the contents of directory entries and metadata (C13) and opening modes (C12).''',
  '''Each method is followed on every path from the state a successful open leaves behind; host calls fork on their documented outcomes and become events. Oracle: one row per method
  (host call, arguments, how the result maps). Checked: exactly one such call on every path that succeeds, the arguments as linear terms, the image of every outcome. Bounds: none.'''),
P('C11', 'A filesystem set read-only changes nothing until it is set writable again',
  '''After the set-read-only command with any nonzero value, writing, truncating, deleting, renaming and making directories on a stdio, littlefs or FatFs filesystem fail, also
  through handles opened before, and so does every opening with a flag that could change something; no operation makes the host change anything but flush earlier data.
  Reading stays possible, and setting it writable again restores everything.''',
  ['inputs', 'histories'],
  'every operation, all 64 flag combinations, every nonzero value, handles opened before the command',
  '''The tests set the mode once and try an operation or two; one forgotten check in one method, one flag or an open handle is enough to write to protected storage.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c',
  [('cfg_readonly and its tests', 'src/stdio_fs.c'), ('cfg_readonly and its tests', 'src/littlefs_fs.c'), ('cfg_readonly and its tests', 'src/fatfs_fs.c')],
  'path enumeration over LLVM IR of the history open, set mode, operation, with effects of host calls',
  '''All paths of every method after the history, for three values of the mode and every flag combination. Growing a FatFs file by seeking past its end through a handle opened for writing
  before is not covered; the values are samples of the nonzero ones.''',
  '''The states after open and after the control command (real code, followed on every path) are the start states of every method. No path may contain a host call classified as changing
  something (fopen modes, littlefs and FatFs flags are decoded), changing operations must report errors, others must be able to succeed. Oracle: the rule. Bounds: none but the values.'''),
P('C12', 'An opening mode asks the host for exactly what its flags say',
  '''On stdio, littlefs and FatFs, opening with a combination of flags opens for writing exactly when they say so, keeps existing content unless they say overwrite (or write only),
  creates missing files when they say open-or-new, no-exist or overwrite and never for plain reading, fails on existing files exactly when they say no-exist, and appends when they say so.''',
  ['inputs'],
  'all combinations of the six flags, every outcome of the host calls',
  '''The tests open files with a handful of combinations; a wrong one of the other sixty silently destroys or creates files.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c',
  [('stdio__open', 'src/stdio_fs.c'), ('littlefs__open', 'src/littlefs_fs.c'), ('fatfs__open', 'src/fatfs_fs.c')],
  'exhaustive flag enumeration with constant propagation over LLVM IR paths',
  '''All 63 combinations on all paths. What each host makes of overwrite combined with append, and of write alone, is left to it.''',
  '''For each combination the opening method is followed with the flags constant; the mode text or flag word reaching the host is decoded to read, write, create, exclusive, truncate, append and
  compared with the rule; earlier calls on the path (creating probes) are judged as well. Oracle: the documented flag table. Bounds: none, the space is finite.'''),
P('C13', 'File information is what the host or the archive recorded',
  '''Every field a filesystem announces for stat calls or directory reads holds, whenever the call succeeds, what the host's record or the archive's header says about that file or entry: its size,
  its name, its modification time, and whether it is a directory. Fields it does not announce are zero. The path looked up is the one the caller gave.''',
  ['inputs'],
  'stat and directory reads of all six filesystems on every path; every value of the host\'s type field, every FAT date and time',
  '''The tests look at a few files of one host; a wrong mask, shift or field shows only for special files, other months or other hosts.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c',
  [('m_stat', 'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c'), ('m_read of directories', 'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c'),
   ('m_vfs_ctrl', 'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c')],
  'symbolic field dataflow over LLVM IR paths, evaluated over the whole finite domain of type, date and time fields',
  '''All paths; sizes and names compared as terms, types and timestamps evaluated for every value. The records the host libraries and the archive parsers fill are trusted.''',
  '''What is announced is read off the control method. On every successful path the fields of the caller's structure are compared with the fields of the record the host call filled (offsets from the
  headers): same term, same address, or, for type and time, the same value for each of the 256 to 65536 values the path admits. Oracle: the record layouts and the FAT timestamp format. Bounds: none.'''),
P('C14', 'No operation reports success when a storage operation it needed failed',
  '''When a public function or filesystem method returns success (a status of zero or above, a count, or true), every read, write, seek, size query, open, close, sync, truncation, removal,
  renaming and directory scan it performed on the storage below, and whose result its own result depends on, succeeded; writes stored all the data handed to them.''',
  ['inputs', 'fault_sequences'],
  'every operation with a status, count or truth result, in builds with and without the Romfs index; every storage operation on every path failing, or storing part of the data',
  '''The tests run on storage that does not fail. A dropped status shows only when the device below fails at that one call, and then data is lost silently.''',
  'src/evfs.c src/evfs_path.c src/shim_jail.c src/shim_rotate.c src/shim_trace.c src/tar_fs.c src/tar_iter.c src/tar_rsrc_fs.c src/tar_iter_rsrc.c src/romfs_fs.c src/romfs_common.c src/fatfs_image.c src/littlefs_image.c',
  [('evfs_copy_to_file', 'src/evfs.c'), ('rotate methods', 'src/shim_rotate.c'), ('tar index', 'src/tar_fs.c src/tar_iter.c'), ('romfs index and lookup', 'src/romfs_fs.c src/romfs_common.c'),
   ('block devices', 'src/fatfs_image.c src/littlefs_image.c')],
  'whole-path error-propagation dataflow over LLVM IR (which results can be negative at a successful exit)',
  '''All paths with loops widened. Existence probes with m_stat, closing or syncing what was not written and closing directories are not obligations unless they are the operation itself.''',
  '''Every call of a method of a filesystem or file below leaves its result on the path; at each exit whose result says success, a result whose range still admits a failure (or a partial write) is a
  violation, located by the function that made the call. Facts about results survive loops by renaming and widening. Oracle: the sign convention of results. Bounds: loops by widening, calls of the
  layer below by their contracts.'''),
P('C15', 'Closing, unmounting and unregistering release all that was acquired',
  '''Closing a file or directory releases everything opening it (and using it) acquired below; unmounting an image closes the image, and one that cannot be made or mounted is left closed; unregistering a filesystem releases its object, its locks, its index
  and the image file it was given. An opening or registration that fails keeps nothing. No other command releases what the filesystem still needs.''',
  ['inputs', 'fault_sequences'],
  'every backend and shim with locks compiled in; every state a successful open, open_dir, mount or registration ends in, then every path of the matching release',
  '''The tests register and close a few things and never look at what stays behind; what is left over accumulates or breaks the next registration, and only on some paths.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c src/romfs_common.c src/tar_fs.c src/tar_rsrc_fs.c src/shim_jail.c src/shim_rotate.c src/shim_trace.c src/fatfs_image.c src/littlefs_image.c',
  [('m_open/m_close', 'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/shim_rotate.c'), ('m_vfs_ctrl, EVFS_CMD_UNREGISTER', 'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/shim_jail.c src/shim_rotate.c'),
   ('mount and unmount', 'src/fatfs_image.c src/littlefs_image.c')],
  'ownership typestate over the composition acquire-use-release of LLVM IR functions',
  '''All paths of both operations composed; chunks opened by reads, truncations and writes of rotating containers are followed through close within a time budget (what was not followed is noted).''',
  '''The exit states of the acquiring function (held blocks, locks, tables, host files and directories with their names) are the entry states of the releasing one; whatever is still held there and is
  named only by the released object is a violation. Oracle: acquire/release pairs of the host libraries and of the C library. Bounds: loops by widening.'''),
P('C16', 'The registry holds exactly the registered filesystems and their default',
  '''Registering adds a filesystem once, under a name no other has, keeps the others and fills in every missing method; registering a name again only changes the default. Unregistering removes exactly
  that filesystem and tells it once. The default is always a registered filesystem: the one asked for, or the first, and another one takes over when it goes. Looking up finds exactly what is registered.''',
  ['inputs'],
  'registries of up to five filesystems (eight in the thorough tier), every default, every position, new and registered names, both default requests; every optional method missing',
  '''The tests use one or two filesystems in one order. Which one is the default after the default goes, or after a name is registered twice, depends on list shapes they do not build.''',
  'src/evfs.c',
  [('evfs_register', 'src/evfs.c'), ('evfs_unregister', 'src/evfs.c'), ('evfs_unregister_all', 'src/evfs.c'), ('evfs_find_vfs', 'src/evfs.c'), ('evfs_default_vfs_name', 'src/evfs.c')],
  'shape analysis of the registry list: transfer function of each operation over all list shapes up to a bound',
  '''Complete for the shapes enumerated; longer lists are taken to behave like these. The list and the default are recognised by what lookups read.''',
  '''Abstract interpretation of the operations on explicit list shapes with symbolic filesystems and names (equal or not); the list, the default, the notifications and the result at every exit are
  compared with what the operation stands for. Oracle: the documented registry semantics. Bounds: list length.'''),
P('C17', 'Nothing is reached through a null pointer or used before it was stored',
  '''Whatever fails below it (memory, an opening, a lookup, a read), no operation of the API, the filesystems, the shims and the image drivers touches memory through a null pointer or acts on a value
  nothing was stored in. After an opening or registration succeeded, the handle or filesystem has all its methods, and each of them finds everything it uses set.''',
  ['fault_sequences', 'histories'],
  'every allocation and every call into storage failing or succeeding, on every path; then every method in every state a successful opening, opening of a directory or registration ends in',
  '''The tests never run out of memory, and a handle field that is left unset usually happens to hold zero or the value of the previous handle in reused memory.''',
  'src/*.c except the utilities',
  [('evfs_vfs_open', 'src/evfs.c'), ('evfs_malloc', 'include/evfs.h'), ('tarfs__open', 'src/tar_fs.c'), ('rotate__open', 'src/shim_rotate.c'), ('evfs__register_romfs_cfg', 'src/romfs_fs.c')],
  'null-pointer and definite-initialisation dataflow over all paths, across the history open/register then method',
  '''Handles are followed for one method after opening. A value that is merged with another counts as stored. String, number and hash table utilities are taken by their contracts.''',
  '''Abstract interpretation of every entry point with both outcomes of every call below it; dereferences of, writes through and method calls with a definitely null pointer, and uses of memory nothing was
  stored in (stack, heap, handles), are violations; then the same for every method in the states openings and registrations end in, the handle being memory nothing was stored in. Oracle: the C language.'''),
P('C18', 'What threads share is used only under its lock',
  '''In a build with threads, what the operations of different threads share is only used with its lock held from the first use to the last: the registry of filesystems (its list, its default and the
  methods of a filesystem in it; a filesystem is entered in the same lock hold that found its name unused); memory inside a filesystem or shim that its ordinary operations write, such as the buffer for
  converted paths, up to and including the call the converted path is passed to; and the image file behind a tar or romfs filesystem, which is positioned and read in one lock hold.''',
  ['schedules'],
  'every interleaving of the operations of any number of threads, each using handles of its own; both settings of the shared path buffers, POSIX threads (C11 threads in the thorough tier)',
  '''A race needs a particular interleaving of two threads; the tests have one thread and are built without locks.''',
  'src/evfs.c src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/romfs_common.c src/littlefs_fs.c src/fatfs_fs.c src/shim_jail.c src/shim_rotate.c src/shim_trace.c',
  [('LOCK/UNLOCK', 'src/*.c'), ('evfs_register', 'src/evfs.c'), ('make_absolute_path', 'src/tar_fs.c'), ('unjail_path', 'src/shim_jail.c'), ('romfs__lookup_path', 'src/romfs_fs.c'), ('SharedBuffer', 'src/shim_rotate.c')],
  'lockset analysis: which locks are held at each access to shared memory, on every path of every operation (abstract interpretation of LLVM IR)',
  '''Changing the current directory and configuring a filesystem are taken to happen before threads share it; so are registration and unregistration of the filesystem used. One handle belongs to one
  thread. The host libraries (FatFs, littlefs, the C library) serialise themselves.''',
  '''Structures that hold a lock or that a filesystem keeps its state in are recognised by the types through which memory is addressed. A field some ordinary operation writes is shared scratch memory: every
  access to it, and every call it is passed to, must have a lock of the same object held. The lockset does not depend on the schedule, so it covers all of them. Seek and read on a handle kept in such an object
  must follow each other without an unlock between them; the registry must be looked through in the hold that adds to it.'''),
P('C19', 'Volumes kept in image files are read and written at their own place',
  '''The block device littlefs and FatFs get for an image file transfers exactly what is asked: the image mounting opened is positioned at block times block size plus offset (sector times sector size),
  the whole request moves to or from the caller's buffer, success is reported exactly when all of it moved, and syncing syncs the image. FatFs is told the sizes the image has, the local time, and that
  volumes it was not built with are not there. Mounting opens the image for reading and writing and accepts only the configured size; making an image never touches an existing file and reports success
  only for one of full size that was formatted; unmounting comes before the image is closed.''',
  ['inputs', 'fault_sequences'],
  'every block, offset, sector, count and size, every volume number, every outcome of every file operation; 32-bit and 64-bit file offsets',
  '''The tests mount small images on a working disk. A position computed in 32 bits, a short write taken for a full one, a second volume or an existing image file do not occur there.''',
  'src/littlefs_image.c src/fatfs_image.c',
  [('littlefs_image_read/prog/sync', 'src/littlefs_image.c'), ('littlefs_make_image, littlefs_mount_image', 'src/littlefs_image.c'), ('disk_read, disk_write, disk_ioctl', 'src/fatfs_image.c'),
   ('fatfs_make_image, fatfs_mount_image', 'src/fatfs_image.c'), ('get_fattime', 'src/fatfs_image.c')],
  'value and event dataflow over all paths of each driver function in the states mounting leaves (abstract interpretation of LLVM IR)',
  '''Volumes 0 to 2 of those configured. Positions are compared as values; that no part of one is computed in too few bits is checked in the configuration with 64-bit offsets.''',
  '''The drivers run on symbolic block numbers, sizes and handles. File operations are recorded with their arguments and each outcome. Rules: the order of operations is position, transfer; the arguments
  equal the specified expressions; the result is success exactly when every recorded outcome was. The history mount, then access (also from within mounting and formatting) fixes which handle must be used.'''),
P('C20', 'Reading a directory delivers every entry once',
  '''Each read of a directory on stdio, littlefs and FatFs takes the next entry of the host and delivers it; told to leave out the dot entries, it passes over "." and ".." and nothing else, and never delivers
  one of them. Told again to deliver everything, or told something else, it goes by the last thing it was told about dot entries. A romfs directory is read along its chain of headers, each entry once
  from the first to the one the chain ends with (from the third when dot entries are left out); rewinding starts it over. A header that cannot be read is an error, not an end.''',
  ['inputs', 'histories'],
  'every entry name, every setting history of up to two commands, every position along a romfs chain up to the third delivered entry (the step from one entry to the next is the same at each)',
  '''The tests list small directories. A name that only begins with a dot, a setting that is not exactly 1, a directory read again after a rewind are not among them.''',
  'src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c',
  [('stdio__dir_read', 'src/stdio_fs.c'), ('littlefs__dir_read', 'src/littlefs_fs.c'), ('fatfs__dir_read', 'src/fatfs_fs.c'), ('romfs__dir_read, romfs__dir_rewind', 'src/romfs_fs.c')],
  'typestate over the entries of a directory along all paths (abstract interpretation of LLVM IR)',
  '''That the host delivers each entry once is assumed, and that a romfs chain begins with its two dot entries, as the image tool writes it. Nothing is said of a chain that loops.''',
  '''Opening, setting commands and reads are run one after the other on symbolic handles. What each path has found the newest entry's name to be (by comparing strings or bytes) decides whether passing over
  it, or delivering it, was right. For romfs the sequence of header positions read must equal the chain of link fields of the headers read before.'''),
P('C21', 'A control command does its own thing, or nothing and says so',
  '''A filesystem or file given a control command it does not know or does not support answers with an error and does nothing: it stores nothing, releases nothing and performs no operation. Every filesystem
  answers the two questions for the fields it provides, with declared fields only, and changes nothing by answering. A setting changes the filesystem, not the caller's argument. The address reported for a
  file of a resource is the one reads at its start take its bytes from, and only files in memory have one. Every error and command code has its own name, which is the one it is declared under.''',
  ['inputs'],
  'every declared command, the values next to each, user-defined ones and the command that is any other value, on every filesystem, file and rotate container',
  '''The tests send the commands that exist to the filesystems that know them. A probe for support that is answered with success although nothing happened, or an address asked for after a seek, is not among them.''',
  'src/evfs.c src/stdio_fs.c src/littlefs_fs.c src/fatfs_fs.c src/romfs_fs.c src/tar_fs.c src/tar_rsrc_fs.c src/shim_rotate.c',
  [('the m_vfs_ctrl and m_ctrl methods', 'src/*_fs.c'), ('rotate__file_ctrl', 'src/shim_rotate.c'), ('evfs_cmd_name, evfs_err_name', 'src/evfs.c')],
  'effect analysis of every control method per command (abstract interpretation of LLVM IR)',
  '''What unregistering releases is C15, what settings do is C11 and C20, which fields are really filled is C13, what shims pass on is C04; trimming a rotate container is not judged here.''',
  '''Each control method runs once per command value and once with a symbolic one excluded from all declared values. What each path stored, released, called and returned is compared with what the command may do.
  The address of a resource is compared, as a value, with the source of the copy a read makes at the symbolic position less that position.'''),
P('C22', 'A path that does not fit is an error and is never used cut short',
  '''When a path, or a part of one, does not fit in the buffer it is built in (one of fixed size, or the one the caller gave), the operation building it fails: normalising, joining and making paths absolute,
  asking for the current directory, and every jail operation that puts the root before a path report an error, and no filesystem below is ever handed what fitted of it.''',
  ['inputs'],
  'every operation of the API, the filesystems and the shims that appends to a text, every piece appended fitting or not',
  '''The tests use short paths and large buffers, and a buffer one byte short only where somebody thought of it. A path cut at a separator names its parent directory: deleting or listing it is the wrong operation, done successfully.''',
  'src/evfs_path.c src/evfs.c src/shim_jail.c src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/littlefs_fs.c src/util/range_strings.c',
  [('evfs_vfs_path_normalize, path_normalize_long, evfs_vfs_path_join, evfs_vfs_path_absolute', 'src/evfs_path.c'), ('m_get_cur_dir', 'src/tar_fs.c src/tar_rsrc_fs.c src/romfs_fs.c src/littlefs_fs.c src/shim_jail.c'), ('unjail_path', 'src/shim_jail.c')],
  'error-propagation dataflow from every bounded append to the exits and method calls (abstract interpretation of LLVM IR)',
  '''Buffers the library allocates to the size of their text are assumed to be large enough. Text produced by other means than the append functions is not judged here (C09 judges copies of the current directory), nor are the paths the rotating log joins for its chunks (DESIGN.md names the defect there).''',
  '''Every call of an append function on a buffer that was not allocated for it has an unknown result that can be negative. At each exit where it can still be negative (or was found to be), the value returned
  must not mean success; at each method call that takes a path, the buffer the path is in must have had all its appends found to fit.'''),
P('C31', 'A normalised or joined path names the same place',
  '''Normalising, joining, making absolute and splitting paths yields text that names the place the original names: no component is lost, added or changed except "." and ".." and repeated separators, and the
  result always ends within the buffer given for it.''',
  ['inputs'],
  'every path, base path and buffer size',
  '''The tests use some dozens of paths; a component that only begins with dots, or a buffer one byte short, needs another one.''',
  'src/evfs_path.c src/util/range_strings.c',
  [('evfs_vfs_path_normalize, evfs_vfs_path_absolute, evfs_path_join_ex', 'src/evfs_path.c'), ('range_cat_* and range_token', 'src/util/range_strings.c')],
  na='''The result is a text of unbounded length built by loops over the characters of another; whether it names the same place is a relation between the two texts that no interval, typestate or effect
  domain expresses. That failures of these functions are acted upon is decided in C08, C09 and C14.'''),
P('C32', 'A rotating container holds the newest bytes written to it',
  '''A rotate container delivers, from its start to its end, the last bytes written to it in order, up to its configured size, after any sequence of writes, truncations, seeks, closings and reopenings, and after
  a stop between any two operations on the filesystem below.''',
  ['histories', 'crash_points'],
  'every history of operations and every stop between two storage operations',
  '''The tests write one container a few times and close it properly.''',
  'src/shim_rotate.c',
  [('rotate__file_write, trim_start, evict_chunk', 'src/shim_rotate.c')],
  na='''What the container holds after a history is a function of the bytes written and of chunk numbers that grow without bound and wrap; it has no finite abstraction that keeps the content, and crash recovery
  needs the persisted state between two operations, which only exists when the code runs. Errors, leaks, locks and command handling of containers are decided in C01, C02, C14, C15 and C21.'''),
P('C33', 'An archive index finds exactly the members of the archive',
  '''Every member of a tar file, tar resource or romfs image can be opened under the path the archive gives it, with its own bytes, and nothing else can.''',
  ['inputs'],
  'every archive and every path',
  '''The tests use one archive each.''',
  'src/tar_fs.c src/tar_rsrc_fs.c src/tar_common.c src/romfs_common.c src/util/dhash.c',
  [('tarfs__index_hash_init, romfs_lookup_abs_path', 'src/*.c'), ('dh_insert, dh_lookup', 'src/util/dhash.c')],
  na='''It relates the contents of an archive of any length, parsed from octal text and chained offsets, to the contents of a hash table filled by a loop; finding a key again depends on equality of texts and on
  the probing sequence, numerical facts about all stored keys at once. That headers which cannot be read are never used, that members open with the size and place of their entry, and that reads stay
  inside them is decided in C07, C13 and C14.'''),
P('C34', 'Text, pattern and number utilities compute what they document',
  '''Bounded string building, glob matching, formatting of numbers, option parsing and integer logarithms produce the values they document and stay within their buffers.''',
  ['inputs'],
  'every text, pattern, number and buffer size',
  '''The tests sample them.''',
  'src/util/range_strings.c src/util/glob.c src/util/intmath.c src/util/getopt_r.c src/util/unix_time.c',
  [('range_cat_fmt, glob_match, ilog10, getopt_r, unix_to_time', 'src/util/*.c')],
  na='''They are numerical and textual functions of unbounded inputs: what they must return is defined by their result values, and their bounds depend on lengths of texts computed in loops, which the interval
  and difference facts used here do not relate to the buffers. The paths through them are followed for locks, leaks and null pointers (C01, C02, C17).'''),
]
