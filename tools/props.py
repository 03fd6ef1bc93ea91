"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
SETUP = './check --setup'
NOTES = ('Static analysis only: every command compiles /repo\'s current sources to LLVM IR (clang 18, configuration headers committed under conf/), '
         'normalises it (inlining of helpers, promotion to SSA, constant propagation) and runs dataflow/typestate/value-flow rules over it. Nothing of '
         '/repo is executed. Exit 2 and ANALYSIS-BROKEN means the analysis lost its subject (for example a file does not compile).')
STATIC = 'Every path of the analysed functions is covered; nothing is executed and nothing is sampled. '
PROPS = []
NA = []
def P(id, title, statement, over, q, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=STATIC + note))
def N(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))

PORTS = ['comex/src-mpi-pr/comex.c', 'comex/src-mpi-pt/comex.c', 'comex/src-mpi-mt/comex.c', 'comex/src-mpi/comex.c', 'comex/src-mpi3/comex.c']

P('T01', 'Thread lock is balanced, never re-entered, and covers the thread-safe calls',
  'Every call that takes the library\'s process-wide thread lock releases it exactly once on every path to its return and never tries to take it again while holding it. In the calls documented as thread safe (put, get, accumulate, their non-blocking forms, wait/test, read-increment, sync, create) all communication and all updates of shared library state happen while the lock is held.',
  ['schedules', 'inputs'], 'all interleavings of threads of one process; all paths through each call, including early-return and error paths',
  'Threads interleave in ways a test does not control; the suite runs one thread per process, so an unlocked or doubly locked path behaves identically.',
  ['global/src/onesided.c', 'global/src/nbutil.c', 'global/src/base.c', 'global/src/thread-safe.c'],
  [('process-wide mutex', 'global/src/thread-safe.c GA_Internal_Threadsafe_Lock'), ('lock/unlock pairs', 'global/src/onesided.c pnga_put/get/nbput/nbget/acc')],
  'typestate analysis over CFG + call graph', 'Assumes communication below the lock terminates; initialisation and termination are called from one thread.')
P('C01', 'Accumulate updates are applied under the owner\'s lock in the multi-writer ports',
  'In the runtimes where several processes or threads can apply accumulates to the same memory (progress-rank, progress-thread and multi-thread runtimes), every accumulate is applied while holding the lock that belongs to the process owning the target memory. The lock is released on every path before the call returns and is never acquired twice.',
  ['schedules'], 'all interleavings of local and remote accumulates on one owner\'s memory',
  'A lost update needs two updates of the same element to overlap in time within a few instructions; tests hit that at random or never.',
  PORTS[:3], [('per-owner semaphore', 'comex/src-mpi-pr/comex.c nb_acc, _acc_handler'), ('semaphore table', '_comex_init')],
  'lockset dataflow on LLVM IR', 'Assumes the switches selecting the local-update shortcut do not change after initialisation, and POSIX semaphores/mutexes are correct.')
P('C02', 'Read-modify-write returns the old value and stores the new one indivisibly',
  'A fetch-and-add returns the value the target held immediately before and leaves old plus increment there; a swap returns the old value and leaves the caller\'s value. Both act at the operand width the caller asked for (32 or 64 bit), on the target the caller named, within a single server step or a single atomic MPI operation, in all five runtimes.',
  ['schedules', 'inputs'], 'all operation codes, widths, targets, and interleavings of concurrent read-modify-writes',
  'Tests use one counter with small 32-bit values; wrong widths, swapped old/new values of rarely used operations and split read/write only show for large values or contention.',
  PORTS + ['global/src/onesided.c', 'comex/src-armci/armci.c'], [('client', 'comex_rmw'), ('server handlers', '_fetch_and_add_handler, _swap_handler'), ('mpi3', 'MPI_Fetch_and_op in comex_rmw')],
  'constant specialisation + value-flow analysis', 'Assumes one server handles messages of an owner one at a time. A 64-bit increment passed through the int argument of the ARMCI layer is truncated: recorded finding.')
P('C03', 'Accumulate applies dst = dst + scale*src for exactly the type requested',
  'For each of the six accumulate element types and each transfer form (contiguous, strided, vector), the data is combined at the target as that same type: the scale factor travels with that type\'s size, reaches the matching arithmetic, and the arithmetic is target plus source times scale (complex multiplication for the complex types). No type is handled as another type or dropped on any route in any of the five runtimes.',
  ['inputs', 'configurations'], 'all element types x transfer forms x runtimes x local/remote routes',
  'The product of types, forms, routes and five runtimes is large; tests exercise a few types on the default runtimes.',
  PORTS + ['comex/src-common/acc.h'], [('operation codes', 'nb_acc*, header operation'), ('server dispatch', '_progress_server / _acc_handler'), ('kernel', 'comex/src-common/acc.h _acc')],
  'partial evaluation (SCCP) per datatype + symbolic polynomial comparison of kernels', 'Exact real arithmetic is compared as polynomials; floating-point rounding is not.')
P('C04', 'Fences and barriers complete every earlier update',
  'Every put or accumulate sent to another process marks that destination as needing a fence, and a fence of a process (or of all) sends a fence request to every marked destination and waits for its acknowledgement before clearing the mark or returning. A barrier fences everything before it synchronises, and direct shared-memory access to a process is preceded by fencing outstanding messages to it.',
  ['schedules', 'histories'], 'all sequences of updates, fences, barriers and direct accesses to any destinations, under any message timing',
  'A missed fence is visible only if the update is still in flight when the reader looks; on a fast idle host it practically never is.',
  PORTS, [('fence marks', 'fence_array in nb_put*/nb_acc*'), ('fence loop', '_fence_master, comex_fence_all'), ('barrier', 'comex_barrier')],
  'typestate + loop-coverage analysis on LLVM IR', 'Assumes messages between two processes are not overtaken (MPI) and the server handles one at a time.')
P('C05', 'Requests and replies of the data-server protocol match for every operation',
  'Every operation a compute process can send to a data server is recognised there and handled by a routine that receives exactly the payload messages the sender posts and sends exactly the replies the sender waits for, addressed to the requester. No operation leaves a message unreceived or a process waiting for a reply that is never sent.',
  ['histories', 'inputs', 'configurations'], 'all operation codes, message sequences and paths of both sides, in the three client/server runtimes',
  'Unbalanced messages on a rarely used operation show up as a hang or as corruption of a later, unrelated operation; tests do not exercise every operation and path.',
  PORTS[:3], [('client senders', 'nb_send_header + nb_send_buffer/nb_recv'), ('server loop', '_progress_server'), ('handlers', '_put_handler ... _unlock_handler')],
  'message-count dataflow (protocol conformance) between sender and handler', 'The byte arithmetic of chunked transfers is not compared. Assumes MPI ordering.')
P('C07', 'A mutex has one holder, passes to the next waiter, and is the one asked for',
  'A mutex is granted only when it is free, exactly one grant is sent for it, further requesters are queued without losing earlier ones, and an unlock hands it to the first waiter or frees it. Lock and unlock of the same mutex number always act on the same mutex, different numbers on different ones.',
  ['schedules', 'histories'], 'all interleavings of lock and unlock requests by any number of processes on any mutexes',
  'Lost waiters and double grants need particular arrival orders of three or more requests.',
  PORTS + ['global/src/base.c'], [('server lock/unlock', '_lock_handler, _unlock_handler'), ('mpi3 wait list', 'comex_lock/comex_unlock'), ('GA mutex numbering', 'global/src/base.c pnga_lock/pnga_unlock')],
  'typestate + value-flow analysis of handlers; sibling consistency of index expressions', 'Assumes the server handles one message at a time; deadlock of user programs and fairness are not covered.')

P('C06', 'Blocking calls complete; a handle completes its operation; test is truthful',
  'A blocking one-sided call returns only when the communication it started has completed. A non-blocking call gives the caller the handle of exactly that operation; waiting on it returns only when all its messages have completed and the received data has been delivered, and testing it reports completion only in that case and drives the operation forward. A wait for everything covers every handle.',
  ['schedules', 'histories'], 'all message timings, all numbers of outstanding handles, all chunked/strided/vector transfer forms',
  'Early return is invisible when messages arrive at once, as they do on one idle node; tests never hold a message back.',
  PORTS + ['global/src/nbutil.c', 'comex/src-armci/armci.c'], [('handle pool', 'nb_wait_for_handle, nb_wait_for_all'), ('delivery', 'nb_wait_for_recv1'), ('polling', 'comex_test, nb_test_for_all'), ('GA requests', 'global/src/nbutil.c nga_wait_internal')],
  'path-sensitive typestate analysis of handles and request lists', 'Assumes MPI request semantics.')

P('C08', 'One-sided transfers reach the named process at the addresses and layout given',
  'Every form of put, get and accumulate (contiguous, strided, vector; blocking and non-blocking), on every transfer route, moves data from the source to the destination the caller gave, in that direction, to or from the named process. The local side is walked with the local strides, the remote side with the remote strides, the length is the one the caller gave, and the serving process touches only the address requested, in the memory of the process it was requested for.',
  ['inputs', 'configurations'], 'all transfer forms of five runtimes, every protocol route (direct, packed, datatype, per-row, vector), all argument values',
  'Tests use equal strides on both sides, few routes and few processes per node, so a swapped side or owner is often invisible.',
  PORTS + ['comex/src-armci/armci.c'], [('client routes', 'nb_put, nb_puts_packed, nb_puts_datatype, nb_getv_packed, ...'), ('server handlers', '_put_handler, _get_iov_handler, ...'), ('forwarding', 'PARMCI_PutS, PARMCI_AccV, ...')],
  'interprocedural data-provenance analysis of every data-movement event', 'The order of elements inside one strided or vector transfer is not decided.')

P('C09', 'Reductions, selections and broadcasts use the right op, type, count, group',
  'A global reduction, whether a program or the library itself asks for it, combines exactly the caller\'s elements, of the caller\'s type and count, with the operation it names, over the processes of the given (or default) group, and leaves the result with each of them; absolute values are taken of all elements exactly for absmax and absmin, and an unknown operation or type is fatal. A selection returns to every process the payload of a process that contributed the smallest or largest value, whatever the others hold. A broadcast sends exactly the caller\'s bytes from the given root, counted in the numbering of that group, and each of these serves one-sided requests until the whole group has arrived.',
  ['inputs', 'configurations'], 'all operations, element types, lengths, groups, roots, scopes and contribution patterns',
  'Tests reduce sums of a few types over the world group with one length; operations, types, lengths above the chunk size and groups vary independently.',
  ['comex/src-armci/message.c', 'global/src/collect.c'],
  [('reductions', 'comex/src-armci/message.c armci_msg_*gop, do_gop, armci_msg_reduce*'), ('selection', 'armci_msg_sel_scope'), ('broadcast', 'armci_msg_bcast_scope, armci_msg_group_bcast_scope, pnga_msg_brdcst'), ('dispatch', 'global/src/collect.c pnga_gop, pnga_pgroup_gop, gai_*gop')],
  'sparse conditional constant propagation per (operation, type, scope) + reaching-definition rules on LLVM IR', 'The MPI library implements its collectives. The arithmetic of unknown MPI operations is not modelled; ARMCI scopes spanning several nodes are checked for agreement only.')

P('G01', 'Collectives synchronise before and after; a sync mask lasts for one call',
  'Unless masked, a collective operation on global arrays synchronises its processes before its first access to array data, and synchronises again after its last access before it returns successfully. GA_Mask_sync affects exactly the next collective: both masks are captured and switched back on before any nested operation could consult them, and on every return.',
  ['schedules', 'histories'], 'all collective operations, all paths through them, all mask settings and all process timings',
  'A missing opening or closing synchronisation is a race: on an idle node the processes stay close enough together that tests pass.',
  ['global/src'], [('masks', '_ga_sync_begin, _ga_sync_end (base.c, globalp.h)'), ('collectives', 'local_sync_begin/local_sync_end in 74 pnga_* functions'), ('setter', 'pnga_mask_sync')],
  'path-sensitive typestate analysis of mask flags, synchronisations and data accesses', 'pnga_dot_patch and pnga_select_elem end in a global reduction instead of a closing synchronisation. Returns with a failure result are not required to synchronise.')

P('G02', 'No collective is reached by only some of the processes',
  'Whether a process takes part in a barrier, broadcast, reduction or collective allocation does not depend on its rank or on data only it holds: wherever the library branches on such a condition, both ways make the same sequence of collective calls. So a program that calls a collective operation on all processes never leaves some of them waiting for ones that returned early.',
  ['inputs', 'schedules', 'configurations'], 'all GA, disk-array and shared-file operations, all process counts, data distributions and patch shapes',
  'A divergent collective hangs only for a distribution in which the condition really differs between processes (empty blocks, failed allocation on one process); tests use a few regular distributions.',
  ['global/src', 'pario/dra', 'pario/sf', 'comex/src-armci'], [('collective entry points', '767 functions reaching a barrier, broadcast, reduction or collective allocation'), ('agreement', 'pnga_gop on status/compatible flags')],
  'interprocedural taint (rank dependence, data and control) + collective-sequence matching on the CFG', 'Shared tables other than the listed per-process fields are taken as replicated; equal process counts per node are assumed for mirrored arrays. Three conditions that cannot differ between processes are accepted, with reasons in evidence.')

P('G03', 'GA sync and GA fence complete the caller\'s updates',
  'GA_Sync and GA_Pgroup_sync fence every process of the group before the barrier of that same group, on every path, so an update issued before the call is visible to every member after it. GA_Fence waits for every process to which a put, accumulate, scatter or strided/non-blocking update was sent since GA_Init_fence, whatever combination of operations was used.',
  ['schedules', 'histories'], 'all sequences of updates between fences, all groups, all message timings',
  'A missing fence mark or a fence of the wrong processes shows only while an update is still in flight; on an idle host it never is.',
  ['global/src/onesided.c', 'global/src/collect.c', 'comex/src-armci/armci.c', 'comex/src-armci/message.c'],
  [('sync', 'global/src/onesided.c pnga_sync, pnga_pgroup_sync'), ('fence marks', 'fence_array in ngai_put_common, ngai_acc_common, pnga_scatter2d, gai_gatscat_new, ngai_strided_put'), ('fence', 'pnga_fence')],
  'must-precede (typestate) and loop-coverage analysis on LLVM IR', 'Whether the runtime\'s fence and barrier themselves complete the updates is property C04.')

P('G04', 'Arrays on processor groups use each rank in its own numbering',
  'For an array that lives on a processor group, every one-sided operation addresses processes by world rank, while the per-array tables (data pointers, distribution, block and grid positions) are indexed by rank within the array\'s group. No operation passes a rank of one numbering where the other is required, or translates it twice or not at all.',
  ['configurations', 'inputs'], 'all processor groups (any members in any order), all distributions (regular, irregular, block-cyclic, restricted) and all operations',
  'On the world group both numberings coincide, and on groups starting at rank 0 they coincide too; tests use mostly those.',
  ['global/src'], [('translation tables', 'proc_list_t.inv_map_proc_list / map_proc_list (global/src/base.c)'), ('transfers', 'global/src/onesided.c, global/src/ghosts.c'), ('iterator', 'global/src/iterator.c gai_iterator_next')],
  'interprocedural value-domain (rank numbering) analysis after specialisation to group arrays', 'A collective on a group array is assumed to be called with that group as the default group (library convention). Ranks received from the caller are assumed to be in the numbering documented for that argument.')

P('G05', 'Typed operations treat every element type alike',
  'An array operation that depends on the element type computes the same formula for int, long, float and double elements, and the same formula for single and double complex, reading and writing elements of the type\'s own size (absolute values, reciprocals, additions, scaling, fills, dot products, norms, diagonals, copies, selections, reductions). When it hands the type to a lower layer - accumulate operation, reduction type and length, read-modify-write, matrix-multiply kernel, element size, Fortran index base - the code passed is the one of that type.',
  ['inputs', 'configurations'], 'all element types, all arrays and all values in them',
  'Tests run most operations on double only, and with values that do not tell a wrong width or formula apart.',
  ['global/src'], [('element kernels', 'global/src/elem_alg.c, global.npatch.c, global.nalg.c, matrix.c, base.c, select.c, sparse.array.c'), ('type codes', 'global/src/onesided.c ARMCI_ACC_*, collect.c pnga_gop, matmul.c *gemm, base.c GAsizeof'), ('index bases', 'pnga_access_idx and friends')],
  'per-type specialisation (constant propagation) + symbolic normal forms of stored values compared between types', 'Index arithmetic is not compared; an error shared by all types of a group is not seen.')

P('A01', 'API entry points forward to the operation of their name, arguments in role',
  'Every C, Fortran and C++ entry point (and those of the disk-array, file, memory, TCGMSG and ARMCI layers) calls the operation of its name on every path, passes each of its arguments on in the role that argument has, and hands back what the operation returns or writes. C index bounds are reversed and shifted by one while extents, leading dimensions and grids are reversed only, for the rank of the array they describe; Fortran scalar pairs fill each element of a bounds array once; results go back through the inverse conversion. The 32- and 64-bit variants, the GA_/NGA_ aliases and the C++ overloads of one call behave alike, and entry points for one element type accept arrays of that type and no other.',
  ['inputs', 'programs'], 'all ~1,600 public entry points, all ranks of arrays and all argument values',
  'Each wrapper is its own code; tests call a fraction of them, mostly the double-precision 2-D ones with symmetric bounds.',
  ['global/src/capi.c', 'global/src/fapi.c', 'ga++/src', 'pario/dra/capi.c', 'pario/eaf', 'pario/sf', 'ma/f2c.c', 'tcgmsg', 'comex/src-armci/capi.c'],
  [('C', 'global/src/capi.c COPYINDEX_C2F/COPYC2F and the wnga_ calls'), ('Fortran', 'global/src/fapi.c sga_* / pnga_ calls'), ('C++', 'ga++/src/GlobalArray.cc, GAServices.cc, services.cc, PGroup.cc'), ('other layers', 'pario/dra/capi.c, eaf_f2c.c, sf_capi.c, ma/f2c.c, tcgmsg/capi.c')],
  'symbolic summaries of wrappers over LLVM IR (array contents as closed-form copies), role and sibling comparison', 'Roles come from parameter names. Array conversions not written as plain copies are compared only by the parameters they use (counted in evidence).')

# ---- not applicable -------------------------------------------------------------------------------------------------
P('R01', 'What an operation acquires for itself is given back exactly once',
  'Memory, MA stack and heap blocks, work space, temporary global arrays, MPI datatypes, groups and communicators, streams, directories and patch iterators that an operation acquires for its own use have been given back when it returns, on every path through it, exactly once and by the matching release. Nothing is touched after it was given back, and no holder is overwritten while it holds something. Only what is stored in a library structure or handed to the caller outlives the operation.',
  ['histories', 'inputs', 'fault_sequences'], 'all functions of GA, ARMCI, ComEx ports, disk arrays, shared files, MA and TCGMSG and all paths through them, including early exits and failures',
  'A leak on a path taken once does not fail a test, and a double release or a use after release usually goes unnoticed in a short run; long-running programs exhaust memory, the MA stack, array handles or MPI objects.',
  ['global/src', 'comex/src-common', 'comex/src-armci', 'pario', 'ma', 'tcgmsg'],
  [('memory', 'malloc, calloc, realloc, strdup, operator new'), ('work space', 'pnga_malloc/pnga_free, MA_push_get/MA_pop_stack, ARMCI_Malloc_local'), ('arrays', 'pnga_duplicate, pnga_create_handle, pnga_create / pnga_destroy'), ('MPI objects', 'MPI_Type_*, MPI_Comm_*, MPI_Group_*'), ('iterators', 'gai_iterator_init/gai_iterator_destroy')],
  'path-sensitive ownership typestate with interprocedural parameter summaries (borrow/keep/release) on LLVM IR',
  'What is stored in a library structure or handed over is released by the code that owns the structure; not followed here. Branches are correlated through constants, repeated comparisons and the outcome of the acquisition; arithmetic on loop counters is not. Functions with too many path combinations are skipped and counted.')
P('V01', 'A region outside the array is refused before any remote data is touched',
  'Put, get, accumulate (blocking, non-blocking, strided, field and notify forms), fetch-and-increment, and the region forms of the element-wise, reduction and multiplication operations transfer array data only after every dimension of the requested region has been found to lie inside the array (get_ghost_block: inside the block with its ghost cells); otherwise the program is stopped with an error. Locating an element or region succeeds only for a live handle and a non-empty region inside the array, for every distribution, and a failed location is noticed by the caller, which then neither moves data nor uses the owner. Direct access to a region is granted only when its corners are located and it is not empty.',
  ['inputs', 'configurations', 'programs'], 'all regions, dimensions, distributions and handles given to these operations, and all paths through them',
  'Tests use valid regions; an unchecked bound overwrites memory of another process silently and only for some distributions or dimensions.',
  ['global/src/base.c', 'global/src/iterator.c', 'global/src/onesided.c', 'global/src/matmul.c', 'global/src/global.npatch.c', 'global/src/elem_alg.c'],
  [('location', 'pnga_locate, pnga_locate_region, pnga_locate_nnodes'), ('iteration', 'gai_iterator_init'), ('direct checks', 'ga_RegionError, gam_CheckDim, ngai_inner_patch checks')],
  'path-sensitive collection of bound comparisons over all-dimension loops, with callee summaries, on LLVM IR',
  'The strength is that a comparison against the right bound is made for every dimension before the transfer; that the offsets computed afterwards stay inside is X01. Purely local patch operations clip to the own block and carry no obligation.')
P('D01', 'Destroying a handle gives back everything it holds, once',
  'Every successful destruction of a global array, processor group, sparse array or patch iterator, and every deallocation of an array, gives back each resource the handle holds: memory, process and block maps, restriction lists, cached reads, saved maps and groups of the read-only mode, communication groups and component arrays. Each is given back exactly once and only for a handle that is in use, so destroying twice or destroying an array that was never allocated does no harm. Nothing is used after it was given back, and no pointer to it stays in the table.',
  ['histories', 'configurations'], 'all histories of create, allocate, set, deallocate and destroy calls, all kinds of arrays and all paths through the destroy functions',
  'Tests create and destroy plain arrays once; leaks, second releases and uses of released entries depend on modes and call orders they do not combine, and mostly do not crash at once.',
  ['global/src/base.c', 'global/src/iterator.c', 'global/src/sparse.array.c'],
  [('arrays', 'pnga_destroy, pnga_deallocate (base.c)'), ('groups', 'pnga_pgroup_destroy'), ('sparse arrays', 'pnga_sprs_array_destroy'), ('iterators', 'gai_iterator_destroy')],
  'path-sensitive typestate of each resource-holding field with mode correlation on LLVM IR',
  'Which fields hold resources is a table in the check (with the modes in which a field is unused); calls that overwrite a list a handle already has are not covered. Early returns that report failure are excluded.')
N('X01', 'Transfers move exactly the requested section', 'A put, get, accumulate, gather or scatter of any section reads and writes exactly the elements of that section, each to or from its own position in the caller\'s buffer, for every distribution.',
  ['inputs', 'configurations'], 'all sections, distributions, strides and buffers', 'The index arithmetic has unboundedly many cases; tests use a few regular shapes.',
  ['global/src/onesided.c', 'global/src/iterator.c'], [('offset arithmetic', 'gam_Loc_ptr, gam_ComputePatchIndex, gai_iterator_next')],
  'Functional correctness of nested index arithmetic over runtime shapes, block sizes and process grids: needs inductive proof over integer values (a solver or proof assistant), which a dataflow abstraction cannot decide. Structural parts (types, numbering, target process, fences) are covered by C03, C05, G03, G04.')
N('X02', 'Dense linear algebra returns the mathematical result', 'Matrix multiply, transpose, dot, add, scale, solve and diagonalise on distributed arrays give the result of the sequential definition up to rounding, for all shapes, patches and distributions.',
  ['inputs', 'configurations'], 'all matrices, patches, transposition flags and distributions', 'Finite samples of matrices and distributions.',
  ['global/src/matmul.c', 'global/src/global.npatch.c', 'global/src/elem_alg.c'], [('kernels', 'pnga_matmul, pnga_dot_patch, pnga_elem_*')],
  'Numerical results over runtime data and shapes; no sound static argument in reach decides blocked matrix algorithms.')
N('X03', 'Every element has exactly one owner and locate agrees with it', 'The blocks reported by the distribution query partition the array, and locating an index names the process whose block contains it.',
  ['configurations', 'inputs'], 'all dimensions, process counts, chunk sizes and distribution kinds', 'Only a handful of process counts and dimensions run.',
  ['global/src/decomp.c', 'global/src/base.c'], [('decomposition', 'ddb_h1, ddb_h2, pnga_distribution, pnga_locate')],
  'A bijection statement over runtime block maps (heuristic decomposition); it depends on integer arithmetic of unbounded values, beyond dataflow abstractions.')
N('X04', 'Blocking operations make progress under every schedule', 'A program that uses locks, fences and collectives correctly never deadlocks inside the library, whatever the message timing.',
  ['schedules'], 'all schedules and message timings', 'A test runs one schedule.', PORTS, [('progress engine', '_progress_server, comex_make_progress')],
  'Liveness over MPI progress semantics and unbounded message buffering: static analysis can only decide the matching structure (C05, G02, C07), not progress itself.')
N('X05', 'Disk arrays return what was written', 'Data written to a disk-resident array section, in any chunking, is returned unchanged by any later read of overlapping sections, after reopening too.',
  ['histories', 'inputs'], 'all sequences of section writes and reads, all chunk layouts', 'Tests write and read a few sections.', ['pario/dra/disk.arrays.c'], [('section to file mapping', 'dai_* functions')],
  'File offset arithmetic over runtime shapes and contents of external storage; not decidable by dataflow or typestate abstractions.')
N('X06', 'Local allocator never hands out overlapping blocks', 'Blocks allocated from the local memory allocator never overlap and freeing merges them without losing space.',
  ['histories', 'inputs'], 'all sequences of allocations and frees', 'Long allocation histories are not sampled.', ['ma/ma.c'], [('free list', 'block_split, list_insert, ma_pushed and heap management in ma.c')],
  'Shape and arithmetic invariant of a heap-allocated free list; needs separation-logic or bounded exploration, not available as a sound static analysis here.')
