# The properties: (id, title, statement, over, text, why, files, mechanism, observe_at)
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe))))


p("C01", "Disjoint pool blocks are aligned, usable, disjoint and fully returned",
  "Every block a disjoint pool hands out is aligned as requested, lies entirely (its whole reported usable size) inside memory obtained from its "
  "provider, and never overlaps another live block or changes what is stored in one, for every setting of the pool's parameters. A request is refused "
  "only when it cannot be served, with an error that says why; freed blocks are reusable; destroying the pool gives every byte back to the provider "
  "with the size it was obtained with.",
  "inputs histories configurations", "all pool parameters, request sizes and alignments up to overflow, and histories of allocate/free/inspect over every host provider",
  "The tests use two parameter sets and a handful of sizes; slab layouts, bucket boundaries and large alignments depend on all parameters together.",
  ["src/pool/pool_disjoint.c", "src/pool/pool_disjoint_internal.h"],
  [("buckets, slabs, chunk bitmap", "src/pool/pool_disjoint.c: create_slab, bucket_get_free_chunk, slab_get_chunk, slab_free_chunk"),
   ("aligned requests", "src/pool/pool_disjoint.c: disjoint_pool_aligned_malloc"),
   ("size classes", "src/pool/pool_disjoint.c: size_to_idx, disjoint_pool_initialize")],
  ["umfPoolMalloc", "umfPoolAlignedMalloc", "umfPoolFree", "umfPoolMallocUsableSize", "calls into the provider"])

p("C02", "The malloc family of the scalable and proxy pools keeps its contracts",
  "Blocks from the scalable and the proxy pool are aligned as requested, disjoint from every live block and keep what is stored in them; calloc "
  "returns zeroed memory and refuses sizes whose product overflows; realloc keeps the common prefix and leaves the old block alone when it fails. "
  "A failed request returns NULL and leaves an error that says why, unsupported operations say so, and destroying the pool returns all memory to the provider.",
  "inputs histories fault_sequences", "all histories of the malloc family with generated sizes and alignments, over host providers that may run out of memory at any call",
  "The tests run fixed scripts with small fixed sizes and never exhaust the provider in the middle of a history.",
  ["src/pool/pool_scalable.c", "src/pool/pool_proxy.c", "src/memory_pool.c"],
  [("malloc family on TBB", "src/pool/pool_scalable.c"), ("pass-through pool", "src/pool/pool_proxy.c")],
  ["umfPoolMalloc/Calloc/Realloc/AlignedMalloc/Free", "umfPoolGetLastAllocationError"])

p("C03", "Shared limits bound the memory cached by disjoint pools, and balance",
  "The memory that disjoint pools keep cached for reuse never exceeds the limit they share nor the per-size-class capacity configured, at any point of any "
  "history of any number of pools. Memory a pool may not cache goes back to its provider at once, and destroying a pool gives its share of the limit back to the others.",
  "histories configurations", "all histories over several pools with common and separate limits, limits from 0 up, capacities from 0 up",
  "The tests check one pool pair with one limit; the accounting is global state that drifts over long histories.",
  ["src/pool/pool_disjoint.c"],
  [("shared limits accounting", "src/pool/pool_disjoint.c: umfDisjointPoolSharedLimits*, bucket_can_pool, bucket_decrement_pool")],
  ["bytes the pool holds from its provider"])

p("C05", "A pointer always resolves to the pool that owns the innermost live block",
  "For every address, looking up its pool gives the pool that owns the innermost live block around it, and no pool when no live block contains it, also when pools are nested "
  "in blocks of other pools and when provider blocks are split and merged. Freeing by pointer frees in exactly that pool; when an upstream provider refuses to free, split or "
  "merge, the ownership stays as it was.",
  "histories inputs fault_sequences", "all histories of allocate, free, split, merge and nesting (up to the supported depth), with upstream refusals, and all addresses in and around blocks",
  "The tests look up a few addresses in one or two pools; nesting with splits and merges and refusals is not sampled.",
  ["src/provider/provider_tracking.c", "src/memory_pool.c", "src/critnib/critnib.c"],
  [("address map with levels", "src/provider/provider_tracking.c: umfMemoryTrackerAdd/Remove/GetAllocInfo"),
   ("split and merge", "src/provider/provider_tracking.c: trackingAllocationSplit, trackingAllocationMerge")],
  ["umfPoolByPtr", "umfFree", "umfMemoryTrackerGetAllocInfo"])

p("C06", "The coarse block manager hands out disjoint ranges and loses none",
  "Ranges handed out by the coarse block manager are aligned as requested, lie inside the memory it manages, never overlap, and together with its free ranges always add up to that "
  "memory, whichever fit strategy is used. Splitting, merging and freeing change exactly the ranges named, free neighbours are joined again, and a refused operation or failing callback leaves everything as it was.",
  "histories inputs configurations fault_sequences", "all histories of alloc/free/split/merge with generated sizes, alignments, strategies, page sizes and callback failures",
  "The tests use fixed sequences with one or two sizes; fragmentation patterns and failing callbacks are not explored.",
  ["src/coarse/coarse.c", "src/ravl/ravl.c"],
  [("block lists and fit strategies", "src/coarse/coarse.c: coarse_alloc, coarse_free, coarse_split, coarse_merge"),
   ("free-block index", "src/coarse/coarse.c: free_blocks_*, src/ravl/ravl.c")],
  ["coarse_alloc/free/split/merge/get_stats"])

p("C14", "The address index behaves as an ordered map, also under concurrency",
  "Inserting, updating, removing, looking up (exactly, or the nearest key below or above) and range iteration over the address index give what an ordered map gives, for all 64-bit keys. "
  "Lookups that run concurrently with inserts and removals of other keys never miss a key that is present throughout, and never return a value under a key it was not stored with. "
  "An insertion refused memory changes nothing, the memory of removed keys is reused, and a deleted index leaves nothing behind.",
  "inputs histories schedules fault_sequences", "all 64-bit key sets and histories; all interleavings of writers and lock-free readers",
  "The tests use a few random keys and check one direction of lookup; the lock-free readers are hardly run against writers.",
  ["src/critnib/critnib.c", "src/critnib/critnib.h"],
  [("radix tree with lock-free readers and delayed reuse", "src/critnib/critnib.c")],
  ["critnib_insert/remove/get/find/find_le/iter"])

p("C15", "The balanced tree behaves as an ordered set, also by position",
  "Inserting, removing, searching by predicate (equal, less, greater and combinations), walking forwards and backwards and visiting all elements of the internal balanced tree give what "
  "an ordered set gives, for elements stored by pointer and in place. Duplicates and elements without memory are refused and change nothing, and memory is held for the present elements only.",
  "inputs histories fault_sequences", "all histories over random, ascending and descending keys and several element sizes",
  "The tests insert a few dozen keys and check few predicates on few shapes.",
  ["src/ravl/ravl.c"], [("rank-balanced tree", "src/ravl/ravl.c")], ["ravl_insert/emplace/find/remove/foreach/successor/predecessor"])

p("C16", "Internal allocators give disjoint blocks and survive failing system calls",
  "Blocks from the library's internal allocators (fixed-size, linear and size-class) are aligned, lie in mapped memory, are disjoint from all live blocks, and are at least as large as asked and reported. "
  "When the system refuses memory or a size cannot be served the request returns NULL and nothing else changes; freed fixed-size blocks are reused, and destroying an allocator unmaps exactly what it mapped.",
  "inputs histories fault_sequences schedules", "all sizes, alignments and histories, any failing mapping, several threads",
  "The tests allocate small blocks that all succeed; growth boundaries, huge sizes and failing mappings are not reached.",
  ["src/base_alloc/base_alloc.c", "src/base_alloc/base_alloc_linear.c", "src/base_alloc/base_alloc_global.c"],
  [("chunk free list", "src/base_alloc/base_alloc.c"), ("bump pools", "src/base_alloc/base_alloc_linear.c"), ("size classes and metadata", "src/base_alloc/base_alloc_global.c")],
  ["umf_ba_*"])

p("C10", "OS provider memory is mapped as asked, accounted for and fully released",
  "Memory from the OS provider is page aligned and aligned as requested, zero filled, accessible with the requested rights and backed by pages no other "
  "live block uses, whatever sizes, alignments, visibility and shared memory names are used; splitting, merging, purging and refused requests leave every "
  "other byte and block as it was, and a request that cannot be met fails with an error and its native cause. "
  "The mapped memory and the reported allocated and peak sizes always match the live blocks, and destroying the provider closes what it opened.",
  "inputs histories configurations fault_sequences schedules", "all histories of alloc/free/split/merge/purge/statistics, private and shared, with refused mmap/munmap calls, and the same from several threads",
  "The tests allocate a few page-sized blocks; odd sizes in shared memory, overflowing sizes, refused system calls and descriptor leaks are not exercised.",
  ["src/provider/provider_os_memory.c", "src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c"],
  [("aligned mappings", "src/provider/provider_os_memory.c: utils_mmap_aligned, os_alloc, os_free"),
   ("shared memory files", "src/provider/provider_os_memory.c: create_fd_for_mmap, os_finalize"),
   ("statistics", "src/provider/provider_os_memory.c: os_alloc, os_free, CTL handlers")],
  ["umfMemoryProviderAlloc/Free/AllocationSplit/AllocationMerge/Purge*", "umfCtlGet stats", "mmap/munmap calls", "/proc/self/maps", "/proc/self/fd"])

p("C08", "Fixed provider hands out disjoint ranges of exactly the given buffer",
  "Every block of the fixed provider lies inside the user's buffer, is aligned as requested, overlaps no live block, and with splitting, merging and freeing the reported allocated and peak sizes follow the live blocks. "
  "A request is refused only when no free range can hold it; refused requests, and creation with an unusable buffer, change nothing, and the provider never writes to, maps or unmaps the user's memory.",
  "inputs histories configurations", "all buffer sizes and start addresses and all histories of alloc/free/split/merge/statistics",
  "The tests use one page-aligned buffer and a handful of blocks.",
  ["src/provider/provider_fixed_memory.c", "src/coarse/coarse.c"],
  [("fixed buffer on the coarse manager", "src/provider/provider_fixed_memory.c"), ("statistics", "src/provider/provider_fixed_memory.c: CTL handlers")],
  ["umfMemoryProviderAlloc/Free/AllocationSplit/AllocationMerge", "umfCtlGet stats"])

p("C09", "File provider memory is the file's bytes, disjoint, and fully released",
  "Every block of the file provider is aligned as requested and backed by its own range of the file: no two live blocks share file bytes or addresses, and in shared mode what is written is in the file at the block's offset, in private mode it is not. "
  "Splitting, merging, freeing and refused or failing system calls change no other block and keep the statistics exact; destroying the provider unmaps and closes everything it opened, and unusable paths or parameters are refused.",
  "inputs histories configurations fault_sequences", "all histories with generated sizes, alignments, visibility, page sizes and failing mmap/munmap/posix_fallocate",
  "The tests allocate a few page-multiple blocks in one file and never make a system call fail.",
  ["src/provider/provider_file_memory.c", "src/coarse/coarse.c"],
  [("file growth and mappings", "src/provider/provider_file_memory.c: file_mmap_aligned, file_alloc_cb"), ("offset map", "src/provider/provider_file_memory.c: file_alloc, file_free, fd_offset_map")],
  ["umfMemoryProviderAlloc/Free/AllocationSplit/AllocationMerge/GetIPCHandle", "file contents", "/proc/self/fd", "mmap/munmap calls"])

p("C28", "DAX provider hands out disjoint ranges of the device and maps it once",
  "Blocks of the DAX provider lie inside the mapped device range, are aligned as requested and disjoint, and statistics follow the live blocks through allocation, splitting, merging and freeing. IPC handles name the block's own device bytes. "
  "Creation fails with an error, leaving nothing mapped or open, when the path, size, protection or any system call is unusable, and destruction unmaps and closes exactly what was mapped.",
  "inputs histories configurations fault_sequences", "all histories of alloc/free/split/merge/IPC on an emulated device, with failing open/mmap/munmap/stat",
  "The tests skip the provider altogether when no DAX device is configured.",
  ["src/provider/provider_devdax_memory.c", "src/coarse/coarse.c"],
  [("device mapping", "src/provider/provider_devdax_memory.c: devdax_initialize, devdax_finalize"), ("IPC offsets", "src/provider/provider_devdax_memory.c: devdax_get_ipc_handle, devdax_open_ipc_handle")],
  ["umfMemoryProviderAlloc/Free/AllocationSplit/AllocationMerge/GetIPCHandle/OpenIPCHandle/CloseIPCHandle", "open/close/mmap/munmap calls"])

p("C18", "Last-error state is per thread and names the call that failed",
  "A failing provider call is afterwards reported, in the thread that made it and in no other, by umfGetLastFailedMemoryProvider and by the provider's native error code and message; successful calls of any thread do not disturb it. "
  "A pool keeps the last allocation error per thread, with the code the provider or pool returned, and asking for errors is safe at any time, also before any call failed.",
  "schedules histories inputs", "all interleavings of failing and succeeding calls of several threads over several providers and pools",
  "The tests make one failing call in one thread and read the error back.",
  ["src/memory_provider.c", "src/libumf.c", "src/pool/pool_disjoint.c", "src/pool/pool_proxy.c", "src/provider/provider_os_memory.c", "src/memory_pool.c"],
  [("last failed provider", "src/memory_provider.c: checkErrorAndSetLastProvider"), ("thread-local allocation errors", "src/pool/*.c: TLS_last_allocation_error"),
   ("native errors", "src/provider/provider_os_memory.c: os_store_last_native_error, os_get_last_native_error")],
  ["umfGetLastFailedMemoryProvider", "umfMemoryProviderGetLastNativeError", "umfPoolGetLastAllocationError"])

p("C30", "User-defined providers and pools get exactly the calls made, unchanged",
  "Each call on a provider or pool made from a user's operation table reaches the corresponding operation exactly once with its arguments, and the operation's result and outputs come back unchanged. "
  "Incomplete operation tables and unusable arguments are refused without calling anything, missing optional operations report NOT_SUPPORTED, the table is copied, and flags such as owning the provider and disabling tracking are honoured at creation, failure and destruction.",
  "inputs configurations histories", "all operation tables, argument values, return codes, flags and call sequences",
  "The tests check a few operations with one argument set and one missing operation at a time.",
  ["src/memory_provider.c", "src/memory_pool.c"],
  [("provider dispatch and default operations", "src/memory_provider.c"), ("pool dispatch and flags", "src/memory_pool.c: umfPoolCreateInternal, umfPoolDestroy")],
  ["umfMemoryProvider*", "umfPool*"])

p("C12", "Opening an IPC handle shows the live bytes of the memory it was taken for",
  "A handle taken for any pointer into a live shared block of any pool opens, in this or another process and through any pool over the same kind of provider, at memory that is the block's own: both sides see each other's writes at the same offsets, also after the blocks were split or merged, and for interior pointers. "
  "Getting, opening and closing handles neither disturbs other blocks nor leaves mappings or descriptors behind, failing system calls are reported as errors, and memory that is not shared yields an error.",
  "inputs histories configurations fault_sequences", "all histories of alloc/free/split/merge and get/open/close of handles over the OS and file providers and all pools, cache limits, consumers in this and other processes, failing mmap",
  "The IPC tests open a handful of handles of freshly allocated blocks in one fixed order.",
  ["src/ipc.c", "src/ipc_cache.c", "src/provider/provider_tracking.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c"],
  [("handles", "src/ipc.c: umfGetIPCHandle, umfOpenIPCHandle, umfCloseIPCHandle"), ("offsets into the file", "src/provider/provider_os_memory.c: os_get_ipc_handle, os_open_ipc_handle; src/provider/provider_file_memory.c: file_get_ipc_handle, file_open_ipc_handle")],
  ["umfGetIPCHandle/PutIPCHandle/OpenIPCHandle/CloseIPCHandle", "memory contents", "/proc/self/fd", "mmap/munmap calls"])

p("C13", "IPC handle caching never hands out a stale or foreign mapping",
  "However handles are cached, each open yields a mapping of the memory the handle was taken for, made through the provider of the pool it is opened with; a mapping stays valid until the last matching close and is closed exactly once, by that same provider, with the arguments it was opened with. "
  "UMF_MAX_OPENED_IPC_HANDLES bounds the unused mappings kept, provider handles are created once per block and released before the block is freed, split or merged, and failed opens leave nothing, not even memory, behind - in all sequences and with concurrent threads.",
  "inputs histories schedules configurations fault_sequences", "all histories and interleavings of get/put/open/close with frees, address reuse, several pools, cache limits and failing provider calls",
  "The tests open and close a few handles with an unlimited cache and well-behaved providers.",
  ["src/ipc.c", "src/ipc_cache.c", "src/provider/provider_tracking.c"],
  [("opened-handle cache", "src/ipc_cache.c: umfIpcOpenedCacheGet"), ("handle cache", "src/provider/provider_tracking.c: trackingGetIpcHandle, trackingFree, trackingOpenIpcHandle, trackingCloseIpcHandle")],
  ["umfGetIPCHandle/PutIPCHandle/OpenIPCHandle/CloseIPCHandle", "calls received by the provider"])

p("C17", "A CTL query reaches exactly the entry its dotted name spells",
  "A query or configuration setting acts on the one entry that its dotted name, indexes and kind of access spell out: that entry's handler gets the argument, the indexes in order and the handle of the named provider or pool, and its result is the query's result. "
  "Any other name is refused without calling or changing anything, configuration strings and files apply exactly the well-formed settings they contain in order up to the first error, malformed or truncated ones are refused without reading outside the text, and statistics read through CTL equal what was allocated, freed and reset.",
  "inputs histories configurations", "all trees of entries, names, indexes, configuration texts, argument values and histories of queries through handles",
  "The tests parse a few fixed names and configuration strings over one small tree.",
  ["src/ctl/ctl.c", "src/libumf.c", "src/provider/provider_os_memory.c", "src/pool/pool_scalable.c", "src/memory_provider.c", "src/memory_pool.c"],
  [("name lookup and configuration parsing", "src/ctl/ctl.c: ctl_find_node, ctl_query, ctl_parse_query, ctl_load_config"), ("entries of providers and pools", "src/provider/provider_os_memory.c: CTL handlers; src/pool/pool_scalable.c")],
  ["umfCtlGet/umfCtlSet/umfCtlExec", "arguments and calls received by handlers", "ctl_load_config_from_string/file"])

p("C22", "Pools, providers and lookups may be used from any number of threads",
  "Any number of threads may at once allocate, free (also each other's blocks), query and look up memory of the same pools and providers, while other pools are made and destroyed, and observe the same guarantees as a single thread: live blocks stay disjoint, intact and attributed to their pool, every free of a live block succeeds and releases each provider block exactly once, and limits and statistics balance in the end. "
  "No operation reads or writes data of the library that another thread is changing without synchronisation.",
  "schedules inputs histories configurations", "all interleavings of pool, provider and lookup calls, with pools over mock, OS, fixed and file providers, shared limits, nested pools and failing providers",
  "The multithreaded tests run one fixed allocation loop per pool and check only that the blocks are not NULL.",
  ["src/pool/pool_disjoint.c", "src/pool/pool_proxy.c", "src/pool/pool_scalable.c", "src/provider/provider_tracking.c", "src/provider/provider_os_memory.c", "src/coarse/coarse.c", "src/base_alloc/base_alloc.c"],
  [("slab and bucket locks", "src/pool/pool_disjoint.c: bucket_lock, known_slabs_lock"), ("tracker updates and lookups", "src/provider/provider_tracking.c: umfMemoryTrackerAddAtLevel, umfMemoryTrackerGetAllocInfo"), ("coarse provider lock", "src/coarse/coarse.c: lock")],
  ["umfPoolMalloc/umfPoolFree/umfFree/umfPoolByPtr", "umfMemoryProvider*", "ThreadSanitizer reports"])

p("C11", "NUMA placement follows the configured mode, nodes and partitions exactly",
  "On any machine topology, every page of an OS-provider allocation is bound, by the mode, node set, interleaving parts or split weights the provider was created with, to exactly the configured nodes, before the memory is handed out; nothing outside the allocation is bound. "
  "Parameters that describe no possible placement are refused at creation, and a binding the system refuses fails the allocation with a native error and leaves no memory, node set or mapping behind.",
  "inputs configurations fault_sequences histories", "all topologies, NUMA modes, node lists, part sizes, split weights, allocation sizes and alignments, refused bindings and memory running out",
  "The tests bind on the nodes of the test machine (usually one) and look at one or a few pages.",
  ["src/provider/provider_os_memory.c", "src/topology.c"],
  [("node sets and partitions", "src/provider/provider_os_memory.c: initialize_nodeset, initialize_partitions, translate_params"), ("binding", "src/provider/provider_os_memory.c: os_alloc, membindFirst, membindNext")],
  ["umfMemoryProviderCreate/Alloc/Free", "hwloc_set_area_membind calls", "mmap/munmap calls"])

p("C20", "A memspace is a set of memory targets that changes only as asked",
  "Creating, cloning, adding to, removing from and filtering memspaces give exactly the set of targets that set arithmetic gives, on any topology, including the empty set; duplicates and targets that are not there are refused, each target has the id, type and capacity the machine describes, and clones are independent. "
  "A refused or failed operation, also for lack of memory or because the filter failed, leaves the memspace as it was and loses nothing.",
  "inputs histories configurations fault_sequences", "all topologies and histories of memspace operations over several memspaces, with failing filters and memory running out",
  "The tests add, remove and filter a few targets of the nodes of the test machine.",
  ["src/memspace.c", "src/memtarget.c", "src/memspaces/memspace_numa.c", "src/memtargets/memtarget_numa.c"],
  [("set operations", "src/memspace.c: umfMemspaceClone, umfMemspaceMemtargetAdd, umfMemspaceMemtargetRemove, umfMemspaceFilterHelper"), ("NUMA targets", "src/memtargets/memtarget_numa.c; src/memspaces/memspace_numa.c")],
  ["umfMemspace*", "umfMemtarget*", "memory owned by the library"])

p("C21", "Predefined memspaces and memory policies place memory where they say",
  "On any topology host-all holds every NUMA node, highest-capacity is sorted by capacity with the largest first, and highest-bandwidth and lowest-latency hold exactly a best target for each node as initiator by the machine's own attributes, or do not exist when it describes none. "
  "A provider made from a memspace and a policy binds each allocation exactly as the policy (bind, preferred, interleave with part size, split with the partitions given at the time they were set) says over the memspace's targets, and policies and memspaces are refused or destroyed without losing memory.",
  "inputs configurations fault_sequences", "all topologies with and without memory attributes, all memspaces, policies, part sizes and partitions, memory running out",
  "The tests run on the test machine's topology, usually one node without memory attributes, and skip most of these memspaces.",
  ["src/memspaces/memspace_host_all.c", "src/memspaces/memspace_highest_capacity.c", "src/memspaces/memspace_highest_bandwidth.c", "src/memspaces/memspace_lowest_latency.c", "src/memtargets/memtarget_numa.c", "src/mempolicy.c", "src/memspace.c"],
  [("best targets", "src/memspace.c: umfMemspaceFilter, umfMemspaceSortDesc; src/memtargets/memtarget_numa.c: query_attribute_value"), ("policies", "src/mempolicy.c; src/memtargets/memtarget_numa.c: numa_memory_provider_create_from_memspace")],
  ["umfMemspaceHostAllGet/HighestCapacityGet/HighestBandwidthGet/LowestLatencyGet", "umfMempolicy*", "hwloc_set_area_membind calls"])

p("C25", "The proxy library serves a whole program's allocations",
  "A program preloaded with the proxy library, under any setting of UMF_PROXY, gets from malloc, calloc, realloc, aligned_alloc, posix_memalign-like calls, new and free before, in and after main, on any thread, what the C standard promises: disjoint, suitably aligned, writable blocks with their content kept until freed or resized, of at least the requested usable size, zeroed by calloc, and impossible sizes refused. "
  "Memory got from the system allocator before the library was ready or below the size threshold is recognised by free, realloc and malloc_usable_size, and the program ends as it would without the library. While it runs, memory that is freed is used again.",
  "inputs histories schedules configurations", "all programs (sequences of allocation calls over several threads and phases) and all UMF_PROXY settings, including disposition and size threshold",
  "The tests preload a handful of fixed programs; the phases before the pool exists and after it is gone are hardly reached.",
  ["src/proxy_lib/proxy_lib.c", "src/proxy_lib/proxy_lib_linux.c", "src/base_alloc/base_alloc_linear.c"],
  [("entry points", "src/proxy_lib/proxy_lib.c: malloc, calloc, realloc, free, aligned_alloc, malloc_usable_size"), ("early memory", "src/base_alloc/base_alloc_linear.c; src/proxy_lib/proxy_lib.c: ba_leak_*")],
  ["malloc family and operator new/delete", "exit status and output of the program"])

p("C26", "Running out of the library's own memory is survived and nothing is lost",
  "When a request for the library's own bookkeeping memory is refused at any point of any history of providers, pools, blocks, splits, merges, IPC handles and queries, the call either succeeds anyway or reports failure without an effect: no handle is left, live blocks keep their content, owner and freeability, and freed memory can be allocated again. "
  "After everything is destroyed and the library torn down, no bookkeeping memory, provider memory or descriptor is left, whether or not requests were refused.",
  "histories fault_sequences", "all histories over all built-in providers and pools with any single requests for memory refused",
  "The tests never make the base allocator fail, so no error path for it is executed.",
  ["src/coarse/coarse.c", "src/provider/provider_tracking.c", "src/critnib/critnib.c", "src/ipc_cache.c", "src/memory_pool.c", "src/memory_provider.c", "src/pool/pool_disjoint.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c"],
  [("bookkeeping of blocks", "src/coarse/coarse.c: coarse_list_free_block, coarse_alloc, coarse_split"), ("tracking", "src/provider/provider_tracking.c: umfTrackingMemoryProviderCreate, trackingAllocationSplit; src/critnib/critnib.c: critnib_insert")],
  ["umfPool*, umfMemoryProvider*, umf*IPCHandle, umfCtlGet", "umf_ba_* calls (requests and releases)", "file descriptors"])

p("C27", "The library can be loaded, used, torn down and unloaded any number of times",
  "umfInit and umfTearDown nest: until the last user has torn the library down or unloaded it, from any thread, every provider, pool, block, memspace and IPC handle keeps working, and a process may load, use and unload the library any number of times. "
  "When the last user is gone the library is unmapped, and no memory mapping, file descriptor or memory of hwloc that it caused stays behind: a cycle of use leaves the process as the previous one did.",
  "histories schedules", "all histories of load, init, work, teardown and unload, on several threads, any number of cycles",
  "The tests load the library once or twice and check that it does not crash; what stays behind shows only by comparing cycles.",
  ["src/libumf.c", "src/libumf_linux.c", "src/topology.c", "src/ipc_cache.c", "src/base_alloc/base_alloc_global.c", "src/provider/provider_tracking.c"],
  [("init and teardown", "src/libumf.c: umfInit, umfTearDown; src/libumf_linux.c"), ("what is released", "src/topology.c: umfDestroyTopology; src/ipc_cache.c: umfIpcCacheGlobalTearDown; src/base_alloc/base_alloc_global.c: umf_ba_destroy_global; src/provider/provider_tracking.c: umfMemoryTrackerDestroy")],
  ["umfInit, umfTearDown, dlopen, dlclose", "/proc/self/maps and /proc/self/fd", "live allocations made by hwloc"])

p("C29", "The Level Zero provider makes exactly the driver calls its settings call for",
  "For any parameters each allocation becomes one driver call of the kind, context, device, size, alignment, ordinal and limits configured, made resident on each configured device, and each free one call with the configured policy; the driver's failures become the documented results with its own code as native error, and leave no driver memory behind, nor does creation, whether or not it succeeds. "
  "Parameters that do not fit or a driver that lacks what they need are refused, also when the library is torn down and started again beside another driver. IPC handles of its memory open, in this or another process, the same memory at the same offset, and every handle, mapping and descriptor is given back to the driver.",
  "inputs histories fault_sequences configurations", "all parameters, sizes, alignments, call histories and driver refusals, with and without pools, over a stand-in driver",
  "There is no Level Zero device where the tests run, so none of this code is executed by them.",
  ["src/provider/provider_level_zero.c", "include/umf/providers/provider_level_zero.h", "src/utils/utils_load_library.c"],
  [("allocation and free", "src/provider/provider_level_zero.c: ze_memory_provider_alloc, ze_memory_provider_free, use_relaxed_allocation, umfFreePolicyToZePolicy"), ("creation", "src/provider/provider_level_zero.c: ze_memory_provider_initialize, query_min_page_size, init_ze_global_state"), ("IPC", "src/provider/provider_level_zero.c: ze_memory_provider_open_ipc_handle and the others of its kind")],
  ["umfLevelZeroMemoryProviderParams*", "umfMemoryProvider*, umfPool*, umf*IPCHandle", "ze* calls"])

p("C24", "UMF_LOG decides what is printed where, and printing changes nothing else",
  "For any UMF_LOG text made of the documented options in any order, with unknown or malformed ones among them, exactly the messages of the asked level and above appear, whole or marked as truncated, in order, once, in the asked place and nowhere else, with the asked header, and those of the flush level and above are there when the call returns. "
  "Results, native errors, values and memory of any history of API calls are the same whatever UMF_LOG says, even when the log cannot be written.",
  "inputs histories configurations", "all UMF_LOG texts, messages of all lengths and levels, and call histories with failing system calls",
  "The logger's tests drive a copy of utils_log.c with fixed strings; no test compares a run with logging to one without.",
  ["src/utils/utils_log.c", "src/utils/utils_log.h", "src/utils/utils_common.c", "docs/config/introduction.rst"],
  [("settings", "src/utils/utils_log.c: utils_log_init; src/utils/utils_common.c: utils_parse_var"), ("lines", "src/utils/utils_log.c: utils_log_internal"), ("no side effects", "LOG_* calls between a failed system call and the use of errno, e.g. src/provider/provider_os_memory.c, src/provider/provider_file_memory.c")],
  ["UMF_LOG", "stdout, stderr and the log file", "results and native errors of public calls"])

p("C19", "What is made of a settings object depends only on its last accepted settings",
  "A provider, pool or policy-placed provider made of a settings object behaves like one made of a fresh settings object given the same last accepted values once, whatever was set, set again or refused before, whatever buffers the caller reused, and whatever is set or destroyed after it was made. "
  "A setting that is refused (unusable value, no memory) changes nothing, settings objects leave no memory behind, and a disjoint pool reports itself by the name it was given. "
  "Public functions given NULL handles, NULL result pointers or values out of range return an invalid-argument error (or NULL or 0), call no provider, write no result and leave everything working.",
  "inputs histories fault_sequences", "all sequences of setter calls with any values, at any number of makings, with allocation failures; all combinations of unusable arguments",
  "The tests set each parameter once on a new object with values that stay alive, and try single NULL arguments on a few functions.",
  ["src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/provider/provider_devdax_memory.c", "src/provider/provider_fixed_memory.c", "src/pool/pool_disjoint.c", "src/pool/pool_scalable.c", "src/mempolicy.c", "src/memory_provider.c", "src/memory_pool.c", "src/ipc.c", "src/memspace.c"],
  [("settings", "umf*ParamsCreate, umf*ParamsSet*, umf*ParamsDestroy, umfMempolicySet*"), ("use of settings", "the initialize function of every provider and pool"), ("arguments", "UMF_CHECK and the INVALID_ARGUMENT checks of the public functions")],
  ["umf*Params*, umfMempolicy*", "behaviour of what is made of them: mappings, bindings, files, provider calls, logs", "results of public calls"])

p("C04", "What a disjoint pool traces about itself is what happened",
  "At trace level 3 each block given from or taken back to the pool is reported once with the size and alignment asked for, the pool's name, its address, whether it came from (went to) the pool or the provider, and the bytes now kept; blocks passed straight to the provider are not reported. "
  "At level 2 and above the end of a pool prints for each size of block exactly the allocations, the frees, the allocations that needed no provider call and the peaks of slabs in use and kept, and the bytes all pools sharing its limits keep; lower levels print none of it. "
  "Counts stay exact when threads and pools with shared limits work at once and when the provider refuses memory.",
  "inputs histories schedules configurations", "all parameters, names and trace levels, histories of plain and aligned allocations and frees over several pools sharing limits, with refusing providers and with threads",
  "The tests set the trace level but never look at what is printed.",
  ["src/pool/pool_disjoint.c", "include/umf/pools/pool_disjoint.h"],
  [("counting", "src/pool/pool_disjoint.c: bucket_update_stats, disjoint_pool_allocate, disjoint_pool_aligned_malloc, disjoint_pool_free"), ("printing", "src/pool/pool_disjoint.c: disjoint_pool_print_stats, disjoint_pool_finalize"), ("kept bytes", "src/pool/pool_disjoint.c: bucket_can_pool, bucket_get_avail_slab, destroy_bucket")],
  ["umfDisjointPoolParamsSetTrace, umfDisjointPoolParamsSetName", "umfPoolMalloc, umfPoolAlignedMalloc, umfPoolFree, umfPoolDestroy", "the log (UMF_LOG)"])
