FIXED_MORE = [
    ("C10", "OS provider: page-align the file ranges, check overflows and keep the right file offset of aligned allocations", "shared memory: after a block whose size is no page multiple every allocation failed; sizes near SIZE_MAX with an alignment above the page size succeeded with nothing mapped; an IPC handle of an over-aligned block named other bytes of the file"),
    ("C10", "OS provider: close the shared memory file when the provider is destroyed", "every destroyed shared-memory provider left a descriptor open"),
    ("C10", "OS provider: report an unusable shared memory name with a valid result code", "creation with a bad shared memory name returned -1, which is no result code"),
    ("C10", "OS provider: keep the file offset of a block whose deallocation failed", "after a refused munmap the still live block could not be split, merged or shared any more"),
    ("C18", "memory providers: initialize the last native error with a valid code", "asking for the last native error when the failed call had stored none indexed the message table out of bounds"),
    ("C09", "file provider: refuse a path that is too long", "creation with a path longer than the limit returned SUCCESS without a provider"),
    ("C28", "devdax provider: refuse a path that is too long", "creation with a path longer than the limit returned SUCCESS without a provider"),
    ("C18", "record the provider whose IPC call failed as the last failed one", "failed IPC calls did not update the last failed provider"),
    ("C13", "IPC cache: evict an entry with its own key", "a mapping evicted from the cache was closed by the wrong provider"),
    ("C13", "IPC cache: do not close a handle that failed to open", "evicting the entry of a failed open closed NULL"),
    ("C13", "IPC: release the cache entry when opening the handle fails", "a failed open kept a reference for ever, so its entry was never evicted"),
    ("C13", "tracker: give back the IPC handles of memory that is split or merged", "stale cached handles were used after split or merge"),
    ("C05", "tracker: look for segments and change them under a lock", "concurrent alloc/free placed a new segment under a freed neighbour's record, so a live pointer was not found"),
    ("C12", "IPC cache: free the entry with the allocator it comes from", "a failed mutex initialisation handed a pool entry to another allocator"),
    ("C12", "IPC cache: do not exit the process when memory runs out", "opening a handle with no memory left terminated the process with exit(-1)"),
    ("C12", "OS provider: do not merge blocks that are not adjacent in the file", "two shared blocks adjacent in memory but not in the file were joined; an IPC handle of the joined block showed other bytes of the file"),
    ("C17", "CTL: do not look for children of a leaf", "a name with more components after a leaf dereferenced NULL"),
    ("C17", "CTL: pass the indexes of the query to the handlers and free them", "indexes of a query never reached the handler and leaked"),
    ("C17", "CTL: report the result of the queried pool or provider", "umfCtlGet/Set/Exec by handle returned SUCCESS whatever the pool or provider answered"),
    ("C17", "CTL: do not read more of a configuration file than fits in the buffer", "a file longer than its reported size, e.g. in /proc, overran the buffer"),
    ("C22", "disjoint pool: update the pool's size statistic atomically", "data race: buckets of one pool changed its size statistic under different locks (tracing on), so it drifted"),
    ("C22", "disjoint pool: do not read a slab that another thread destroys", "data race: freeing a block that came straight from the provider read the neighbouring slab while another thread destroyed or replaced it"),
    ("C11", "OS provider: free the node set of a split allocation whose binding failed", "a split allocation whose binding was refused leaked a node set"),
    ("C11", "OS provider: free the list of node sets with its own allocator", "running out of memory for a node set freed it with another allocator (crash)"),
    ("C11", "OS provider: refuse to be created without memory for the partitions", "the result of initializePartitions was ignored; the next allocation dereferenced NULL"),
    ("C20", "memspace: filter without using removed targets", "filtering out every target, or filtering an empty memspace, reported OUT_OF_HOST_MEMORY; a failure half way used destroyed targets and lost others"),
    ("C20", "memspace: let the last target be removed", "removing the only target reported OUT_OF_HOST_MEMORY"),
    ("C20", "memspace: let an empty memspace be cloned", "cloning an empty memspace reported OUT_OF_HOST_MEMORY"),
    ("C20", "memspace: destroy the targets before freeing their array", "running out of memory for a target read the freed array of targets"),
    ("C21", "memtarget: look NUMA nodes up by their physical id", "bandwidth and latency were those of another node, or an error, when physical ids are not 0..n-1 in order"),
    ("C21", "mempolicy: keep a copy of the partitions", "the policy kept the caller's array, so reusing or freeing it after the call changed or broke the placement"),
    ("C25", "linear base allocator: align memory as malloc() has to", "memory allocated before the proxy library's pool exists was aligned to 8 bytes only"),
    ("C25", "proxy library: refuse sizes that overflow before the pool is created", "aligned_alloc/calloc before the pool exists returned a small block when the size overflowed"),
    ("C26", "coarse: do not leave an empty list of free blocks", "with no memory for a node of a list of free blocks an empty list stayed in the tree and the next allocation dereferenced NULL"),
    ("C26", "coarse: do not lose blocks when there is no memory to describe them", "with no memory for a node, freed or split-off memory was never found again, overlapped another block or could not be freed"),
    ("C26", "tracking provider: release the caches when its creation fails", "a pool whose creation failed leaked the IPC caches; a missing cache was not noticed"),
    ("C26", "tracking provider: undo the split when it cannot be tracked", "a refused split stayed split in the upstream provider"),
    ("C26", "OS provider: fail the allocation whose file offset cannot be stored", "an allocation whose file offset was not stored succeeded, and could be neither split nor shared"),
    ("C26", "file provider: fail the allocation whose mapping cannot be stored", "a mapping that was not stored was never unmapped"),
    ("C26", "critnib: do not allocate memory to update a value", "updating a value in the map could fail for lack of memory (assertion in the tracker's split and merge)"),
    ("C29", "level zero: free memory that cannot be made resident", "an allocation that failed because zeContextMakeMemoryResident refused leaked the driver's memory"),
    ("C29", "level zero: release the provider when creation fails at the end", "when the query of the page size failed during creation, an unrelated pointer was released and the provider leaked"),
    ("C29", "level zero: set the message of the last native error", "umfMemoryProviderGetLastNativeError left the caller's message pointer unset"),
    ("C29", "level zero: refuse a free policy the loader has no call for", "with a loader without zeMemFreeExt a provider with a free policy called NULL on the first free"),
    ("C27", "keep the CTL trees of built-in providers and pools in static memory", "every load/unload cycle that used an OS provider or a scalable pool's CTL leaked 8 KB"),
    ("C24", "UMF_LOG: find an option that also occurs inside another one", "an option whose text also occurs in another option or in the log file path before it was ignored"),
    ("C12", "file provider: do not shrink a file that is in use", "creating another provider over the same file (as every consumer of IPC handles does) cut it to 2 MB; touching live blocks beyond that raised SIGBUS"),
    ("C27", "umfInit: build the global CTL tree only once", "every restart added an entry to a table of 100; the hundredth wrote beyond it"),
    ("C26", "umfInit: undo a failed initialization", "after an umfInit that failed for lack of memory the next one reported success without having initialized anything"),
    ("C26", "base allocator: free memory again after the library was restarted", "after umfTearDown and umfInit every release of bookkeeping memory was ignored"),
    ("C21", "umfDestroyTopology: do not destroy the topology twice", "umfTearDown after a restart in which the topology was not used destroyed it again (abort in hwloc)"),
    ("C21", "predefined memspaces: look for them again after the library was restarted", "umfMemspaceLowestLatencyGet returned NULL after a restart; a memspace that could not be made once was not looked for again"),
    ("C19", "name disjoint pools \"disjoint_pool\" by default, not \"d\"", "only the first letter of the default name was copied into the settings"),
    ("C19", "refuse a NULL name of a disjoint pool instead of crashing", "umfDisjointPoolParamsSetName(params, NULL) read through NULL"),
    ("C19", "refuse missing partitions of a split policy when they are given", "umfMempolicySetCustomSplitPartitions(policy, NULL, n) reported success, lost the partitions set before and left a policy nothing can be made of"),
    ("C19", "refuse NULL arguments of umfOpenIPCHandle instead of crashing", "umfOpenIPCHandle with a NULL handler, handle or result pointer crashed"),
    ("C19", "refuse a NULL pool in umfPoolGetMemoryProvider instead of crashing", "umfPoolGetMemoryProvider(NULL, &p) read through NULL"),
    ("C26", "destroy the highest capacity memspace when it cannot be sorted", "the highest-capacity memspace leaked when the memory for sorting it was refused"),
    ("C26", "do not abort when a predefined memspace cannot be created", "a predefined memspace that could not be created for want of memory aborted the program"),
    ("C29", "look up the Level Zero symbols again after the library is restarted", "after umfTearDown and umfInit the provider used the driver entry points of the library it had unloaded"),
    ("C10", "the file descriptor 0 was taken for no descriptor: in a program without standard input memory of a file, a device or a shared memory object was mapped anonymously, an assertion failed, or the provider could not be created", "providers created while descriptor 0 was free (also C09, C12)"),
    ("C02", "scalable pool: a TBB library without pool_msize() was accepted, and asking for the usable size of a block called a NULL pointer", "umfPoolMallocUsableSize crashed with a TBB library that lacks the symbol"),
    ("C27", "umfInit() and umfTearDown() called by several threads at once: a thread could use the library before another one had initialized it, or while it was being torn down", "umfPoolCreate failed in a thread whose umfInit had succeeded"),
    ("C12", "file provider: an IPC handle of a file named by a relative path opened another file, or none, after the working directory had changed", "opened memory showed the bytes of another file"),
]
KNOWN_MORE = [
    {"id": "C12-shm-unlinked", "property": "C12", "status": "known", "variant": "dbg", "replay": "findings/C12-shm-unlinked.replay",
     "what": "the OS provider removes the name of its shared memory file when a handle of it is opened (os_open_ipc_handle), so a second mapping of memory of that provider - in another pool or process, or after the first one was closed - fails with UNKNOWN"},
    {"id": "C01-untracked-large", "property": "C01", "status": "known", "variant": "dbg", "replay": "findings/C01-untracked-large.replay",
     "what": "a disjoint pool created with UMF_POOL_CREATE_FLAG_DISABLE_TRACKING asks the memory tracker for the size of a block above its maximum poolable size, so the usable size of such a block is 0 and it cannot be freed"},
]
