// A Level Zero loader with no driver behind it: every call goes to the handler
// the test installs. Built in several versions (OLD: without the entry points
// that came later; BROKEN: without a required one).
#include "ze.h"
struct zestub zestub;
#define FW(name, decl, args)                                                   \
    ze_result_t name decl { return zestub.name ? zestub.name args : ZE_RESULT_ERROR_UNINITIALIZED; }
FW(zeMemAllocHost, (ze_context_handle_t c, const ze_host_mem_alloc_desc_t *d, size_t s, size_t a, void **p), (c, d, s, a, p))
FW(zeMemAllocDevice, (ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, size_t s, size_t a, ze_device_handle_t dev, void **p), (c, d, s, a, dev, p))
FW(zeMemAllocShared, (ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, const ze_host_mem_alloc_desc_t *h, size_t s, size_t a, ze_device_handle_t dev, void **p), (c, d, h, s, a, dev, p))
FW(zeMemFree, (ze_context_handle_t c, void *p), (c, p))
FW(zeMemGetIpcHandle, (ze_context_handle_t c, const void *p, ze_ipc_mem_handle_t *h), (c, p, h))
FW(zeMemOpenIpcHandle, (ze_context_handle_t c, ze_device_handle_t d, ze_ipc_mem_handle_t h, ze_ipc_memory_flags_t f, void **p), (c, d, h, f, p))
FW(zeMemCloseIpcHandle, (ze_context_handle_t c, const void *p), (c, p))
FW(zeContextMakeMemoryResident, (ze_context_handle_t c, ze_device_handle_t d, void *p, size_t s), (c, d, p, s))
FW(zeDeviceGetProperties, (ze_device_handle_t d, ze_device_properties_t *p), (d, p))
#ifndef BROKEN
FW(zeMemGetAllocProperties, (ze_context_handle_t c, const void *p, ze_memory_allocation_properties_t *q, ze_device_handle_t *d), (c, p, q, d))
#endif
#ifndef OLD
FW(zeMemPutIpcHandle, (ze_context_handle_t c, ze_ipc_mem_handle_t h), (c, h))
FW(zeMemFreeExt, (ze_context_handle_t c, const ze_memory_free_ext_desc_t *d, void *p), (c, d, p))
#endif
