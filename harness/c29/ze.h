#pragma once
#include <level_zero/ze_api.h>
#ifdef __cplusplus
extern "C" {
#endif
struct zestub {
    ze_result_t (*zeMemAllocHost)(ze_context_handle_t, const ze_host_mem_alloc_desc_t *, size_t, size_t, void **);
    ze_result_t (*zeMemAllocDevice)(ze_context_handle_t, const ze_device_mem_alloc_desc_t *, size_t, size_t, ze_device_handle_t, void **);
    ze_result_t (*zeMemAllocShared)(ze_context_handle_t, const ze_device_mem_alloc_desc_t *, const ze_host_mem_alloc_desc_t *, size_t, size_t, ze_device_handle_t, void **);
    ze_result_t (*zeMemFree)(ze_context_handle_t, void *);
    ze_result_t (*zeMemGetIpcHandle)(ze_context_handle_t, const void *, ze_ipc_mem_handle_t *);
    ze_result_t (*zeMemPutIpcHandle)(ze_context_handle_t, ze_ipc_mem_handle_t);
    ze_result_t (*zeMemOpenIpcHandle)(ze_context_handle_t, ze_device_handle_t, ze_ipc_mem_handle_t, ze_ipc_memory_flags_t, void **);
    ze_result_t (*zeMemCloseIpcHandle)(ze_context_handle_t, const void *);
    ze_result_t (*zeContextMakeMemoryResident)(ze_context_handle_t, ze_device_handle_t, void *, size_t);
    ze_result_t (*zeDeviceGetProperties)(ze_device_handle_t, ze_device_properties_t *);
    ze_result_t (*zeMemFreeExt)(ze_context_handle_t, const ze_memory_free_ext_desc_t *, void *);
    ze_result_t (*zeMemGetAllocProperties)(ze_context_handle_t, const void *, ze_memory_allocation_properties_t *, ze_device_handle_t *);
};
#ifdef __cplusplus
}
#endif
