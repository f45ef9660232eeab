T = "stateful model-based property testing"
CHECKS = {
    "C01": dict(src=["c01_disjoint.cpp"], time_quick=25, variants=["dbg", "rel", "asan"],
                vscale={"rel": 0.4, "asan": 0.2}, technique=T),
    "C02": dict(src=["c02_pools.cpp"], wrap=["dlopen", "dlsym", "dlclose"], time_quick=25, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C03": dict(src=["c03_limits.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.4}, technique=T),
    "C06": dict(src=["c06_coarse.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C14": dict(src=["c14_critnib.cpp"], wrap=["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.6}, technique=T),
    "C15": dict(src=["c15_ravl.cpp"], wrap=["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"], time_quick=40, variants=["dbg", "asan"], vscale={"asan": 0.3}, technique=T),
    "C16": dict(src=["c16_base.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T, wrap=["mmap", "munmap"]),
    "C05": dict(src=["c05_tracker.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C10": dict(src=["c10_os.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T,
                wrap=["mmap", "munmap", "syscall", "shm_open", "ftruncate", "hwloc_topology_init", "hwloc_topology_load", "hwloc_topology_destroy"]),
    "C08": dict(src=["c08_fixed.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T, wrap=["mmap", "munmap"]),
    "C09": dict(src=["c09_file.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T, wrap=["mmap", "munmap", "posix_fallocate", "fstat", "ftruncate"]),
    "C28": dict(src=["c28_devdax.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T, wrap=["mmap", "munmap", "open", "close", "stat"]),
    "C18": dict(src=["c18_errors.cpp"], wrap=["mmap", "munmap", "madvise"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C30": dict(src=["c30_dispatch.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C13": dict(src=["c13_ipccache.cpp"], wrap=["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free", "umf_ba_alloc", "umf_ba_free", "umf_ba_create", "umf_ba_destroy"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
    "C12": dict(src=["c12_ipc.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T, wrap=["mmap", "munmap"]),
    "C17": dict(src=["c17_ctl.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.4}, technique=T),
    "C22": dict(src=["c22_threads.cpp"], wrap=["mmap", "munmap"], time_quick=40, variants=["dbg", "rel", "tsan"], vscale={"rel": 0.5, "tsan": 0.2}, technique=T, workers=4),
    "C11": dict(src=["c11_numa.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T,
                wrap=["mmap", "munmap", "hwloc_set_area_membind", "hwloc_bitmap_alloc", "hwloc_bitmap_dup", "hwloc_bitmap_set", "hwloc_bitmap_free",
                      "umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"]),
    "C20": dict(src=["c20_memspace.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T,
                wrap=["mmap", "munmap", "hwloc_set_area_membind", "umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"]),
    "C21": dict(src=["c21_policy.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T,
                wrap=["mmap", "munmap", "hwloc_set_area_membind", "umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"]),
    "C25": dict(src=["c25_proxy.cpp"], time_quick=50, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique="model-based testing of generated whole programs",
                prebuild=[("dbg", True), ("rel", True)],
                progs=[("libc25x.so", "c25/libx.c", [], True),
                       ("c25_driver", "c25/driver.c", ["-fno-builtin", "-Wno-alloc-size-larger-than", "-L@BIN@", "-lc25x", "-Wl,-rpath,$ORIGIN", "-lpthread", "-ldl"])]),
    "C26": dict(src=["c26_oom.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique="stateful model-based property testing with fault injection",
                wrap=["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free", "umf_ba_alloc", "umf_ba_free", "umf_ba_create", "umf_ba_destroy", "hwloc_set_area_membind"]),
    "C29": dict(src=["c29_ze.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique="stateful model-based property testing with fault injection",
                wrap=["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"],
                progs=[("libzestub.so", "c29/ze.c", ["-Wl,-soname,libze_loader.so"], True),
                       ("libzestub_old.so", "c29/ze.c", ["-DOLD", "-Wl,-soname,libze_loader.so"], True),
                       ("libzestub_broken.so", "c29/ze.c", ["-DBROKEN", "-Wl,-soname,libze_loader.so"], True)]),
    "C27": dict(src=["c27_lifecycle.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T,
                prebuild=[("dbg", True), ("rel", True)]),
    "C24": dict(src=["c24_log.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique="model-based and metamorphic property testing",
                wrap=["mmap", "munmap"]),
    "C19": dict(src=["c19_settings.cpp"], time_quick=40, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique="metamorphic property testing with fault injection: histories of a settings object against a fresh object with the same final values",
                wrap=["mmap", "open", "stat", "hwloc_set_area_membind", "umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free"]),
    "C04": dict(src=["c04_trace.cpp"], time_quick=30, variants=["dbg", "rel"], vscale={"rel": 0.5}, technique=T),
}
