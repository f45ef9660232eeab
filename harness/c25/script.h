// The script a C25 case hands to the driver, in a shared file (descriptor 200).
#pragma once
#include <stddef.h>
#include <stdint.h>
#define C25_FD 200
#define C25_SLOTS 192
#define C25_MAXTHR 6
enum { PH_PREINIT, PH_CTOR, PH_MAIN, PH_ATEXIT, PH_DTOR, PH_LIBDTOR, PH_COUNT };
enum { OP_MALLOC, OP_CALLOC, OP_REALLOC, OP_ALIGNED, OP_FREE, OP_USABLE, OP_STRDUP, OP_NULLS, OP_HUGE, OP_ASPRINTF, OP_FORK, OP_BADALIGN, OP_KIND, OP_REUSE, OP_COUNT };
struct c25_op {
    uint8_t op, phase, thr, pad;
    uint16_t round, slot;
    uint64_t a, b;
};
struct c25_script {
    uint32_t nops, threads, rounds, disposition; // 0 private, 1 shared-fd, 2 shared-shm
    uint64_t threshold;
    uint32_t done[PH_COUNT];
    uint32_t failed, opdone;
    uint64_t nchecks;
    char sig[64];
    char msg[448];
    struct c25_op ops[1];
};
