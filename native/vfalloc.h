// allocation accounting through onion's own allocator hooks: vfa_live = blocks allocated and not yet freed
#ifndef VFALLOC_H
#define VFALLOC_H
#include "low.h"
static long vfa_live;
static void *vfa_malloc(size_t n) { void *p = malloc(n); if (p) { __atomic_add_fetch(&vfa_live, 1, __ATOMIC_RELAXED); memset(p, 0xA5, n); } return p; }
static void *vfa_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) __atomic_add_fetch(&vfa_live, 1, __ATOMIC_RELAXED); return p; }
static void *vfa_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p && !q) __atomic_add_fetch(&vfa_live, 1, __ATOMIC_RELAXED); return p; }
static char *vfa_strdup(const char *s) { char *p = strdup(s); if (p) __atomic_add_fetch(&vfa_live, 1, __ATOMIC_RELAXED); return p; }
static void vfa_free(void *p) { if (p) __atomic_sub_fetch(&vfa_live, 1, __ATOMIC_RELAXED); free(p); }
static void vfa_oom(const char *m) { vf_fail("memory failure: %s", m); }
static void vfa_init(void) { onion_low_initialize_memory_allocation(vfa_malloc, vfa_malloc, vfa_calloc, vfa_realloc, vfa_strdup, vfa_free, vfa_oom); }
#include "log.h"
static void vf_nolog(onion_log_level l, const char *f, int n, const char *fmt, ...) {}
static void vf_quiet(void) { onion_log = vf_nolog; }
#endif
