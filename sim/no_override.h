// Force-included when compiling tcmalloc.cc: the allocator's entry points keep their internal names
// (TCMallocInternal*), the process's own malloc stays glibc's.
#include <features.h>
#include <malloc.h>
#include <stddef.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/tcmalloc.h"
#ifndef TCMALLOC_ALIAS
#define TCMALLOC_ALIAS(tc_fn) __attribute__((alias(#tc_fn), visibility("default")))
#endif
