#include <stddef.h>
#include <stdint.h>

// Stands in for Kani's kani_lib.c in the encodings of C18: reaching the allocator
// is the violation.
void free(void *ptr);
void *calloc(size_t nmemb, size_t size);
void *malloc(size_t size);

struct Unit;
extern struct Unit VoidUnit;

uint8_t *__rust_alloc(size_t size, size_t align)
{
    __CPROVER_assert(0, "VP: heap memory is allocated");
    return malloc(size);
}

uint8_t *__rust_alloc_zeroed(size_t size, size_t align)
{
    __CPROVER_assert(0, "VP: heap memory is allocated (zeroed)");
    return calloc(1, size);
}

struct Unit __rust_dealloc(uint8_t *ptr, size_t size, size_t align)
{
    return VoidUnit;
}

uint8_t *__rust_realloc(uint8_t *ptr, size_t old_size, size_t align, size_t new_size)
{
    __CPROVER_assert(0, "VP: heap memory is reallocated");
    return malloc(new_size);
}

struct Unit __rust_no_alloc_shim_is_unstable_v2(void)
{
    return VoidUnit;
}
