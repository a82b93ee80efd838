/* Stand-in for the header of hat-util (fetched by peru in the real build) */
#ifndef HAT_ALLOCATOR_H
#define HAT_ALLOCATOR_H

#include <stddef.h>

typedef struct {
    void *ctx;
    void *(*alloc)(void *ctx, size_t size);
    void (*free)(void *ctx, void *ptr);
} hat_allocator_t;

#endif
