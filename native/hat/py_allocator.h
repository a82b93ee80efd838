/* Stand-in for the header of hat-util (fetched by peru in the real build) */
#ifndef HAT_PY_ALLOCATOR_H
#define HAT_PY_ALLOCATOR_H

#include "allocator.h"

extern hat_allocator_t hat_py_allocator;

#endif
