/* Reference hash table: one chain, every key in an allocation of exactly its
 * size, so that any read past it is seen by the address sanitizer */
#include "prelude.h"
#include <string.h>
#include "hat/ht.h"
#include "hat/py_allocator.h"

long native_live;

static void *alloc_fn(void *ctx, size_t size) { return PyMem_Malloc(size); }
static void free_fn(void *ctx, void *ptr) { PyMem_Free(ptr); }

hat_allocator_t hat_py_allocator = {
    .ctx = NULL, .alloc = alloc_fn, .free = free_fn};

typedef struct entry_t entry_t;

struct entry_t {
    entry_t *next;
    unsigned char *key;
    size_t key_size;
    void *value;
};

struct hat_ht_t {
    hat_allocator_t *a;
    entry_t *head;
    size_t count;
};

hat_ht_t *hat_ht_create(hat_allocator_t *a) {
    hat_ht_t *t = a->alloc(a->ctx, sizeof(hat_ht_t));
    if (t)
        *t = (hat_ht_t){.a = a, .head = NULL, .count = 0};
    return t;
}

void hat_ht_clear(hat_ht_t *t) {
    entry_t *e = t->head;
    while (e) {
        entry_t *next = e->next;
        t->a->free(t->a->ctx, e->key);
        t->a->free(t->a->ctx, e);
        e = next;
    }
    t->head = NULL;
    t->count = 0;
}

void hat_ht_destroy(hat_ht_t *t) {
    hat_ht_clear(t);
    t->a->free(t->a->ctx, t);
}

int hat_ht_resize(hat_ht_t *t, size_t cap) { return 0; }

size_t hat_ht_count(hat_ht_t *t) { return t->count; }

static entry_t **find(hat_ht_t *t, void *key, size_t key_size) {
    entry_t **e = &(t->head);
    while (*e && ((*e)->key_size != key_size ||
                  (key_size && memcmp((*e)->key, key, key_size))))
        e = &((*e)->next);
    return e;
}

int hat_ht_set(hat_ht_t *t, void *key, size_t key_size, void *value) {
    entry_t **e = find(t, key, key_size);
    if (*e) {
        (*e)->value = value;
        return 0;
    }
    entry_t *n = t->a->alloc(t->a->ctx, sizeof(entry_t));
    if (!n)
        return 1;
    n->key = t->a->alloc(t->a->ctx, key_size ? key_size : 1);
    if (!n->key) {
        t->a->free(t->a->ctx, n);
        return 1;
    }
    memcpy(n->key, key, key_size);
    n->key_size = key_size;
    n->value = value;
    /* first in the chain */
    n->next = t->head;
    t->head = n;
    t->count++;
    return 0;
}

void *hat_ht_get(hat_ht_t *t, void *key, size_t key_size) {
    entry_t *e = *find(t, key, key_size);
    return e ? e->value : NULL;
}

void *hat_ht_pop(hat_ht_t *t, void *key, size_t key_size) {
    entry_t **p = find(t, key, key_size);
    entry_t *e = *p;
    if (!e)
        return NULL;
    void *value = e->value;
    *p = e->next;
    t->a->free(t->a->ctx, e->key);
    t->a->free(t->a->ctx, e);
    t->count--;
    return value;
}

hat_ht_iter_t hat_ht_iter_next(hat_ht_t *t, hat_ht_iter_t iter) {
    return iter ? ((entry_t *)iter)->next : t->head;
}

void *hat_ht_iter_key(hat_ht_iter_t iter) { return ((entry_t *)iter)->key; }

size_t hat_ht_iter_key_size(hat_ht_iter_t iter) {
    return ((entry_t *)iter)->key_size;
}

void *hat_ht_iter_value(hat_ht_iter_t iter) {
    return ((entry_t *)iter)->value;
}
