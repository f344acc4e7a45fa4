"""std::vector contract over separately allocated storage (symbolic size): size, element access with bounds, push_back, iterators."""
VDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; size_t cap; }; \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline _Bool vec_##N##_empty(const struct vec_##N *v) { return v->n == 0; } \
static inline void vec_##N##_clear(struct vec_##N *v) { v->n = 0; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return v->d + i; } \
static inline T *vec_##N##_back(const struct vec_##N *v) { __CPROVER_assert(v->n > 0, "back() of an empty vector"); return v->d + (v->n - 1); } \
static inline T *vec_##N##_begin(const struct vec_##N *v) { return v->d; } \
static inline T *vec_##N##_end(const struct vec_##N *v) { return v->d + v->n; } \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { __CPROVER_assert(n <= v->cap, "model: vector capacity"); v->n = n; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { __CPROVER_assert(v->n < v->cap, "model: vector capacity"); v->d[v->n] = x; v->n++; }
"""
