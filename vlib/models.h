/* Common prelude of every C file handed to CBMC. */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <math.h>
#define VP_MIN(T,a,b) ({ T vp_a=(a); T vp_b=(b); vp_b < vp_a ? vp_b : vp_a; })
#define VP_MAX(T,a,b) ({ T vp_a=(a); T vp_b=(b); vp_a < vp_b ? vp_b : vp_a; })
static inline void *vp_new(size_t n) { void *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#define vp_malloc vp_new
#define vp_free(p) ((void)0)
#define vp_sqrt sqrt
struct vp_FILE;
struct vp_string { char *d; size_t n; };
#define vp_string_size(s) ((s)->n)
#define vp_string_at(s, i) ({ size_t vp_si = (i); __CPROVER_assert(vp_si <= (s)->n, "string index in bounds"); (s)->d + vp_si; })
struct vp_opaque { char c; };
extern struct vp_FILE *vp_stdout, *vp_stdin, *vp_stderr;
#define ASSERT(c, msg) __CPROVER_assert((c), msg)
#define ASSUME(c) __CPROVER_assume(c)
/* must be reachable: the run is vacuous if this "fails to fail" */
#define REACH(msg) __CPROVER_assert(0, "REACH: " msg)
_Bool nondet_bool(void); uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint32_t nondet_u32(void);
uint64_t nondet_u64(void); int32_t nondet_i32(void); int8_t nondet_i8(void); size_t nondet_size(void);
int64_t nondet_i64(void);
#ifndef VP_VEC_STRUCT
/* concrete-storage vector; capacity chosen by the harness */
#ifndef VP_VEC_CAP
#define VP_VEC_CAP 64
#endif
#define VP_VEC_STRUCT(N, T) \
struct vec_##N { T d[VP_VEC_CAP]; size_t n; }; \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { ASSERT(v->n < VP_VEC_CAP, "model: vector capacity"); v->d[v->n++] = x; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline _Bool vec_##N##_empty(const struct vec_##N *v) { return v->n == 0; } \
static inline void vec_##N##_clear(struct vec_##N *v) { v->n = 0; } \
static inline void vec_##N##_pop_back(struct vec_##N *v) { ASSERT(v->n > 0, "pop_back on an empty vector"); v->n--; } \
static inline void vec_##N##_reserve(struct vec_##N *v, size_t n) {} \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { ASSERT(i < v->n, "vector index in bounds"); return (T*)&v->d[i]; } \
static inline T *vec_##N##_back(const struct vec_##N *v) { ASSERT(v->n > 0, "back() of an empty vector"); return (T*)&v->d[v->n-1]; } \
static inline T *vec_##N##_front(const struct vec_##N *v) { ASSERT(v->n > 0, "front() of an empty vector"); return (T*)&v->d[0]; } \
static inline T *vec_##N##_begin(const struct vec_##N *v) { return (T*)&v->d[0]; } \
static inline T *vec_##N##_end(const struct vec_##N *v) { return (T*)&v->d[v->n]; } \
static inline void vec_##N##_copy(struct vec_##N *v, const struct vec_##N *o) { *v = *o; } \
VP_VEC_EXTRA(N, T)
#ifndef VP_VEC_EXTRA
/* resize / sized constructors value-initialise */
#define VP_VEC_EXTRA(N, T) \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { ASSERT(n <= VP_VEC_CAP, "model: vector capacity"); \
  for (size_t i = v->n; i < n; ++i) { T z = {0}; v->d[i] = z; } v->n = n; } \
static inline void vec_##N##_ctor_n(struct vec_##N *v, size_t n) { v->n = 0; vec_##N##_resize(v, n); } \
static inline void vec_##N##_ctor_fill(struct vec_##N *v, size_t n, T x) { ASSERT(n <= VP_VEC_CAP, "model: vector capacity"); for (size_t i = 0; i < n; ++i) v->d[i] = x; v->n = n; } 
#endif
#endif
