// the counted, failing heap of the code under test
namespace heap {
long live, count, fail_at = -1; bool fail_rest;
void reset() { live = 0; count = 0; fail_at = -1; fail_rest = false; }
static bool deny() { long i = count++; return fail_at >= 0 && (i == fail_at || (fail_rest && i > fail_at)); }
}
extern "C" {
void *vf_malloc(size_t n) { if (heap::deny()) { errno = ENOMEM; return nullptr; } void *p = malloc(n); if (p) __atomic_add_fetch(&heap::live, 1, __ATOMIC_RELAXED); return p; }
void *vf_calloc(size_t a, size_t b) { if (heap::deny()) { errno = ENOMEM; return nullptr; } void *p = calloc(a, b); if (p) __atomic_add_fetch(&heap::live, 1, __ATOMIC_RELAXED); return p; }
void *vf_realloc(void *q, size_t n) { if (heap::deny()) { errno = ENOMEM; return nullptr; } void *p = realloc(q, n); if (p && !q) __atomic_add_fetch(&heap::live, 1, __ATOMIC_RELAXED); return p; }
void vf_free(void *p) { if (p) __atomic_sub_fetch(&heap::live, 1, __ATOMIC_RELAXED); free(p); }
char *vf_strdup(const char *s) { char *p = (char *)vf_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
char *vf_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = (char *)vf_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
}
