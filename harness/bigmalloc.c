// Linked into the sanitizer variant with -Wl,--wrap=malloc,--wrap=free: keeps candy's 32 MB
// arena pages in a pool between cases (poisoned while free), because mapping and unmapping
// them with their shadow for every case costs far more than the case itself.
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
void* __real_malloc(size_t); void __real_free(void*);
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
enum { BIG = 16 << 20, N = 64 };
static struct { void* p; size_t n; int used; } tab[N];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
void* __wrap_malloc(size_t n) {
    if (n < BIG) return __real_malloc(n);
    pthread_mutex_lock(&mu);
    for (int i = 0; i < N; i++) if (tab[i].p && !tab[i].used && tab[i].n == n) { tab[i].used = 1; __asan_unpoison_memory_region(tab[i].p, n); pthread_mutex_unlock(&mu); return tab[i].p; }
    void* p = __real_malloc(n);
    if (p) for (int i = 0; i < N; i++) if (!tab[i].p) { tab[i].p = p; tab[i].n = n; tab[i].used = 1; break; }
    pthread_mutex_unlock(&mu);
    return p;
}
void __wrap_free(void* p) {
    for (int i = 0; p && i < N; i++) if (tab[i].p == p && !tab[i].used) abort(); // double free
    pthread_mutex_lock(&mu);
    for (int i = 0; p && i < N; i++) if (tab[i].p == p && tab[i].used) { tab[i].used = 0; __asan_poison_memory_region(p, tab[i].n); pthread_mutex_unlock(&mu); return; }
    pthread_mutex_unlock(&mu);
    __real_free(p);
}
