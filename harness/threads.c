/* Preloaded: writes the number of created threads to the file THREADS_LOG at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
static atomic_int created;
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!real) real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  atomic_fetch_add(&created, 1);
  return real(t, a, f, x);
}
__attribute__((destructor)) static void done(void)
{
  const char* n = getenv("THREADS_LOG");
  FILE* f = n ? fopen(n, "w") : 0;
  if (f) { fprintf(f, "%d\n", atomic_load(&created)); fclose(f); }
}
