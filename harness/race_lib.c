/* Parts of the C++ library that are not compiled with -fsanitize=thread:
 * their memory accesses and ordering, for race.cpp. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdio.h>
#undef putc
void race_write(const void* p, size_t n);
void race_read(const void* p, size_t n);
void race_order(void* p, int load, int store);
int __cxa_guard_acquire(void* g) {
  static int (*real)(void*);
  if (!real) real = (int (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  int r = real(g);
  race_order(g, 1, 0);
  return r;
}
void __cxa_guard_release(void* g) {
  static void (*real)(void*);
  if (!real) real = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_release");
  race_order(g, 0, 1);
  real(g);
}
struct node { long c; struct node *p, *l, *r; };
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(_Bool left, struct node* x, struct node* p, struct node* h) {
  static void (*real)(_Bool, struct node*, struct node*, struct node*);
  if (!real) real = (void (*)(_Bool, struct node*, struct node*, struct node*))dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  race_write(x, 32); race_write(p, 32); race_write(h, 32);
  real(left, x, p, h);
}
struct node* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(struct node* z, struct node* h) {
  static struct node* (*real)(struct node*, struct node*);
  if (!real) real = (struct node* (*)(struct node*, struct node*))dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  race_write(z, 32); race_write(h, 32);
  return real(z, h);
}
#define STEP(name) \
  struct node* name(struct node* x) { \
    static struct node* (*real)(struct node*); \
    if (!real) real = (struct node* (*)(struct node*))dlsym(RTLD_NEXT, #name); \
    race_read(x, 32); \
    return real(x); \
  }
STEP(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
struct lnode { struct lnode *n, *p; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(struct lnode* t, struct lnode* q) {
  race_write(t, 16); race_write(&q->p, 8); race_write(q->p, 8);
  t->n = q; t->p = q->p; q->p->n = t; q->p = t;
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(struct lnode* t) {
  race_read(t, 16); race_write(&t->n->p, 8); race_write(&t->p->n, 8);
  t->p->n = t->n; t->n->p = t->p;
}

/* standard output is shared by the workers, too */
size_t fwrite(const void* b, size_t n, size_t m, FILE* f) {
  static size_t (*real)(const void*, size_t, size_t, FILE*);
  if (!real) real = (size_t (*)(const void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fwrite");
  if (f == stdout) race_write(f, 8);
  return real(b, n, m, f);
}
int putc(int c, FILE* f) {
  static int (*real)(int, FILE*);
  if (!real) real = (int (*)(int, FILE*))dlsym(RTLD_NEXT, "putc");
  if (f == stdout) race_write(f, 8);
  return real(c, f);
}
