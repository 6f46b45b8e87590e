/* Controlled environment for the memory, GC and wiping explorers. */
#define _GNU_SOURCE
#define CAML_INTERNALS
#define CAML_NAME_SPACE
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/custom.h>
#include <caml/callback.h>
#include <caml/minor_gc.h>
#include <caml/major_gc.h>
#include <caml/compact.h>
#include <caml/gc.h>
#include <caml/address_class.h>
#include <caml/domain.h>

extern void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));

/* ---- buffers between guard pages ----
   Arena k: [guard][DATA bytes][guard].  A byte sequence is laid out either at
   the end (its last word touches the upper guard) or at the start (its header
   touches the lower guard).  With AddressSanitizer, everything outside the
   announced range is poisoned too. */
#define NAR 4
#define DATA (1 << 16)
static char *arena[NAR];
static char *arena_base(int k)
{
  if (!arena[k]) {
    char *p = mmap(NULL, DATA + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    mprotect(p + 65536, DATA, PROT_READ | PROT_WRITE);
    arena[k] = p + 65536;
  }
  return arena[k];
}
CAMLprim value vw_asan(value unit) { return Val_bool(__asan_poison_memory_region != 0); }
static void unpoison(int k)
{
  if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(arena_base(k), DATA);
}
/* vw_arena k len at_end : bytes */
CAMLprim value vw_arena(value vk, value vlen, value vend)
{
  int k = Int_val(vk); long len = Long_val(vlen);
  char *b = arena_base(k);
  unpoison(k);
  mlsize_t wosize = (len + sizeof(value)) / sizeof(value);
  size_t tot = (wosize + 1) * sizeof(value);
  if (tot > DATA) abort();
  value *h = (value *) (Bool_val(vend) ? b + DATA - tot : b);
  *(header_t *) h = Make_header(wosize, String_tag, Caml_black);
  value v = (value) (h + 1);
  memset((char *) v, 0, wosize * sizeof(value));
  Field(v, wosize - 1) = 0;
  ((unsigned char *) v)[wosize * sizeof(value) - 1] = wosize * sizeof(value) - 1 - len;
  return v;
}
/* ---- memory in use, as accounted for by malloc ---- */
#include <malloc.h>
CAMLprim value vw_c_memory(value unit)
{
  struct mallinfo2 m = mallinfo2();
  return Val_long(m.uordblks + m.hblkhd);
}
/* ---- limit on the private memory of a worker, in megabytes ---- */
#include <sys/resource.h>
CAMLprim value vw_mem_limit(value mb)
{
  struct rlimit r = { (rlim_t) Long_val(mb) << 20, (rlim_t) Long_val(mb) << 20 };
  if (!__asan_poison_memory_region) setrlimit(RLIMIT_DATA, &r);
  return Val_unit;
}

/* ---- very long strings: [total] bytes with period [pattern], a multiple of
   the page size, all periods sharing the same physical memory ---- */
#include <stdint.h>
#include <unistd.h>
CAMLprim value vw_huge(value pattern, value vtotal)
{
  long per = caml_string_length(pattern), total = Long_val(vtotal);
  if (per % 4096) abort();
  int fd = memfd_create("huge", 0);
  if (fd < 0 || ftruncate(fd, per) != 0) abort();
  mlsize_t wosize = (total + sizeof(value)) / sizeof(value);
  size_t bytes = wosize * sizeof(value);
  size_t maplen = 4096 + (bytes / per + 1) * per;
  char *b = mmap(NULL, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) abort();
  mmap(b, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  for (size_t o = 4096; o < maplen; o += per) {
    int last = o + per >= maplen;
    if (mmap(b + o, per, PROT_READ | PROT_WRITE, (last ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
  }
  memcpy(b + 4096, String_val(pattern), per);
  close(fd);
  ((header_t *) (b + 4096))[-1] = Make_header(wosize, String_tag, Caml_black);
  /* beyond the end: the padding required by OCaml (the last period is private) */
  value v = (value) (b + 4096);
  for (size_t i = total; i < bytes; i++) ((unsigned char *) v)[i] = 0;
  ((unsigned char *) v)[bytes - 1] = bytes - 1 - total;
  return v;
}
/* zero-filled, pages allocated on demand */
CAMLprim value vw_sparse(value vtotal)
{
  long total = Long_val(vtotal);
  mlsize_t wosize = (total + sizeof(value)) / sizeof(value);
  size_t bytes = wosize * sizeof(value);
  int fd = memfd_create("sparse", 0);
  if (fd < 0 || ftruncate(fd, bytes + 8192) != 0) abort();
  char *b = mmap(NULL, bytes + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0);
  if (b == MAP_FAILED) abort();
  close(fd);
  ((header_t *) (b + 4096))[-1] = Make_header(wosize, String_tag, Caml_black);
  value v = (value) (b + 4096);
  ((unsigned char *) v)[bytes - 1] = bytes - 1 - total;
  return v;
}
CAMLprim value vw_huge_free(value v, value vper)
{
  long per = Long_val(vper);
  size_t bytes = Wosize_val(v) * sizeof(value);
  munmap((char *) v - 4096, per ? 4096 + (bytes / per + 1) * per : bytes + 8192);
  return Val_unit;
}
/* poison everything of the arena but [ofs, ofs+len) of v */
CAMLprim value vw_restrict(value vk, value v, value vofs, value vlen)
{
  if (__asan_poison_memory_region) {
    int k = Int_val(vk); char *b = arena_base(k);
    char *lo = (char *) v + Long_val(vofs), *hi = lo + Long_val(vlen);
    __asan_unpoison_memory_region(b, DATA);
    if (hi < b + DATA) __asan_poison_memory_region(hi, b + DATA - hi);
    if (lo > b) __asan_poison_memory_region(b, (lo - b) & ~7L);
  }
  return Val_unit;
}
CAMLprim value vw_unrestrict(value vk) { unpoison(Int_val(vk)); return Val_unit; }

/* ---- garbage collections at chosen allocations of the C primitives ---- */
static long gc_count, gc_at = -1; static int gc_kind; static int gc_busy;
static void poison_young(void)
{
  char *a = (char *) Caml_state->young_alloc_start, *p = (char *) Caml_state->young_ptr;
  if (p > a) memset(a, 0xD7, p - a);
}
static void poison_free_blocks(void)
{
  char *chunk;
  for (chunk = caml_heap_start; chunk != NULL; chunk = Chunk_next(chunk)) {
    char *p = chunk, *end = chunk + Chunk_size(chunk);
    while (p < end) {
      header_t hd = Hd_hp(p);
      mlsize_t wo = Wosize_hd(hd);
      if (Color_hd(hd) == Caml_blue && wo > 10)
        memset(p + 9 * sizeof(value), 0xD7, (wo - 8) * sizeof(value));
      p += Bhsize_hd(hd);
    }
  }
}
static void do_gc(int kind)
{
  gc_busy = 1;
  caml_empty_minor_heap();
  if (kind >= 1) {
    caml_finish_major_cycle();
    caml_empty_minor_heap();
    caml_finish_major_cycle();
    if (kind >= 2) caml_compact_heap(-1);
    poison_free_blocks();
  }
  poison_young();
  gc_busy = 0;
}
CAMLprim value vw_gc_now(value kind) { do_gc(Int_val(kind)); return Val_unit; }
static inline void gc_point(void)
{
  if (gc_busy) return;
  if (gc_count++ == gc_at) do_gc(gc_kind);
}
CAMLprim value vw_gc_arm(value at, value kind) { gc_count = 0; gc_at = Long_val(at); gc_kind = Int_val(kind); return Val_unit; }
CAMLprim value vw_gc_disarm(value unit) { gc_at = -1; return Val_long(gc_count); }
#define W(ret, name, params, args) \
  extern ret __real_##name params; ret __wrap_##name params { gc_point(); return __real_##name args; }
/* Fresh strings have arbitrary contents (the runtime only sets the last word):
   nothing may depend on them. */
static unsigned char garbage[4096];
extern value __real_caml_alloc_string(mlsize_t n);
value __wrap_caml_alloc_string(mlsize_t n)
{
  gc_point();
  value s = __real_caml_alloc_string(n);
  size_t m = (Wosize_val(s) - 1) * sizeof(value);
  char *p = (char *) s;
  if (m <= sizeof garbage) memcpy(p, garbage, m);
  else { memcpy(p, garbage, sizeof garbage); memcpy(p + m - sizeof garbage, garbage, sizeof garbage); }
  return s;
}
__attribute__((constructor)) static void vw_garbage_init(void)
{
  unsigned x = 0x9E3779B9;
  for (size_t i = 0; i < sizeof garbage; i++) { x = x * 1664525 + 1013904223; garbage[i] = (x >> 24) | 1; }
  mallopt(M_PERTURB, 0xA5);   /* likewise for malloc, and freed memory is overwritten */
}
/* arbitrary contents for the stack below the caller */
CAMLprim __attribute__((noinline)) value vw_scribble(value unit)
{
  unsigned char b[6144];
  memcpy(b, garbage, sizeof garbage); memcpy(b + sizeof b - sizeof garbage, garbage, sizeof garbage);
  __asm__ volatile ("" : : "r" (b) : "memory");
  return Val_unit;
}
W(value, caml_alloc_small, (mlsize_t n, tag_t t), (n, t))
W(value, caml_alloc, (mlsize_t n, tag_t t), (n, t))
W(value, caml_alloc_tuple, (mlsize_t n), (n))
W(value, caml_alloc_custom, (struct custom_operations *o, uintnat s, mlsize_t m, mlsize_t x), (o, s, m, x))
W(value, caml_alloc_custom_mem, (struct custom_operations *o, uintnat s, mlsize_t m), (o, s, m))
W(value, caml_copy_string, (char const *s), (s))
W(value, caml_alloc_initialized_string, (mlsize_t n, const char *s), (n, s))
W(value, caml_copy_int64, (int64_t i), (i))
extern void __real_caml_enter_blocking_section(void);

/* ---- C memory: contents at release, and contents reachable from custom blocks ---- */
#define NBLK 65536
static struct blk { void *p; size_t n; } blks[NBLK];
static int rec_on; static uint64_t rec_hash; static long rec_n, rec_sizes;
static unsigned hp(void *p) { return (unsigned) ((((uintptr_t) p) >> 4) * 2654435761u) % NBLK; }
static void track(void *p, size_t n)
{
  if (!p) return;
  unsigned i = hp(p), k;
  for (k = 0; k < 256; k++, i = (i + 1) % NBLK)
    if (!blks[i].p || blks[i].p == (void *) 1 || blks[i].p == p) { blks[i].p = p; blks[i].n = n; return; }
}
static struct blk *find(void *p)
{
  unsigned i = hp(p), k;
  for (k = 0; k < 256; k++, i = (i + 1) % NBLK) {
    if (blks[i].p == p) return &blks[i];
    if (!blks[i].p) return NULL;
  }
  return NULL;
}
static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
  const unsigned char *c = p; while (n--) { h = (h ^ *c++) * 0x100000001B3ull; } return h;
}
static void untrack(void *p)
{
  struct blk *b = p ? find(p) : NULL;
  if (b) {
    if (rec_on && b->n < 16384) { rec_hash = fnv(rec_hash, &b->n, sizeof b->n); rec_hash = fnv(rec_hash, p, b->n); rec_n++; }
    b->p = (void *) 1;
  }
}
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t); extern void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (rec_on) track(p, n); return p; }
void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); if (rec_on) track(p, a * n); return p; }
void *__wrap_realloc(void *q, size_t n) { untrack(q); void *p = __real_realloc(q, n); if (rec_on) track(p, n); return p; }
void __wrap_free(void *p) { untrack(p); __real_free(p); }
CAMLprim value vw_rec(value on)
{
  if (Bool_val(on)) { memset(blks, 0, sizeof blks); rec_hash = 0xcbf29ce484222325ull; rec_n = 0; rec_on = 1; return Val_unit; }
  rec_on = 0;
  value r = caml_alloc_tuple(2);
  Field(r, 0) = Val_long(rec_n); Field(r, 1) = Val_long(rec_hash >> 2);
  return r;
}

/* ---- canonical dump of everything reachable from a value ----
   Object identities and addresses are replaced by discovery numbers; strings
   listed as the caller's are cut.  Heap blocks only (plus C memory tracked
   above, for custom and abstract blocks). */
struct dump { unsigned char *b; size_t n, cap; };
static void put(struct dump *d, const void *p, size_t n)
{
  if (d->n + n > d->cap) { d->cap = 2 * (d->n + n) + 4096; d->b = __real_realloc(d->b, d->cap); }
  memcpy(d->b + d->n, p, n); d->n += n;
}
static void puti(struct dump *d, int tag, uint64_t x) { unsigned char t = tag; put(d, &t, 1); put(d, &x, 8); }
#define HT (1 << 16)
static struct { value v; long n; } seen[HT]; static long nseen;
static value *stk; static long sp, scap;
static void push(value v) { if (sp == scap) { scap = scap ? 2 * scap : 1024; stk = __real_realloc(stk, scap * sizeof(value)); } stk[sp++] = v; }
/* discovery number, or -1 - number when new */
static long number(value v)
{
  unsigned i = (unsigned) ((v >> 3) * 2654435761u) % HT;
  while (seen[i].v) { if (seen[i].v == v) return seen[i].n; i = (i + 1) % HT; }
  if (nseen > HT / 2) abort();
  seen[i].v = v; seen[i].n = nseen++;
  return -1 - seen[i].n;
}
CAMLprim value vw_dump(value root, value callers, value skipcustom, value statics)
{
  CAMLparam2(root, callers);
  struct dump d = { 0 };
  memset(seen, 0, sizeof seen); nseen = 0; sp = 0;
  value l;
  for (l = callers; Is_block(l); l = Field(l, 1)) number(Field(l, 0));
  push(root);
  while (sp > 0) {
    value v = stk[--sp];
    if (Is_long(v)) { puti(&d, 'i', v); continue; }
    if (!(Bool_val(statics) ? Is_in_value_area(v) : Is_in_heap_or_young(v))) { puti(&d, 'x', 0); continue; }
    if (Tag_val(v) == Infix_tag) { puti(&d, 'f', Infix_offset_val(v)); v -= Infix_offset_val(v); }
    if (Tag_val(v) == Forward_tag) { push(Forward_val(v)); continue; }
    long k = number(v);
    if (k >= 0) { puti(&d, 'r', k); continue; }
    mlsize_t n = Wosize_val(v), i, from = 0;
    puti(&d, 'b', Tag_val(v)); puti(&d, 'n', n);
    if (Tag_val(v) == Custom_tag || Tag_val(v) == Abstract_tag) {
      if (Bool_val(skipcustom)) continue;
      for (i = Tag_val(v) == Custom_tag ? 1 : 0; i < n; i++) {
        void *p = (void *) Field(v, i);
        struct blk *b = p ? find(p) : NULL;
        if (b) { puti(&d, 'm', b->n); put(&d, p, b->n); } else puti(&d, 'w', (uint64_t) p);
      }
      continue;
    }
    if (Tag_val(v) >= No_scan_tag) { put(&d, (void *) v, n * sizeof(value)); continue; }
    if (Tag_val(v) == Closure_tag) {
      mlsize_t s = Start_env_closinfo(Closinfo_val(v));
      for (i = n; i > s; i--) push(Field(v, i - 1));
      continue;
    }
    if (Tag_val(v) == Object_tag) { /* methods table, identity, instance variables */
      puti(&d, 'o', 0);
      for (i = n; i > 2; i--) push(Field(v, i - 1));
      continue;
    }
    for (i = n; i > from; i--) push(Field(v, i - 1));
  }
  value r = __real_caml_alloc_string(d.n);
  memcpy((char *) Bytes_val(r), d.b, d.n);
  __real_free(d.b);
  CAMLreturn(r);
}
/* the library's own module block, when it can be found (native code) */
extern value camlCryptokit[] __attribute__((weak));
CAMLprim value vw_module(value unit) { return camlCryptokit ? (value) camlCryptokit : Val_unit; }
/* words of a block, for keys made of strings */
CAMLprim value vw_all_zero(value s)
{
  mlsize_t n = caml_string_length(s), i; int z = 1;
  for (i = 0; i < n; i++) if (Byte_u(s, i)) z = 0;
  return Val_bool(z);
}

/* ---- blocking sections: what another thread does while the master lock is released ---- */
static long bl_count, bl_at = -2; static int bl_busy;
extern void __real_caml_leave_blocking_section(void);
static void bl_point(void)
{
  if (bl_busy) return;
  if (bl_count++ == bl_at) {
    const value *f = caml_named_value("vw_block");
    if (f != NULL) { bl_busy = 1; caml_callback(*f, Val_unit); bl_busy = 0; }
  }
}
void __wrap_caml_enter_blocking_section(void) { gc_point(); if (bl_at >= -1) bl_point(); __real_caml_enter_blocking_section(); }
void __wrap_caml_leave_blocking_section(void) { __real_caml_leave_blocking_section(); if (bl_at >= -1) bl_point(); }
CAMLprim value vw_block_arm(value at) { bl_count = 0; bl_at = Long_val(at); return Val_unit; }
CAMLprim value vw_block_disarm(value unit) { bl_at = -2; return Val_long(bl_count); }

/* ---- contents of the young generation ---- */
CAMLprim value vw_young_clear(value unit)
{
  caml_minor_collection();
  memset(Caml_state->young_start, 0, (char *) Caml_state->young_ptr - (char *) Caml_state->young_start);
  return Val_unit;
}
CAMLprim value vw_young_find(value pat)
{
  char *p = (char *) Caml_state->young_ptr, *e = (char *) Caml_state->young_end;
  long n = 0; size_t l = caml_string_length(pat);
  while (p < e && (p = memmem(p, e - p, String_val(pat), l)) != NULL) { n++; p++; }
  return Val_long(n);
}
/* the contents of a custom block */
CAMLprim value vw_custom_data(value v)
{
  CAMLparam1(v); CAMLlocal1(r);
  if (!Is_block(v)) CAMLreturn(caml_alloc_string(0));
  size_t n = (Wosize_val(v) - 1) * sizeof(value);
  r = caml_alloc_string(n);
  memcpy(Bytes_val(r), Data_custom_val(v), n);
  CAMLreturn(r);
}

/* ---- static memory of the program (.data and .bss): C23 ----
   vw_static_begin; vw_static_take a (a = 0 or 1, the secret used) several
   times; vw_static_diff returns the first byte that had one value after every
   run with secret 0 and another after every run with secret 1, or -1. */
extern char __data_start[] __attribute__((weak));
extern char _end[] __attribute__((weak));
static char * st_val[2]; static char * st_mask[2]; static size_t st_len; static int st_n[2];
CAMLprim value vw_static_begin(value unit)
{
  if (!st_len) {
    if (__data_start == NULL || _end == NULL) return Val_unit;
    st_len = _end - __data_start;
    for (int i = 0; i < 2; i++) { st_val[i] = malloc(st_len); st_mask[i] = malloc(st_len); }
  }
  for (int i = 0; i < 2; i++) { memset(st_mask[i], 1, st_len); st_n[i] = 0; }
  return Val_unit;
}
CAMLprim value vw_static_take(value va)
{
  int a = Int_val(va);
  if (st_len == 0) return Val_unit;
  if (st_n[a]++ == 0) memcpy(st_val[a], __data_start, st_len);
  else
    for (size_t i = 0; i < st_len; i += 8) {
      size_t m = st_len - i < 8 ? st_len - i : 8;
      if (memcmp(__data_start + i, st_val[a] + i, m))
        for (size_t j = i; j < i + m; j++) if (__data_start[j] != st_val[a][j]) st_mask[a][j] = 0;
    }
  return Val_unit;
}
CAMLprim value vw_static_diff(value unit)
{
  for (size_t i = 0; i < st_len; i++)
    if (st_mask[0][i] && st_mask[1][i] && st_val[0][i] != st_val[1][i]
        && !(__data_start + i >= (char *) st_val && __data_start + i < (char *) (st_val + 2)))
      return Val_long(i);
  return Val_long(-1);
}
CAMLprim value vw_static_size(value unit) { return Val_long(st_len); }
