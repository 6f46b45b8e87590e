/* Controlled environment for the explorers: instruction tracing. */
#define _GNU_SOURCE
#include <signal.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <ucontext.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/callback.h>

/* ---- instruction traces: the sequence of program counters executed by a
   closure, hashed; obtained by single-stepping in-process (x86 trap flag). */
static volatile uint64_t tf_hash, tf_count;
static volatile int tf_on;
static uintptr_t *tf_log; static uint64_t tf_logmax;
/* instructions of the AES-NI and PCLMULQDQ extensions met */
static volatile uint64_t tf_aes, tf_pclmul; static int tf_decode;
static void tf_insn(const unsigned char * p)
{
  if (p[0] == 0x66) {
    p++;
    if ((p[0] & 0xf0) == 0x40) p++;
    if (p[0] != 0x0f) return;
    if (p[1] == 0x38 && p[2] >= 0xdb && p[2] <= 0xdf) tf_aes++;
    if (p[1] == 0x3a && p[2] == 0xdf) tf_aes++;
    if (p[1] == 0x3a && p[2] == 0x44) tf_pclmul++;
  } else if (p[0] == 0xc4) {        /* the same, VEX-encoded */
    int m = p[1] & 0x1f;
    if (m == 2 && p[3] >= 0xdb && p[3] <= 0xdf) tf_aes++;
    if (m == 3 && p[3] == 0xdf) tf_aes++;
    if (m == 3 && p[3] == 0x44) tf_pclmul++;
  }
}
static void tf_handler(int sig, siginfo_t *si, void *u)
{
  ucontext_t *uc = u;
  uint64_t pc = (uint64_t) uc->uc_mcontext.gregs[REG_RIP];
  if (!tf_on) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
  if (tf_log && tf_count < tf_logmax) tf_log[tf_count] = pc;
  tf_hash = (tf_hash ^ pc) * 0x9E3779B97F4A7C15ull; tf_hash ^= tf_hash >> 29;
  tf_count++;
  if (tf_decode) tf_insn((const unsigned char *) pc);
}
/* vw_extensions true: start counting; false: stop and return the counts */
CAMLprim value vw_extensions(value on)
{
  value r;
  if (Bool_val(on)) { tf_aes = tf_pclmul = 0; tf_decode = 1; } else tf_decode = 0;
  r = caml_alloc_small(2, 0);
  Field(r, 0) = Val_long(tf_aes); Field(r, 1) = Val_long(tf_pclmul);
  return r;
}
/* returns (count, hash) */
CAMLprim value vw_trace(value f)
{
  CAMLparam1(f);
  CAMLlocal2(r, v);
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = tf_handler; sa.sa_flags = SA_SIGINFO; sigemptyset(&sa.sa_mask);
  sigaction(SIGTRAP, &sa, &old);
  tf_hash = 0; tf_count = 0; tf_on = 1;
#if defined(__x86_64__)
  __asm__ volatile("subq $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "cc", "memory");
#endif
  v = caml_callback_exn(f, Val_unit);
#if defined(__x86_64__)
  __asm__ volatile("subq $128,%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "cc", "memory");
#endif
  tf_on = 0;
  sigaction(SIGTRAP, &old, NULL);
  r = caml_alloc_tuple(3);
  Store_field(r, 0, Val_long(tf_count));
  Store_field(r, 1, Val_long(tf_hash >> 2));
  Store_field(r, 2, Is_exception_result(v) ? Val_false : Val_true);
  CAMLreturn(r);
}

/* ---- controlled environment: entropy and file reads ----
   A schedule is a list of answers, one per call; when it is exhausted every
   call is fully served.  The bytes served are those of [src], in order, then
   end of file.  Inactive (the default): the real functions are called. */
#include <errno.h>
#include <unistd.h>
static int sch_on, sch_len, sch_pos, sch_calls, sch_bad;
static int sch[64];
static unsigned char *src; static long src_len, src_pos; static int src_cyc;
enum { A_FULL = 0, A_EOF = -1, A_EIO = -2, A_EINTR = -3 };
CAMLprim value vw_sched(value vsrc, value vsched)
{
  free(src); src = NULL;
  src_len = caml_string_length(vsrc); src = malloc(src_len + 1); memcpy(src, String_val(vsrc), src_len);
  src_pos = 0; sch_pos = 0; sch_calls = 0; sch_bad = 0; src_cyc = 0;
  sch_len = 0;
  while (Is_block(vsched) && sch_len < 64) { sch[sch_len++] = Int_val(Field(vsched, 0)); vsched = Field(vsched, 1); }
  sch_on = 1;
  return Val_unit;
}
/* (bytes served, calls, malformed requests) */
CAMLprim value vw_sched_end(value unit)
{
  sch_on = 0;
  value r = caml_alloc_tuple(3);
  Field(r, 0) = Val_long(src_pos); Field(r, 1) = Val_long(sch_calls); Field(r, 2) = Val_long(sch_bad);
  return r;
}
/* the bytes of [src] again and again: a source that never ends */
CAMLprim value vw_sched_cyc(value unit) { src_cyc = 1; return Val_unit; }
CAMLprim value vw_sched_on(value b) { sch_on = Bool_val(b); return Val_unit; }
static int next_answer(void) { sch_calls++; return sch_pos < sch_len ? sch[sch_pos++] : A_FULL; }
static long serve(void *buf, long n)
{
  if (src_cyc) {
    long d = 0;
    while (d < n) {
      long o = src_pos % src_len, c = src_len - o; if (c > n - d) c = n - d;
      memcpy((char *) buf + d, src + o, c); d += c; src_pos += c;
    }
    return n;
  }
  if (n > src_len - src_pos) n = src_len - src_pos;
  memcpy(buf, src + src_pos, n); src_pos += n; return n;
}
ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
  if (!sch_on) return __real_read(fd, buf, n);
  int a = next_answer();
  if (a == A_EOF) { src_cyc = 0; src_pos = src_len; return 0; }
  if (a == A_EIO) { errno = EIO; return -1; }
  if (a == A_EINTR) { errno = EINTR; return -1; }
  if (a > 0 && (size_t) a < n) n = a;
  return serve(buf, n);
}
int __real_getentropy(void *buf, size_t n);
int __wrap_getentropy(void *buf, size_t n)
{
  if (!sch_on) return __real_getentropy(buf, n);
  int a = next_answer();
  if (n > 256) { sch_bad++; errno = EIO; return -1; }
  if (a < 0) { errno = (a == A_EINTR) ? EINTR : EIO; return -1; }
  if (!src_cyc && (long) n > src_len - src_pos) { errno = EIO; return -1; }
  serve(buf, n); return 0;
}
ssize_t __real_getrandom(void *buf, size_t n, unsigned flags);
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags)
{
  if (!sch_on) return __real_getrandom(buf, n, flags);
  int a = next_answer();
  if (a < 0) { errno = (a == A_EINTR) ? EINTR : EIO; return -1; }
  if (a > 0 && (size_t) a < n) n = a;
  if (!src_cyc && (long) n > src_len - src_pos) { errno = EIO; return -1; }
  return serve(buf, n);
}
ssize_t __wrap___read_chk(int fd, void *buf, size_t n, size_t buflen) { return __wrap_read(fd, buf, n); }

/* ---- emulated processor features (see vw_asm.h) ----
   Each execution of RDRAND consumes one answer of the script: '1' success,
   '0' failure (the destination gets a marker, carry clear), 'F' success with
   all bits set.  Beyond the script: the last character given by [tail]. */
uint64_t vw_rd_val; uint32_t vw_rd_ok; uint32_t vw_ecx_keep = 0xffffffffu;
static char *rd_script; static long rd_len, rd_pos, rd_calls; static char rd_tail = '1';
static uint64_t rd_state; static uint64_t rd_log[4096]; static long rd_nlog;
__attribute__((constructor)) static void vw_cpu_init(void)
{
  char *s = getenv("VW_ECX_CLEAR");
  if (s) vw_ecx_keep = ~ (uint32_t) strtoul(s, NULL, 0);
}
__attribute__((target("general-regs-only"), used)) void vw_rdrand_c(void)
{
  char a = rd_pos < rd_len ? rd_script[rd_pos++] : rd_tail;
  rd_calls++;
  rd_state += 0x9E3779B97F4A7C15ull;
  uint64_t z = rd_state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
  if (a == '0') { vw_rd_ok = 0; vw_rd_val = 0xEEEEEEEEEEEEEEEEull; return; }
  vw_rd_ok = 1; vw_rd_val = a == 'F' ? ~0ull : z;
  if (rd_nlog < 4096) rd_log[rd_nlog++] = vw_rd_val;
}
#if defined(__x86_64__)
__asm__(".text\n.globl vw_rdrand_stub\nvw_rdrand_stub:\n"
  "pushq %rbp\npushq %rax\npushq %rcx\npushq %rdx\npushq %rsi\npushq %rdi\npushq %r8\npushq %r9\npushq %r10\npushq %r11\n"
  "movq %rsp,%rbp\nandq $-16,%rsp\ncall vw_rdrand_c\nmovq %rbp,%rsp\n"
  "popq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdi\npopq %rsi\npopq %rdx\npopq %rcx\npopq %rax\npopq %rbp\nbtl $0,vw_rd_ok(%rip)\nret\n");
#endif
CAMLprim value vw_rd_script(value s, value tail)
{
  free(rd_script); rd_len = caml_string_length(s); rd_script = malloc(rd_len + 1); memcpy(rd_script, String_val(s), rd_len);
  rd_pos = rd_calls = rd_nlog = 0; rd_tail = (char) Int_val(tail); return Val_unit;
}
/* number of executions, values delivered (8 bytes each) */
CAMLprim value vw_rd_end(value unit)
{
  CAMLparam0(); CAMLlocal2(r, s);
  s = caml_alloc_string(8 * rd_nlog); memcpy(Bytes_val(s), rd_log, 8 * rd_nlog);
  r = caml_alloc_tuple(2); Store_field(r, 0, Val_long(rd_calls)); Store_field(r, 1, s);
  rd_len = rd_pos = 0; rd_tail = '1';
  CAMLreturn(r);
}

/* ---- random devices that do not exist (VW_NODEV) ---- */
#include <stdarg.h>
#include <fcntl.h>
static int nodev(const char *p)
{
  return getenv("VW_NODEV") && (!strcmp(p, "/dev/random") || !strcmp(p, "/dev/urandom"));
}
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (nodev(p)) { errno = ENOENT; return -1; }
  return __real_open(p, fl, mode);
}
int __real_open64(const char *p, int fl, ...);
int __wrap_open64(const char *p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (nodev(p)) { errno = ENOENT; return -1; }
  return __real_open64(p, fl, mode);
}
