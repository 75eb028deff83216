/* Event recorder and test runner; always compiled by the reference compiler.
 * Every test function logs events through ev*(); the runner prints, per
 * (test, vector), the number of events, their hash and the first ones. */
#define _GNU_SOURCE
#ifdef _WIN32
#define __USE_MINGW_ANSI_STDIO 1
#else
#include <setjmp.h>
#endif
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef _WIN32
#include <sys/time.h>
#include <unistd.h>
#endif
#include <math.h>
#ifdef _WIN32
#include <windows.h>
/* no unwinding: the code under test has no unwind information */
typedef void *sigjmp_buf[5];
static int jmp_value;
static void __attribute__((noreturn, noinline)) siglongjmp(sigjmp_buf b, int v) { jmp_value = v; __builtin_longjmp(b, 1); }
#define sigsetjmp(b, m) (__builtin_setjmp(b) ? jmp_value : 0)
#define SYSV __attribute__((sysv_abi))
#else
#define SYSV
#endif

#ifndef NTESTS
#define NTESTS 128
#endif
#define KEEP 160

#ifdef MS
#define API __attribute__((ms_abi)) /* the program under test follows the Microsoft calling convention */
#else
#define API
#endif
extern long long API in(int k);
static uint64_t kept[KEEP], hash_, nev;
static sigjmp_buf jb;
static uint64_t cap = 200000;
static int cur_test, cur_vec;

static void API __attribute__((used)) ev_c(unsigned long long x) {
	if (nev < KEEP) kept[nev] = x;
	nev++;
	hash_ = (hash_ ^ x) * 0x9E3779B97F4A7C15ull;
	hash_ ^= hash_ >> 29;
	if (nev > cap) siglongjmp(jb, 1000);
}
extern int misaligned;
/* ends the test from inside any function */
static void API __attribute__((used)) leave_c(unsigned long long x) {
	ev_c(x);
	if (misaligned) ev_c(0xbad1000000000000ull);
	siglongjmp(jb, 2000);
}
/* With CONFINE, the function under test runs on a stack of its own whose first frame ends at an
 * inaccessible page, and may be single-stepped. */
#ifdef CONFINE
#define ENTER "	mov guard_top(%rip), %rsp\n	cmpl $0, stepping(%rip)\n	je 1f\n	pushfq\n	orl $0x100, (%rsp)\n	popfq\n1:\n"
#define LEAVE "	pushfq\n	andl $~0x100, (%rsp)\n	popfq\n"
#define EXPECTED "guard_top(%rip)"
#else
#define ENTER
#define LEAVE
#define EXPECTED "%rsp"
#endif
#ifndef MS
/* Entry points of the recorder. They check that the caller keeps the stack aligned and leave
 * garbage in every register a function may change, as any other callee might. */
__asm__(
"	.text\n"
"clobber_:\n"
"	movabs $0xa5a5a5a5a5a5a5a5, %rcx\n	mov %rcx, %rdx\n	mov %rcx, %rsi\n	mov %rcx, %rdi\n	mov %rcx, %r8\n	mov %rcx, %r9\n"
"	mov %rcx, %r10\n	mov %rcx, %r11\n"
"	movq %rcx, %xmm0\n	movlhps %xmm0, %xmm0\n"
"	movaps %xmm0, %xmm1\n	movaps %xmm0, %xmm2\n	movaps %xmm0, %xmm3\n	movaps %xmm0, %xmm4\n	movaps %xmm0, %xmm5\n	movaps %xmm0, %xmm6\n"
"	movaps %xmm0, %xmm7\n	movaps %xmm0, %xmm8\n	movaps %xmm0, %xmm9\n	movaps %xmm0, %xmm10\n	movaps %xmm0, %xmm11\n	movaps %xmm0, %xmm12\n"
"	movaps %xmm0, %xmm13\n	movaps %xmm0, %xmm14\n	movaps %xmm0, %xmm15\n"
"	movq $-1, -8(%rsp)\n	movq $-1, -64(%rsp)\n	movq $-1, -128(%rsp)\n"
"	ret\n"
#define STUB(n) \
"	.globl " #n "\n" #n ":\n" \
"	push %rbp\n	mov %rsp, %rbp\n	test $15, %spl\n	jz 1f\n	incl misaligned(%rip)\n	and $-16, %rsp\n1:\n" \
"	call " #n "_c\n	mov %rbp, %rsp\n	pop %rbp\n"
STUB(ev) "	movabs $0x5a5a5a5a5a5a5a5a, %rax\n	jmp clobber_\n"
STUB(in) "	jmp clobber_\n"
STUB(leave) "	ud2\n"
/* int call_checked(void (*fn)(int), int v): calls fn(v); the result has a bit for each register that fn failed to preserve */
"	.globl call_checked\n"
"call_checked:\n"
"	push %rbx\n	push %rbp\n	push %r12\n	push %r13\n	push %r14\n	push %r15\n	sub $24, %rsp\n"
"	stmxcsr 8(%rsp)\n	mov %rsp, saved_rsp(%rip)\n	mov %rdi, %rax\n	mov %esi, %edi\n"
"	movabs $0x1111222233334444, %rbx\n	lea 1(%rbx), %rbp\n	lea 2(%rbx), %r12\n	lea 3(%rbx), %r13\n	lea 4(%rbx), %r14\n	lea 5(%rbx), %r15\n"
ENTER "	call *%rax\n" LEAVE
"	xor %eax, %eax\n	mov %rsp, %rdx\n	mov saved_rsp(%rip), %rsp\n	movabs $0x1111222233334444, %rcx\n"
"	cmp " EXPECTED ", %rdx\n	je 1f\n	or $1, %eax\n1:	cmp %rcx, %rbx\n	je 1f\n	or $2, %eax\n1:	inc %rcx\n	cmp %rcx, %rbp\n	je 1f\n	or $4, %eax\n"
"1:	inc %rcx\n	cmp %rcx, %r12\n	je 1f\n	or $8, %eax\n1:	inc %rcx\n	cmp %rcx, %r13\n	je 1f\n	or $16, %eax\n"
"1:	inc %rcx\n	cmp %rcx, %r14\n	je 1f\n	or $32, %eax\n1:	inc %rcx\n	cmp %rcx, %r15\n	je 1f\n	or $64, %eax\n1:\n"
"	pushfq\n	pop %rcx\n	test $0x400, %ecx\n	jz 1f\n	or $128, %eax\n	cld\n1:\n"
"	stmxcsr 12(%rsp)\n	mov 12(%rsp), %ecx\n	xor 8(%rsp), %ecx\n	test $0xffc0, %ecx\n	jz 1f\n	or $256, %eax\n1:\n"
"	add $24, %rsp\n	pop %r15\n	pop %r14\n	pop %r13\n	pop %r12\n	pop %rbp\n	pop %rbx\n	ret\n"
);
#else
__asm__(
"	.text\n"
"clobber_:\n"
"	movabs $0xa5a5a5a5a5a5a5a5, %rcx\n	mov %rcx, %rdx\n	mov %rcx, %r8\n	mov %rcx, %r9\n	mov %rcx, %r10\n	mov %rcx, %r11\n"
"	movq %rcx, %xmm0\n	movlhps %xmm0, %xmm0\n	movaps %xmm0, %xmm1\n	movaps %xmm0, %xmm2\n	movaps %xmm0, %xmm3\n	movaps %xmm0, %xmm4\n	movaps %xmm0, %xmm5\n"
"	movq $-1, -8(%rsp)\n	movq $-1, -64(%rsp)\n	movq $-1, -128(%rsp)\n"
"	ret\n"
/* the callee owns the 32 bytes above the return address */
#define STUB(n) \
"	.globl " #n "\n" #n ":\n" \
"	movq $-1, 8(%rsp)\n	movq $-2, 16(%rsp)\n	movq $-3, 24(%rsp)\n	movq $-4, 32(%rsp)\n" \
"	push %rbp\n	mov %rsp, %rbp\n	test $15, %spl\n	jz 1f\n	incl misaligned(%rip)\n	and $-16, %rsp\n1:\n" \
"	sub $32, %rsp\n	call " #n "_c\n	mov %rbp, %rsp\n	pop %rbp\n"
STUB(ev) "	movabs $0x5a5a5a5a5a5a5a5a, %rax\n	jmp clobber_\n"
STUB(in) "	jmp clobber_\n"
STUB(leave) "	ud2\n"
/* int call_checked(void (*fn)(int), int v): calls fn(v); the result has a bit for each register that fn failed to preserve */
"	.globl call_checked\n"
"call_checked:\n"
"	push %rbx\n	push %rbp\n	push %r12\n	push %r13\n	push %r14\n	push %r15\n	sub $24, %rsp\n"
"	stmxcsr 8(%rsp)\n	mov %rsp, saved_rsp(%rip)\n	mov %rdi, %rax\n	mov %esi, %ecx\n"
"	movabs $0x1111222233334444, %rbx\n	lea 1(%rbx), %rbp\n	lea 2(%rbx), %r12\n	lea 3(%rbx), %r13\n	lea 4(%rbx), %r14\n	lea 5(%rbx), %r15\n"
"	lea 6(%rbx), %rdi\n	lea 7(%rbx), %rsi\n"
#define X(k) "	lea 1" #k "(%rbx), %rdx\n	movq %rdx, %xmm" #k "\n	movlhps %xmm" #k ", %xmm" #k "\n"
X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
ENTER "	sub $32, %rsp\n	movq $77, saved_rsp+8(%rip)\n"
"	call *%rax\n" LEAVE
"	add $32, %rsp\n"
"	xor %eax, %eax\n	mov %rsp, %rdx\n	mov saved_rsp(%rip), %rsp\n	movabs $0x1111222233334444, %rcx\n"
"	cmp " EXPECTED ", %rdx\n	je 1f\n	or $1, %eax\n1:	cmp %rcx, %rbx\n	je 1f\n	or $2, %eax\n1:	inc %rcx\n	cmp %rcx, %rbp\n	je 1f\n	or $4, %eax\n"
"1:	inc %rcx\n	cmp %rcx, %r12\n	je 1f\n	or $8, %eax\n1:	inc %rcx\n	cmp %rcx, %r13\n	je 1f\n	or $16, %eax\n"
"1:	inc %rcx\n	cmp %rcx, %r14\n	je 1f\n	or $32, %eax\n1:	inc %rcx\n	cmp %rcx, %r15\n	je 1f\n	or $64, %eax\n"
"1:	inc %rcx\n	cmp %rcx, %rdi\n	je 1f\n	or $512, %eax\n1:	inc %rcx\n	cmp %rcx, %rsi\n	je 1f\n	or $1024, %eax\n1:	movabs $0x1111222233334444, %rcx\n"
#define Y(k) "	lea 1" #k "(%rcx), %rdx\n	movq %xmm" #k ", %r8\n	cmp %rdx, %r8\n	jne 1f\n	movhlps %xmm" #k ", %xmm" #k "\n	movq %xmm" #k ", %r8\n	cmp %rdx, %r8\n	je 2f\n1:	or $2048, %eax\n2:\n"
Y(6) Y(7) Y(8) Y(9) Y(10) Y(11) Y(12) Y(13) Y(14) Y(15)
"	pushfq\n	pop %rcx\n	test $0x400, %ecx\n	jz 1f\n	or $128, %eax\n	cld\n1:\n"
"	stmxcsr 12(%rsp)\n	mov 12(%rsp), %ecx\n	xor 8(%rsp), %ecx\n	test $0xffc0, %ecx\n	jz 1f\n	or $256, %eax\n1:\n"
"	add $24, %rsp\n	pop %r15\n	pop %r14\n	pop %r13\n	pop %r12\n	pop %rbp\n	pop %rbx\n	ret\n"
);
#endif
int misaligned;
void *saved_rsp[2];
extern void API ev(unsigned long long);
extern int SYSV call_checked(void (API *)(int), int);
void API evd(double d) {
	uint64_t u;
	if (d != d) u = 0x7ff8000000000001ull; else memcpy(&u, &d, 8);
	ev(u);
}
void API evf(float d) {
	uint32_t u;
	if (d != d) u = 0x7fc00001; else memcpy(&u, &d, 4);
	ev(u);
}
/* by-memory forms do not depend on the floating-point calling convention */
void API evdp(void *p) { double d; memcpy(&d, p, 8); evd(d); }
void API evfp(void *p) { float d; memcpy(&d, p, 4); evf(d); }
void API evm(void *p, unsigned long long n) {
	unsigned char *c = p;
	uint64_t h = n;
	for (unsigned long i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
	ev(h);
}
void API evs(char *s) { evm(s, strlen(s)); }

static uint64_t mix(uint64_t x) {
	x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
static uint64_t salt;
static const int64_t interesting[] = {
	0, 1, -1, 2, -2, 3, 5, 7, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, -128, -129, 129, 255, 256, 257,
	32767, 32768, -32768, -32769, 65535, 65536, 65537, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll,
	4294967295ll, 4294967296ll, 4294967297ll, 0x7fffffffffffffffll, (int64_t)0x8000000000000000ull,
	0x8000000000000001ll, 0x100000000ll, 0x5555555555555555ll, 0x0123456789abcdefll, -3, -7, -100, 12345, -54321,
	1000000007ll, 0x80000000ffll, 0xff00, 0x7fff0000, 0xdeadbeef,
};
/* k-th input of this (test, vector) */
static long long API __attribute__((used)) in_c(int k) {
	uint64_t h = mix(salt ^ mix(cur_test * 1000003ull + cur_vec * 7919ull + k));
	switch (h & 7) {
	case 0: case 1: case 2:
		return interesting[(h >> 8) % (sizeof interesting / sizeof *interesting)];
	case 3: case 4: return (int64_t)((h >> 8) % 21) - 6;
	case 5: return (int64_t)((h >> 8) % 2001) - 1000;
	case 6: return (int32_t)(h >> 16);
	default: return (int64_t)mix(h);
	}
}
/* small non-negative input in [0, m) */
int API inm(int k, int m) { return (int)((unsigned long long)mix(in(k) * 31 + k) % (unsigned)m); }
static const double fints[] = { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, -2.5, 0.1, 100.25, -1e10, 1e10, 1e18,
	-1e18, 1.0/3, 255.0, 256.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0,
	4294967296.0, 9007199254740993.0, 9223372036854775807.0, 1.8446744073709550e19, 1e300, -1e300, 1e-300, 5e-324,
	1.17549435e-38, 3.4028234e38, 1e39, 16777217.0, 0.99999994 };
double API ind(int k) {
	uint64_t h = mix(salt ^ mix(cur_test * 999983ull + cur_vec * 104729ull + k + 77));
	switch (h & 15) {
	case 0: return NAN;
	case 1: return INFINITY;
	case 2: return -INFINITY;
	case 3: case 4: return (double)((int64_t)((h >> 8) % 2001) - 1000) / 8;
	case 5: return (double)(int64_t)mix(h);
	case 6: return (double)(int32_t)(h >> 20) / 3.0;
	case 7: return ldexp((double)(h >> 11), (int)(mix(h) % 200) - 150);
	case 8: case 9: case 10: return (double)((int64_t)((h >> 8) % 41) - 20);
	default: return fints[(h >> 8) % (sizeof fints / sizeof *fints)];
	}
}
float API inf_(int k) { return (float)ind(k); }
void API indp(double *p, int k) { *p = ind(k); }
void API infp(float *p, int k) { *p = (float)ind(k); }

#ifdef MS
/* library functions the reference compilers call by themselves */
void *API ms_memcpy(void *d, const void *s, unsigned long long n) { return memcpy(d, s, n); }
void *API ms_memmove(void *d, const void *s, unsigned long long n) { return memmove(d, s, n); }
void *API ms_memset(void *d, int c, unsigned long long n) { return memset(d, c, n); }
int API ms_memcmp(const void *a, const void *b, unsigned long long n) { return memcmp(a, b, n); }
#endif
#ifdef _WIN32
static int fault;
static void faulted(void) { siglongjmp(jb, fault); }
static LONG CALLBACK handler(EXCEPTION_POINTERS *e) {
	switch (e->ExceptionRecord->ExceptionCode) {
	case EXCEPTION_ACCESS_VIOLATION: case EXCEPTION_STACK_OVERFLOW: fault = 11; break;
	case EXCEPTION_ILLEGAL_INSTRUCTION: case EXCEPTION_PRIV_INSTRUCTION: fault = 4; break;
	case EXCEPTION_INT_DIVIDE_BY_ZERO: case EXCEPTION_INT_OVERFLOW: fault = 8; break;
	case EXCEPTION_BREAKPOINT: fault = 5; break;
	default: return EXCEPTION_CONTINUE_SEARCH;
	}
	e->ContextRecord->Rip = (DWORD64)faulted;
	e->ContextRecord->Rsp = ((e->ContextRecord->Rsp - 256) & -16) - 8;
	return EXCEPTION_CONTINUE_EXECUTION;
}
#else
static void handler(int s) { siglongjmp(jb, s); }
#endif
#ifdef CONFINE
#include <sys/mman.h>
#include <ucontext.h>
void *guard_top;
int stepping;
static char *guard_low;
static volatile int active;
static long steps, objects, maxdepth, vec_steps;
enum { SLOTS = 200, PAGE = 4096, SLOT = 4 * PAGE, STACK = 1 << 20, DIRTY = 12288, MAXSTEPS = 40000 };
static char *slots;
static struct { char *base, *from; unsigned long n; } objs[SLOTS];
static int nobjs;
/* Offers off..off+n of an object of the given alignment; what is outside is inaccessible after it
 * (even vectors) or before it (odd ones), or holds a pattern if the alignment leaves room. */
void *API gpart(unsigned long align, unsigned long off, unsigned long n) {
	if (nobjs == SLOTS) { puts("slots"); exit(3); }
	char *base = slots + nobjs * (long)SLOT + PAGE;
	uintptr_t p = cur_vec & 1 ? ((uintptr_t)base - off + align - 1) & -align : ((uintptr_t)base + 2 * PAGE - off - n) & -align;
	memset(base, 0xC7, 2 * PAGE);
	objs[nobjs].base = base; objs[nobjs].from = (char *)p + off; objs[nobjs].n = n;
	memset((char *)p + off, 0, n);
	nobjs++; objects++;
	return (void *)p;
}
void *API gmem(unsigned long n, unsigned long align) { return gpart(align, 0, n); }
/* an address nothing may be read from or written to */
void *API gnone(void) { return slots + (nobjs % SLOTS) * (long)SLOT + 1024; }
static void check_objects(void) {
	for (int i = 0; i < nobjs; i++)
		for (char *c = objs[i].base; c < objs[i].base + 2 * PAGE; c++) {
			if (c == objs[i].from) c += objs[i].n;
			if (c < objs[i].base + 2 * PAGE && *c != (char)0xC7) { ev_c(0xbad2000000000000ull + i); break; }
		}
	nobjs = 0;
}
/* after every instruction: what is below the stack pointer is nobody's */
static void trap(int s, siginfo_t *si, void *u) {
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	if (!active || ++vec_steps > MAXSTEPS) { g[REG_EFL] &= ~0x100; return; }
	steps++;
	char *sp = (char *)g[REG_RSP];
	if (sp < guard_low || sp > (char *)guard_top) return;
	if ((char *)guard_top - sp > maxdepth) maxdepth = (char *)guard_top - sp;
#ifdef MS
	/* no red zone; the library has one */
	if ((unsigned long)g[REG_RIP] > 0x40000000) sp -= 128;
#else
	sp -= 128;
#endif
	long n = sp - guard_low < DIRTY ? sp - guard_low : DIRTY;
	if (n > 0) memset(sp - n, 0x5C, n);
}
static void confine_init(void) {
	slots = mmap(0, SLOTS * (long)SLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < SLOTS; i++) mprotect(slots + i * (long)SLOT + PAGE, 2 * PAGE, PROT_READ | PROT_WRITE);
	guard_low = (char *)mmap(0, STACK + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + PAGE;
	mprotect(guard_low, STACK, PROT_READ | PROT_WRITE);
	guard_top = guard_low + STACK;
	struct sigaction sa = { .sa_flags = SA_ONSTACK | SA_SIGINFO };
	sa.sa_sigaction = trap;
	if (stepping) sigaction(SIGTRAP, &sa, 0);
}
#endif
static volatile int sink;
static void __attribute__((noinline)) dirty_stack(unsigned char b) {
	unsigned char buf[16384];
	memset(buf, b, sizeof buf);
	__asm__ volatile("" ::"r"(buf) : "memory");
	sink = buf[17];
}
/* caller-saved registers must not be relied upon to be clean */
static void __attribute__((noinline)) dirty_regs(void) {
	__asm__ volatile("mov $0xa5a5a5a5a5a5a5a5,%%rax\n mov %%rax,%%rcx\n mov %%rax,%%rdx\n mov %%rax,%%rsi\n"
		"mov %%rax,%%r8\n mov %%rax,%%r9\n mov %%rax,%%r10\n mov %%rax,%%r11\n"
		"movq %%rax,%%xmm1\n movq %%rax,%%xmm2\n movq %%rax,%%xmm3\n movq %%rax,%%xmm7\n"
		::: "rax","rcx","rdx","rsi","r8","r9","r10","r11","xmm1","xmm2","xmm3","xmm7");
}

#ifdef _WIN32
extern void (*test_table[100])(int);
#define tests test_table
#else
#define W(n) void __attribute__((weak)) API t_##n(int);
#define R(n) t_##n,
#define TEN(M, p) M(p##0) M(p##1) M(p##2) M(p##3) M(p##4) M(p##5) M(p##6) M(p##7) M(p##8) M(p##9)
TEN(W, ) TEN(W, 1) TEN(W, 2) TEN(W, 3) TEN(W, 4) TEN(W, 5) TEN(W, 6) TEN(W, 7) TEN(W, 8) TEN(W, 9)
static void (API *tests[])(int) = {
TEN(R, ) TEN(R, 1) TEN(R, 2) TEN(R, 3) TEN(R, 4) TEN(R, 5) TEN(R, 6) TEN(R, 7) TEN(R, 8) TEN(R, 9)
};
#endif
/* called before each vector when the test file provides it (resets globals) */
void __attribute__((weak)) API reset_globals(void);

int main(int argc, char **argv) {
	int nvec = argc > 1 ? atoi(argv[1]) : 8;
	salt = argc > 2 ? strtoull(argv[2], 0, 10) : 0;
	int only = argc > 3 ? atoi(argv[3]) : -1;
	if (argc > 4) cap = strtoull(argv[4], 0, 10);
#ifdef _WIN32
	AddVectoredExceptionHandler(1, handler);
#else
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, 0);
	struct sigaction sa = { .sa_handler = handler, .sa_flags = SA_ONSTACK | SA_NODEFER };
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0);
	sigaction(SIGFPE, &sa, 0); sigaction(SIGVTALRM, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGTRAP, &sa, 0);
#endif
#ifdef CONFINE
	stepping = argc > 5;
	confine_init();
#endif
	static int t, v; /* static: survive siglongjmp */
	for (t = 0; t < 100; t++) {
		if (!tests[t] || (only >= 0 && only != t)) continue;
		for (v = 0; v < nvec; v++) {
			cur_test = t; cur_vec = v;
			nev = 0; hash_ = 0x1234;
			int s = sigsetjmp(jb, 1);
			if (s == 0) {
#ifndef _WIN32
				struct itimerval it = { {0, 0}, {6, 0} };
				setitimer(ITIMER_VIRTUAL, &it, 0);
				if (reset_globals) reset_globals();
#endif
				dirty_stack(0xA5 + v);
#ifdef CONFINE
				memset((char *)guard_top - 65536, 0xA5 + v, 65536);
				nobjs = 0;
				vec_steps = 0;
				active = 1;
#endif
				dirty_regs();
				misaligned = 0;
				int lost = call_checked(tests[t], v);
				if (lost) ev_c(0xbad0000000000000ull + lost);
				if (misaligned) ev_c(0xbad1000000000000ull);
			}
#ifdef CONFINE
			active = 0;
			__asm__ volatile("pushfq\n andl $~0x100, (%%rsp)\n popfq" ::: "memory", "cc");
			check_objects();
#endif
#ifndef _WIN32
			struct itimerval off = { {0, 0}, {0, 0} };
			setitimer(ITIMER_VIRTUAL, &off, 0);
#endif
			printf("%d %d %d %llu %016llx", t, v, s, (unsigned long long)nev, (unsigned long long)hash_);
			for (uint64_t i = 0; i < nev && i < KEEP; i++) printf(" %llx", (unsigned long long)kept[i]);
			printf("\n");
			fflush(stdout);
		}
	}
#ifdef CONFINE
	printf("CONFINE steps %ld objects %ld stack %ld\n", steps, objects, maxdepth);
#endif
	printf("END\n");
	return 0;
}
