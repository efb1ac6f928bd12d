/* Calls a stack probe routine on a private stack whose pages are inaccessible until touched, and
 * prints what it did.  Freestanding; the same source for 32 and 64 bits.
 *   probe:BITS kind offset size > spdelta changed-registers caller's-frame-kept n page...
 * Pages are counted downwards from the page of the caller's stack pointer. */
typedef unsigned long u;
typedef unsigned long long u64;
#define PAGE 4096ul
#define PAGES 700ul
#ifndef SEED
#define SEED 1
#endif
#ifndef RUNS
#define RUNS 2000
#endif

#ifdef __x86_64__
#define REGS 16
static long sys(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
enum { WRITE = 1, MMAP = 9, MPROTECT = 10, SIGACTION = 13, ALARM = 37, EXIT = 231, ALTSTACK = 131 };
#define ADDR_OFF 16
__asm__(".globl restore\nrestore: mov $15, %eax\nsyscall\n");
#else
#define REGS 8
long sys6(long n, long a, long b, long c, long d, long e, long f);
__asm__("sys6: push %ebx; push %esi; push %edi; push %ebp\n"
        "mov 20(%esp), %eax; mov 24(%esp), %ebx; mov 28(%esp), %ecx; mov 32(%esp), %edx\n"
        "mov 36(%esp), %esi; mov 40(%esp), %edi; mov 44(%esp), %ebp\n"
        "int $0x80\npop %ebp; pop %edi; pop %esi; pop %ebx; ret\n");
#define sys sys6
enum { WRITE = 4, MMAP = 192, MPROTECT = 125, SIGACTION = 174, ALARM = 27, EXIT = 252, ALTSTACK = 186 };
#define ADDR_OFF 12
__asm__(".globl restore\nrestore: mov $173, %eax\nint $0x80\n");
#endif
void restore(void);

/* the call itself: registers in, registers out */
u in_regs[REGS], out_regs[REGS], saved_sp;
void call_probe(void);
#ifdef __x86_64__
__asm__(".intel_syntax noprefix\n.globl call_probe\ncall_probe:\n"
        "push rbx\npush rbp\npush r12\npush r13\npush r14\npush r15\n"
        "mov saved_sp[rip], rsp\n"
        "mov rax, in_regs[rip]\nmov rcx, in_regs[rip+8]\nmov rdx, in_regs[rip+16]\nmov rbx, in_regs[rip+24]\n"
        "mov rsp, in_regs[rip+32]\nmov rbp, in_regs[rip+40]\nmov rsi, in_regs[rip+48]\nmov rdi, in_regs[rip+56]\n"
        "mov r8, in_regs[rip+64]\nmov r9, in_regs[rip+72]\nmov r10, in_regs[rip+80]\nmov r11, in_regs[rip+88]\n"
        "mov r12, in_regs[rip+96]\nmov r13, in_regs[rip+104]\nmov r14, in_regs[rip+112]\nmov r15, in_regs[rip+120]\n"
        "call probe\n"
        "mov out_regs[rip], rax\nmov out_regs[rip+8], rcx\nmov out_regs[rip+16], rdx\nmov out_regs[rip+24], rbx\n"
        "mov out_regs[rip+32], rsp\nmov out_regs[rip+40], rbp\nmov out_regs[rip+48], rsi\nmov out_regs[rip+56], rdi\n"
        "mov out_regs[rip+64], r8\nmov out_regs[rip+72], r9\nmov out_regs[rip+80], r10\nmov out_regs[rip+88], r11\n"
        "mov out_regs[rip+96], r12\nmov out_regs[rip+104], r13\nmov out_regs[rip+112], r14\nmov out_regs[rip+120], r15\n"
        "mov rsp, saved_sp[rip]\n"
        "pop r15\npop r14\npop r13\npop r12\npop rbp\npop rbx\nret\n.att_syntax\n");
#else
__asm__(".intel_syntax noprefix\n.globl call_probe\ncall_probe:\n"
        "push ebx\npush ebp\npush esi\npush edi\n"
        "mov [saved_sp], esp\n"
        "mov eax, [in_regs]\nmov ecx, [in_regs+4]\nmov edx, [in_regs+8]\nmov ebx, [in_regs+12]\n"
        "mov esp, [in_regs+16]\nmov ebp, [in_regs+20]\nmov esi, [in_regs+24]\nmov edi, [in_regs+28]\n"
        "call probe\n"
        "mov [out_regs], eax\nmov [out_regs+4], ecx\nmov [out_regs+8], edx\nmov [out_regs+12], ebx\n"
        "mov [out_regs+16], esp\nmov [out_regs+20], ebp\nmov [out_regs+24], esi\nmov [out_regs+28], edi\n"
        "mov esp, [saved_sp]\n"
        "pop edi\npop esi\npop ebp\npop ebx\nret\n.att_syntax\n");
#endif

static char buf[1 << 16];
static u len;
static void flush(void) { sys(WRITE, 1, (long)buf, len, 0, 0, 0); len = 0; }
static void ch(char c) { if (len >= sizeof buf - 64) flush(); buf[len++] = c; }
static void str(const char *s) { while (*s) ch(*s++); }
static void hex(u x) {
    char t[20]; int n = 0;
    do { t[n++] = "0123456789abcdef"[x & 15]; x >>= 4; } while (x);
    while (n) ch(t[--n]);
}
static void num(u x) { ch(' '); hex(x); }

static u region, sp, size, faults[PAGES], nfaults;
static int running;
static void die(const char *how) {
    /* the record so far; the routine did not return */
    str(" > "); str(how); ch('\n'); flush();
    sys(EXIT, 0, 0, 0, 0, 0, 0);
    for (;;) ;
}
static void onsig(int sig, void *info, void *ctx) {
    u a = *(u *)((char *)info + ADDR_OFF);
    (void)ctx;
    if (!running || sig != 11) die(sig == 14 ? "!HANG" : "!CRASH");
    if (a < region || a >= region + PAGES * PAGE || nfaults >= PAGES) die("!SEGV");
    u p = a / PAGE * PAGE;
    faults[nfaults++] = (sp / PAGE * PAGE - p) / PAGE;
    if (sys(MPROTECT, p, PAGE, 3, 0, 0, 0) != 0) die("!CRASH");
}

static u64 rs = SEED;
static u rnd(u n) {
    u64 z = rs += 0x9e3779b97f4a7c15ull;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ z >> 27) * 0x94d049bb133111ebull;
    return (u)((z >> 33) & 0x7fffffff) % n;
}

static void one(u off, u sz) {
    /* two pages above the stack pointer's page belong to the caller */
    u page = region + (PAGES - 3) * PAGE;
    sp = page + off;
    size = sz;
    sys(MPROTECT, region, PAGES * PAGE, 0, 0, 0, 0);
    sys(MPROTECT, page, 3 * PAGE, 3, 0, 0, 0);
    for (u *p = (u *)page; p < (u *)(page + 3 * PAGE); p++) *p = (u)p ^ (u)0x5a5a5a5a;
    for (int i = 0; i < REGS; i++) in_regs[i] = (u)0x1111111101234567ull * (i + 3) ^ rnd(0x7fffffff);
    in_regs[0] = sz;
    in_regs[4] = sp;
    nfaults = 0;
    str("probe:"); str(sizeof(u) == 8 ? "64 " : "32 "); str(KIND); num(off); num(sz);
    sys(ALARM, 20, 0, 0, 0, 0, 0);
    running = 1;
    call_probe();
    running = 0;
    u mask = 0, kept = 1;
    for (int i = 0; i < REGS; i++) if (i != 4 && in_regs[i] != out_regs[i]) mask |= (u)1 << i;
    for (u *p = (u *)sp; p < (u *)(page + 3 * PAGE); p++) if (*p != ((u)p ^ (u)0x5a5a5a5a)) kept = 0;
    str(" >");
    if (out_regs[4] > sp) { str(" -"); hex(out_regs[4] - sp); } else num(sp - out_regs[4]);
    num(mask); num(kept); num(nfaults);
    for (u i = 0; i < nfaults; i++) num(faults[i]);
    ch('\n');
}

static char alt[65536] __attribute__((aligned(16)));
__attribute__((used)) void start(void) {
    struct { u handler, flags, restorer, mask[2]; } sa = { (u)onsig, 0x4 | 0x08000000ul | 0x40000000ul | 0x04000000ul, (u)restore, {0, 0} };
    struct { void *p; int flags; u n; } ss = { alt, 0, sizeof alt };
    sys(ALTSTACK, (long)&ss, 0, 0, 0, 0, 0);
    static const int sigs[] = { 11, 7, 4, 5, 14 };
    for (int i = 0; i < 5; i++) sys(SIGACTION, sigs[i], (long)&sa, 0, 8, 0, 0);
    region = sys(MMAP, 0, PAGES * PAGE, 0, 0x22, -1, 0);
    const u w = sizeof(u);
    /* all sizes near multiples of a page, all offsets near the page's ends */
    static const u offs[] = { 0, 1, 2, 3, 4, 5, 6, 8, 16, 100, 256, 510, 511 };
    for (u k = 0; k < 4; k++)
        for (u i = 0; i < sizeof offs / sizeof *offs; i++)
            for (long d = -4; d <= 4; d++) {
                long s = (long)(k * PAGE) + d * (long)w;
                if (s >= 0) one(offs[i] * 8 % PAGE, s);
            }
    static const u big[] = { 16, 17, 100, 255, 256, 512, 690 };
    for (u i = 0; i < 7; i++)
        for (long d = -2; d <= 2; d++) one(rnd(PAGE / w) * w, big[i] * PAGE + d * (long)w);
    for (u i = 0; i < RUNS; i++) {
        u s;
        switch (rnd(4)) {
        case 0: s = rnd(3 * PAGE); break;
        case 1: s = rnd(20) * PAGE + rnd(40); break;
        case 2: s = rnd(64 * PAGE); break;
        default: s = rnd(12 * PAGE / w) * w;
        }
        one(rnd(PAGE / w) * w, s);
    }
    flush();
    sys(EXIT, 0, 0, 0, 0, 0, 0);
}
#ifdef __x86_64__
__asm__(".globl _start\n_start: and $-16, %rsp\ncall start\n");
#else
__asm__(".globl _start\n_start: and $-16, %esp\ncall start\n");
#endif
