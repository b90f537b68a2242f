/* Runs compiled operations of the crate under a schedule chosen access by access, on one OS thread.
   The shared page is inaccessible; an access to it faults, which is a scheduling point. The chosen thread's
   instruction is executed alone (trap flag) with the page accessible, then the page is closed again.
   All schedules are enumerated depth first. Freestanding: x86_64 and i386 Linux. */
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long ul;
typedef unsigned long long u64;

#define NT 3
#define NC 4
#define WIN 64
#define WOFF 1024
#define MAXSTEP 300

struct call { u16 f; u16 off; u8 k, size, o1, o2, none_at, pad[3]; u8 a[16], c[16]; };
struct job { u8 nt, nc[NT], ro, pad[3]; u32 max_runs; u8 mem[WIN]; struct call calls[NT][NC]; };
struct res { u8 status, ok, calls, state, nacc, pad[3]; u8 val[16], larg[16], lret[16]; };
enum { ST_NOT, ST_DONE, ST_PANIC, ST_FAULT, ST_ILL, ST_LONG, ST_RO };

extern void *optab[];

#ifdef __x86_64__
static long sys(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
enum { SYS_read = 0, SYS_write = 1, SYS_mprotect = 10, SYS_rt_sigaction = 13, SYS_mmap = 9, SYS_sigaltstack = 131, SYS_exit = 60, SYS_memfd = 319, SYS_ftruncate = 77, SYS_alarm = 37 };
struct uctx { ul flags; struct uctx *link; void *sp; int sflags; ul ssize; ul g[23]; u8 *fp; };
enum { G_RBX = 11, G_RSP = 15, G_RIP = 16, G_EFL = 17, G_N = 18 };
struct ksa { void *h; ul flags; void *restorer; ul mask; };
void restorer(void);
__asm__("restorer: mov $15, %eax\n syscall\n");
#define PCREG G_RIP
#define SPREG G_RSP
#else
static long sys(long n, long a, long b, long c, long d, long e, long f) {
    struct { long a, f; } x = { a, f };
    long r;
    __asm__ volatile("push %%ebp\n push %%ebx\n mov 4(%%ebx), %%ebp\n mov (%%ebx), %%ebx\n int $0x80\n pop %%ebx\n pop %%ebp" : "=a"(r) : "a"(n), "b"(&x), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}
enum { SYS_read = 3, SYS_write = 4, SYS_mprotect = 125, SYS_rt_sigaction = 174, SYS_mmap = 192, SYS_sigaltstack = 186, SYS_exit = 1, SYS_memfd = 356, SYS_ftruncate = 93, SYS_alarm = 27 };
/* gs fs es ds edi esi ebp esp ebx edx ecx eax trapno err eip cs efl uesp ss fpstate oldmask cr2 */
struct uctx { ul flags; struct uctx *link; void *sp; int sflags; ul ssize; ul g[19]; u8 *fp; };
enum { G_EIP = 14, G_EFL = 16, G_UESP = 17, G_ESP = 7 };
struct ksa { void *h; ul flags; void *restorer; ul mask[2]; };
void restorer(void);
__asm__("restorer: mov $173, %eax\n int $0x80\n");
#define PCREG G_EIP
#define SPREG G_ESP
#endif

void *memcpy(void *d, const void *s, ul n) { u8 *x = d; const u8 *y = s; for (ul i = 0; i < n; i++) { x[i] = y[i]; __asm__ volatile(""); } return d; }
void *memset(void *d, int c, ul n) { u8 *x = d; for (ul i = 0; i < n; i++) { x[i] = c; __asm__ volatile(""); } return d; }
void *memmove(void *d, const void *s, ul n) { u8 *x = d; const u8 *y = s; if (x < y) return memcpy(d, s, n); while (n--) { x[n] = y[n]; __asm__ volatile(""); } return d; }
int memcmp(const void *d, const void *s, ul n) { const u8 *x = d, *y = s; for (ul i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
int bcmp(const void *d, const void *s, ul n) { return memcmp(d, s, n); }
static void die(int c) { for (;;) sys(SYS_exit, c, 0, 0, 0, 0, 0); }

#define FPMAX 16384
struct ctx { ul g[23]; u8 fp[FPMAX]; int fpn; };
static struct ctx main_ctx, ctxs[NT];
static u8 *win, *alias;
static u8 stacks[NT][32768] __attribute__((aligned(64)));
static u8 sigstack[65536] __attribute__((aligned(64)));
static struct job J;
static struct res R[NT][NC];
static struct { u8 a[16], c[16], out[16], larg[16], lret[16]; u8 calls[16]; } bufs[NT] __attribute__((aligned(16)));
enum { T_NEW, T_PENDING, T_DONE };
static volatile int tstate[NT], curcall[NT], cur = -1, granted, stepping, req;
static u8 pick[MAXSTEP], cnt[MAXSTEP], who[MAXSTEP];
static int depth, plen;

/* tramp(fn, args[9], out[8]): calls fn with recognizable values in the callee-saved registers */
ul tramp(void *fn, ul *args, ul *saved);
#ifdef __x86_64__
__asm__("tramp: push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rdx\n"
        " mov %rdi, %rax\n mov %rsi, %r10\n"
        " sub $32, %rsp\n mov 48(%r10), %r11\n mov %r11, (%rsp)\n mov 56(%r10), %r11\n mov %r11, 8(%rsp)\n mov 64(%r10), %r11\n mov %r11, 16(%rsp)\n"
        " mov (%r10), %rdi\n mov 8(%r10), %rsi\n mov 16(%r10), %rdx\n mov 24(%r10), %rcx\n mov 32(%r10), %r8\n mov 40(%r10), %r9\n"
        " mov $0x1111111122222221, %rbx\n mov $0x1111111122222222, %rbp\n mov $0x1111111122222223, %r12\n mov $0x1111111122222224, %r13\n mov $0x1111111122222225, %r14\n mov $0x1111111122222226, %r15\n"
        " call *%rax\n"
        " add $32, %rsp\n pop %rdx\n mov %rbx, (%rdx)\n mov %rbp, 8(%rdx)\n mov %r12, 16(%rdx)\n mov %r13, 24(%rdx)\n mov %r14, 32(%rdx)\n mov %r15, 40(%rdx)\n"
        " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static int saved_ok(ul *s) { for (int i = 0; i < 6; i++) if (s[i] != 0x1111111122222221ul + i) return 0; return 1; }
#else
__asm__("tramp: push %ebx\n push %ebp\n push %esi\n push %edi\n" /* args at 20(%esp): fn 20, args 24, saved 28 */
        " mov 20(%esp), %eax\n mov 24(%esp), %ecx\n mov %esp, %edx\n"
        " sub $56, %esp\n and $-16, %esp\n mov %edx, 40(%esp)\n"
        " mov (%ecx), %edx\n mov %edx, (%esp)\n mov 4(%ecx), %edx\n mov %edx, 4(%esp)\n mov 8(%ecx), %edx\n mov %edx, 8(%esp)\n mov 12(%ecx), %edx\n mov %edx, 12(%esp)\n mov 16(%ecx), %edx\n mov %edx, 16(%esp)\n"
        " mov 20(%ecx), %edx\n mov %edx, 20(%esp)\n mov 24(%ecx), %edx\n mov %edx, 24(%esp)\n mov 28(%ecx), %edx\n mov %edx, 28(%esp)\n mov 32(%ecx), %edx\n mov %edx, 32(%esp)\n"
        " mov $0x22222221, %ebx\n mov $0x22222222, %ebp\n mov $0x22222223, %esi\n mov $0x22222224, %edi\n"
        " call *%eax\n"
        " mov 40(%esp), %edx\n mov %edx, %esp\n mov 28(%esp), %edx\n mov %ebx, (%edx)\n mov %ebp, 4(%edx)\n mov %esi, 8(%edx)\n mov %edi, 12(%edx)\n"
        " pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n");
static int saved_ok(ul *s) { for (int i = 0; i < 4; i++) if (s[i] != 0x22222221ul + i) return 0; return 1; }
#endif

static int use_sse;
static void one_call(int t, int i) {
    struct call *c = &J.calls[t][i];
    u8 *p = win + WOFF + c->off;
    ul args[9] = { 0 }, sv[8] = { 0 };
    memcpy(bufs[t].a, c->a, 16);
    memcpy(bufs[t].c, c->c, 16);
    memset(bufs[t].out, 0xe5, 64);
    memset(bufs[t].larg, 0, 32);
    bufs[t].calls[0] = 0;
    ul A = (ul)bufs[t].a, C = (ul)bufs[t].c, O = (ul)bufs[t].out, L = (ul)bufs[t].larg, M = (ul)bufs[t].lret, N = (ul)bufs[t].calls;
    args[0] = (ul)p;
    switch (c->k) {
    case 0: args[1] = c->o1; args[2] = O; break;
    case 1: args[1] = c->o1; args[2] = A; break;
    case 2: args[1] = c->o1; args[2] = A; args[3] = O; break;
    case 3: case 4: args[1] = C; args[2] = A; args[3] = c->o1; args[4] = c->o2; args[5] = O; break;
    case 5: args[1] = c->o1; args[2] = c->o2; args[3] = A; args[4] = c->none_at; args[5] = N; args[6] = L; args[7] = M; args[8] = O; break;
    case 6: args[1] = c->o1; args[2] = c->o2; args[3] = A; args[4] = C; args[5] = N; args[6] = L; args[7] = M; args[8] = O; break;
    case 7: /* plain store by somebody else */
        switch (c->size) {
        case 1: *(volatile u8 *)p = c->a[0]; break;
        case 2: *(volatile u16 *)p = *(u16 *)c->a; break;
        case 4: *(volatile u32 *)p = *(u32 *)c->a; break;
        case 8: *(volatile u64 *)p = *(u64 *)c->a; break;
        }
        R[t][i].status = ST_DONE; R[t][i].ok = 1;
        return;
    }
    /* unusual but legal control settings: round down, 53-bit precision; SSE round up */
    u16 cw = 0x067f, cw2 = 0; u32 mx = 0x5f80, mx2 = 0; u32 env[7]; ul fl;
    __asm__ volatile("fninit\n fldcw %0" :: "m"(cw));
    if (use_sse) __asm__ volatile("ldmxcsr %0" :: "m"(mx));
    ul r = tramp(optab[c->f], args, sv);
    __asm__ volatile("fnstcw %0" : "=m"(cw2));
    __asm__ volatile("fnstenv %0" : "=m"(env));
    if (use_sse) __asm__ volatile("stmxcsr %0" : "=m"(mx2));
#ifdef __x86_64__
    __asm__ volatile("pushfq\n pop %0" : "=r"(fl));
#else
    __asm__ volatile("pushfl\n pop %0" : "=r"(fl));
#endif
    struct res *q = &R[t][i];
    q->state = (cw2 != cw) | ((env[2] & 0xffff) != 0xffff) << 1 | (use_sse && (mx2 & 0xffc0) != (mx & 0xffc0)) << 2 | ((fl >> 10) & 1) << 3 | (!saved_ok(sv)) << 4;
    __asm__ volatile("fninit\n cld");
    q->status = ST_DONE;
    q->ok = (c->k >= 3 && c->k <= 6) ? (u8)r : 1;
    q->calls = bufs[t].calls[0];
    if (c->k != 1) memcpy(q->val, bufs[t].out, 16);
    memcpy(q->larg, bufs[t].larg, 16);
    memcpy(q->lret, bufs[t].lret, 16);
}
static void thread_main(void) {
    int t = cur;
    for (int i = 0; i < J.nc[t]; i++) {
        curcall[t] = i;
        one_call(t, i);
    }
    curcall[t] = -1;
    req = 2;
    __asm__ volatile("int3");
    die(40);
}

static void save(struct ctx *c, struct uctx *u) {
    memcpy(c->g, u->g, sizeof u->g);
    c->fpn = 0;
    if (u->fp) {
#ifdef __x86_64__
        u32 *sw = (u32 *)(u->fp + 464); u32 dflt = 512;
#else
        u32 *sw = (u32 *)(u->fp + 112 + 464); u32 dflt = 112 + 512;
#endif
        u32 n = sw[0] == 0x46505853 ? sw[1] : dflt;
        if (n > FPMAX) die(41);
        __builtin_memcpy(c->fp, u->fp, n);
        c->fpn = n;
    }
}
static void load(struct uctx *u, struct ctx *c) {
    ul keep_fp = 0; (void)keep_fp;
    memcpy(u->g, c->g, sizeof u->g);
    if (u->fp && c->fpn) __builtin_memcpy(u->fp, c->fp, c->fpn);
}
static void prot(int p) { if (sys(SYS_mprotect, (long)win, 4096, p, 0, 0, 0)) die(42); }
static void grant(struct uctx *u) {
    if (curcall[cur] >= 0) R[cur][curcall[cur]].nacc++;
    prot(J.ro ? 1 : 3);
    granted = 0;
    stepping = 1;
    u->g[G_EFL] |= 0x100;
}
/* pick the next thread and load it into the frame; the main context when there is none */
static void next(struct uctx *u) {
    int c[NT], n = 0;
    for (int t = 0; t < J.nt; t++) if (tstate[t] != T_DONE) c[n++] = t;
    if (n && depth >= MAXSTEP) {
        for (int t = 0; t < J.nt; t++) if (tstate[t] != T_DONE) { if (curcall[t] >= 0) R[t][curcall[t]].status = ST_LONG; tstate[t] = T_DONE; }
        n = 0;
    }
    if (!n) { load(u, &main_ctx); return; }
    if (depth >= plen) { pick[depth] = 0; plen = depth + 1; }
    cnt[depth] = n;
    if (pick[depth] >= n) die(43); /* executions are not deterministic */
    int t = c[pick[depth]];
    who[depth++] = t;
    cur = t;
    granted = 1;
    if (tstate[t] == T_NEW) {
        load(u, &main_ctx);
        ul sp = (ul)(stacks[t] + sizeof stacks[t] - 256) & ~63ul;
        sp -= sizeof(ul);
        *(ul *)sp = 0;
        u->g[PCREG] = (ul)thread_main;
        u->g[SPREG] = sp;
#ifndef __x86_64__
        u->g[G_UESP] = sp;
#endif
        tstate[t] = T_PENDING;
        curcall[t] = -1;
    } else {
        load(u, &ctxs[t]);
        grant(u);
    }
}
static void end_thread(struct uctx *u, int st) {
    if (cur >= 0 && curcall[cur] >= 0) R[cur][curcall[cur]].status = st;
    tstate[cur] = T_DONE;
    granted = 0;
    next(u);
}
static void handler(int sig, ul *info, struct uctx *u) {
    if (sig == 5) {
        if (stepping) {
            stepping = 0;
            u->g[G_EFL] &= ~0x100ul;
            prot(0);
            return;
        }
        if (req == 1) { req = 0; save(&main_ctx, u); next(u); return; }
        if (req == 2) { req = 0; end_thread(u, ST_DONE); return; }
        die(44);
    }
    if (cur < 0) die(45);
    if (stepping) { stepping = 0; u->g[G_EFL] &= ~0x100ul; prot(0); end_thread(u, sig == 4 ? ST_ILL : ST_RO); return; }
    if (sig == 11) {
#ifdef __x86_64__
        ul addr = info[2];
#else
        ul addr = info[3];
#endif
        if (u->g[PCREG] < 4096) { end_thread(u, ST_PANIC); return; }
        if (addr >= (ul)win && addr < (ul)win + 4096) {
            if (granted) { grant(u); return; }
            save(&ctxs[cur], u);
            next(u);
            return;
        }
    }
    end_thread(u, sig == 4 ? ST_ILL : sig == 11 || sig == 7 || sig == 8 ? ST_FAULT : ST_LONG);
}

static u8 obuf[1 << 16];
static int on;
static void flush(void) {
    for (int i = 0; i < on;) { long r = sys(SYS_write, 1, (long)(obuf + i), on - i, 0, 0, 0); if (r <= 0) die(46); i += r; }
    on = 0;
}
static void put(const void *p, int n) { if (on + n > (int)sizeof obuf) flush(); __builtin_memcpy(obuf + on, p, n); on += n; }
static int get(void *p, int n) {
    int i = 0;
    while (i < n) { long r = sys(SYS_read, 0, (long)((u8 *)p + i), n - i, 0, 0, 0); if (r <= 0) return i; i += r; }
    return i;
}

__attribute__((used)) void start_c(void) {
    long fd = sys(SYS_memfd, (long)"w", 0, 0, 0, 0, 0);
    if (fd < 0 || sys(SYS_ftruncate, fd, 4096, 0, 0, 0, 0)) die(50);
    alias = (u8 *)sys(SYS_mmap, 0, 4096, 3, 1, fd, 0);
    win = (u8 *)sys(SYS_mmap, 0, 4096, 0, 1, fd, 0);
    if ((long)alias < 0 && (long)alias > -4096) die(51);
#ifdef __x86_64__
    use_sse = 1;
#else
    { u32 a = 1, b, c = 0, d; __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d)); use_sse = d >> 25 & 1; }
#endif
    struct { void *sp; int fl; ul n; } ss = { sigstack, 0, sizeof sigstack };
    if (sys(SYS_sigaltstack, (long)&ss, 0, 0, 0, 0, 0)) die(52);
    int sigs[] = { 4, 5, 7, 8, 11, 14 };
    for (int i = 0; i < 6; i++) {
        struct ksa sa = { 0 };
        sa.h = (void *)handler;
        sa.flags = 0x08000000 | 4 | 0x04000000; /* ONSTACK SIGINFO RESTORER */
        sa.restorer = (void *)restorer;
        if (sys(SYS_rt_sigaction, sigs[i], (long)&sa, 0, 8, 0, 0)) die(53);
    }
    for (;;) {
        int g = get(&J, sizeof J);
        if (g == 0) break;
        if (g != sizeof J) die(54);
        u32 runs = 0;
        int more = 1;
        plen = 0;
        while (more && runs < J.max_runs) {
            memcpy(alias + WOFF, J.mem, WIN);
            memset(R, 0, sizeof R);
            depth = 0;
            for (int t = 0; t < NT; t++) { tstate[t] = t < J.nt ? T_NEW : T_DONE; curcall[t] = -1; }
            cur = -1; granted = 0; stepping = 0;
            sys(SYS_alarm, 5, 0, 0, 0, 0, 0);
            req = 1;
            __asm__ volatile("int3" ::: "memory");
            cur = -1;
            sys(SYS_alarm, 0, 0, 0, 0, 0, 0);
            runs++;
            u8 tag = 1;
            u16 d = depth;
            put(&tag, 1);
            put(&d, 2);
            put(who, depth);
            for (int t = 0; t < J.nt; t++) for (int i = 0; i < J.nc[t]; i++) put(&R[t][i], sizeof R[t][i]);
            put(alias + WOFF, WIN);
            int k = depth - 1;
            while (k >= 0 && pick[k] + 1 >= cnt[k]) k--;
            if (k < 0) more = 0;
            else { pick[k]++; plen = k + 1; }
        }
        u8 tag = more ? 3 : 2;
        put(&tag, 1);
    }
    flush();
    die(0);
}
#ifdef __x86_64__
__asm__(".globl _start\n_start: and $-16, %rsp\n call start_c\n");
#else
__asm__(".globl _start\n_start: and $-16, %esp\n call start_c\n");
#endif
