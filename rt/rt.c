/* Runtime linked with every compiled program: records each call of an external function as one
 * line "name hexbytes hexbytes ..." on standard output.  Freestanding. The assembler entry points in
 * rt_entry.S use the stack and the caller-saved registers as freely as the calling convention allows. */
typedef unsigned char u8;
typedef unsigned long u64;

static char buf[65536];
static int len;
static int events;
int rt_misaligned;   /* number of calls made with a misaligned stack */
u64 rt_heap[1 << 16];
static u64 heap_used;

static long sys3(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void flush(void) {
    int o = 0;
    while (o < len) {
        long w = sys3(1, 1, (long)(buf + o), len - o);
        if (w <= 0) break;
        o += w;
    }
    len = 0;
}
void rt_exit(int code) {
    flush();
    sys3(231, code, 0, 0);
    for (;;) {
    }
}
static void ch(char c) {
    if (len >= 65000) flush();
    buf[len++] = c;
}
static void name(const char* s) {
    if (++events > 20000) {
        rt_exit(99);
    }
    while (*s) ch(*s++);
}
static void bytes(const void* p, long n) {
    const u8* b = p;
    ch(' ');
    if (n <= 0) ch('-');
    for (long i = 0; i < n; i++) {
        ch("0123456789abcdef"[b[i] >> 4]);
        ch("0123456789abcdef"[b[i] & 15]);
    }
}
static void end(void) {
    ch('\n');
    flush();
}
/* for generated companion files */
void rt_name(const char* s) { name(s); }
void rt_bytes(const void* p, long n) { bytes(p, n); }
void rt_end(void) { end(); }
void rt_ret(const void* p, long n) {
    const u8* b = p;
    ch(' ');
    ch('r');
    ch(':');
    for (long i = 0; i < n; i++) {
        ch("0123456789abcdef"[b[i] >> 4]);
        ch("0123456789abcdef"[b[i] & 15]);
    }
}

#define PUT(sfx, T)                                   \
    void rt_put_##sfx(T x) {                          \
        name("put_" #sfx);                            \
        bytes(&x, sizeof x);                          \
        end();                                        \
    }                                                 \
    T rt_id_##sfx(T x) {                              \
        name("id_" #sfx);                             \
        bytes(&x, sizeof x);                          \
        end();                                        \
        return x;                                     \
    }
PUT(c, char)
PUT(i, int)
PUT(u, unsigned int)
PUT(l, long)
PUT(ul, unsigned long)
PUT(ll, long long)
PUT(ull, unsigned long long)

void rt_put_s(char* s) {
    long n = 0;
    name("put_s");
    while (n < 4000 && s[n]) n++;
    bytes(s, n);
    end();
}
void rt_dump(void* p, int n) {
    name("dump");
    bytes(p, n);
    end();
}
void rt_align(void* p, int n) {
    int r = (u64)p % (u64)n;
    name("align");
    bytes(&r, sizeof r);
    end();
}
void* rt_alloc(int n) {
    void* p = &rt_heap[heap_used];
    name("alloc");
    bytes(&n, sizeof n);
    end();
    heap_used += (n + 15) / 8;
    return p;
}
void rt_mark(void) {
    name("mark");
    end();
}
/* the value main returned, and the state of the callee-saved registers */
void rt_finish(int code, int regs_ok) {
    u8 c = code;
    name("exit");
    bytes(&c, 1);
    ch('\n');
    name("#abi");
    ch(' ');
    ch(regs_ok ? '1' : '0');
    ch(' ');
    ch(rt_misaligned ? '1' : '0');
    ch('\n');
    rt_exit(0);
}
void rt_cb1(void* f, int a) {
    (void)f;
    name("cb1");
    bytes(&a, 4);
    end();
}
void rt_cb2(void* f, int a, int b) {
    (void)f;
    name("cb2");
    bytes(&a, 4);
    bytes(&b, 4);
    end();
}
