/* Compiled by gcc; runs the generated cases, each in a forked child, and prints what they report.
   Output: "#<k>" starts case k; then one token per reported value; "!<k> sig N" / "!<k> rc N" on abnormal end. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>

extern void (*const cases[])(void);
extern const int ncases;

static char buf[1 << 20];
static size_t len;
static size_t total;
static void flush_out(void) {
    size_t off = 0;
    while (off < len) {
        ssize_t n = write(1, buf + off, len - off);
        if (n <= 0) _exit(99);
        off += (size_t) n;
    }
    len = 0;
}
static void put(const char *s, size_t n) {
    if (total + n > (8u << 20)) { flush_out(); _exit(98); } /* output limit */
    total += n;
    if (len + n > sizeof buf) flush_out();
    if (n > sizeof buf) _exit(97);
    memcpy(buf + len, s, n);
    len += n;
}
static void hex(char tag, unsigned long long v) {
    char t[40];
    int n = snprintf(t, sizeof t, "%c%llx\n", tag, v);
    put(t, (size_t) n);
}
void o_u(unsigned long long v) { hex('u', v); }
void o_i(long long v) { hex('i', (unsigned long long) v); }
void o_x(int v) { hex('x', (unsigned long long) (unsigned) v); }
void o_p(const volatile void *p) { hex('p', (unsigned long long) p); }
void o_f(float f) {
    unsigned v; memcpy(&v, &f, 4);
    if (f != f) put("fnan\n", 5); else hex('f', v);
}
void o_d(double d) {
    unsigned long long v; memcpy(&v, &d, 8);
    if (d != d) put("dnan\n", 5); else hex('d', v);
}
void o_ld(long double d) {
    unsigned long long v; unsigned short w;
    if (d != d) { put("lnan\n", 5); return; }
    memcpy(&v, &d, 8); memcpy(&w, (char *) &d + 8, 2);
    char t[48]; int n = snprintf(t, sizeof t, "l%x:%llx\n", w, v); put(t, (size_t) n);
}
void o_s(const char *s) { put("s", 1); put(s, strlen(s)); put("\n", 1); }
void o_m(const void *p, unsigned long n) {
    const unsigned char *c = p; char t[4];
    put("m", 1);
    for (unsigned long i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", c[i]); put(t, 2); }
    put("\n", 1);
}
/* fills the stack below the caller with a pattern, so that reads of unwritten slots are visible */
__attribute__((noinline)) void dirty_stack(int pat) {
    volatile unsigned char a[8192];
    for (unsigned i = 0; i < sizeof a; i++) a[i] = (unsigned char) (pat + i * 7);
}
/* calls fn with known values in the callee-saved registers; reports what the System V ABI obliges fn to preserve */
int preserved(void (*fn)(void));
__asm__(
    ".text\n.globl preserved\npreserved:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\nsub $24, %rsp\n"
    "mov %rdi, %rax\n"
    "mov $0x1111222233334444, %rbx\nmov $0x5555666677778888, %r12\nmov $0x99990000aaaabbbb, %r13\n"
    "mov $0xccccdddd11112222, %r14\nmov $0x3333444455556666, %r15\nmov %rsp, 8(%rsp)\nlea 0x100(%rsp), %rbp\n"
    "mov $0x0123456789abcdef, %rcx\nmov %rcx, 16(%rsp)\n"
    "call *%rax\n"
    "xor %eax, %eax\n"
    "mov $0x1111222233334444, %rcx\ncmp %rcx, %rbx\nje 1f\nor $1, %eax\n1:\n"
    "mov $0x5555666677778888, %rcx\ncmp %rcx, %r12\nje 1f\nor $2, %eax\n1:\n"
    "mov $0x99990000aaaabbbb, %rcx\ncmp %rcx, %r13\nje 1f\nor $4, %eax\n1:\n"
    "mov $0xccccdddd11112222, %rcx\ncmp %rcx, %r14\nje 1f\nor $8, %eax\n1:\n"
    "mov $0x3333444455556666, %rcx\ncmp %rcx, %r15\nje 1f\nor $16, %eax\n1:\n"
    "cmp %rsp, 8(%rsp)\nje 1f\nor $32, %eax\n1:\n"
    "lea 0x100(%rsp), %rcx\ncmp %rcx, %rbp\nje 1f\nor $64, %eax\n1:\n"
    "mov $0x0123456789abcdef, %rcx\ncmp %rcx, 16(%rsp)\nje 1f\nor $128, %eax\n1:\n"
    "pushfq\npop %rcx\ntest $0x400, %ecx\nje 1f\nor $256, %eax\n1:\n"
    "fnstenv -32(%rsp)\nfldenv -32(%rsp)\nmov -24(%rsp), %ecx\nand $0xffff, %ecx\ncmp $0xffff, %ecx\nje 1f\nor $512, %eax\n1:\n"
    "mov -32(%rsp), %ecx\nand $0xf3f, %ecx\ncmp $0x33f, %ecx\nje 1f\nor $1024, %eax\n1:\n"
    "add $24, %rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
void o_preserved(void (*fn)(void)) { hex('x', (unsigned long long) preserved(fn)); }
int main(void) {
    for (int k = 0; k < ncases; k++) {
        pid_t p = fork();
        if (p < 0) return 96;
        if (p == 0) {
            struct rlimit rl = {5, 6};
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit core = {0, 0};
            setrlimit(RLIMIT_CORE, &core);
            char t[32]; int n = snprintf(t, sizeof t, "#%d\n", k); put(t, (size_t) n);
            flush_out();
            cases[k]();
            flush_out();
            _exit(0);
        }
        int st = 0;
        if (waitpid(p, &st, 0) < 0) return 95;
        char t[64]; int n = 0;
        if (WIFSIGNALED(st)) n = snprintf(t, sizeof t, "!%d sig %d\n", k, WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0) n = snprintf(t, sizeof t, "!%d rc %d\n", k, WEXITSTATUS(st));
        if (n) { put(t, (size_t) n); flush_out(); }
    }
    flush_out();
    return 0;
}
