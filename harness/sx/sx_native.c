/* Native runtime of the harness interface: replays one list of input values on the compiled code. */
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct entry { const char *name; void (*f)(void); };
extern struct entry SX_TABLE[];
static uint64_t in[4096]; static int n_in, pos; static unsigned panic_ok; static uint64_t params[16];
static void fin(const char *s, int code) { printf("END %s\n", s); fflush(stdout); _exit(code); }
uint64_t sx_in(uint32_t bits) { if (pos >= n_in) { pos++; return 0; } uint64_t v = in[pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
double sx_f64(void) { uint64_t v = sx_in(64); double d; memcpy(&d, &v, 8); return d; }
void sx_assume(bool c) { if (!c) fin("assume", 20); }
void sx_assert(bool c, uint32_t id) { if (!c) { char b[40]; snprintf(b, 40, "assert %u", id); fin(b, 10); } }
void sx_cover(uint32_t id) { (void)id; }
void sx_observe(uint64_t v) { printf("O %llu\n", (unsigned long long)v); }
void sx_panic_ok(uint32_t id) { panic_ok = id; }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_param(uint32_t i) { return params[i]; }
bool sx_close(double a, double b) { if (a == b || (a != a && b != b)) return true; if (isinf(a) || isinf(b)) return false; double m = fmax(fmax(fabs(a), fabs(b)), 1.0); return fabs(a - b) <= 1e-6 * m; }
static void on_sig(int s) {
    if (s == SIGABRT || s == SIGILL || s == SIGTRAP) { static const char a[] = "END panic\n", b[] = "END panic_ok\n"; fflush(stdout); (void)!write(1, panic_ok ? b : a, panic_ok ? sizeof b - 1 : sizeof a - 1); _exit(panic_ok ? 0 : 11); }
    static const char m[] = "END memory\n"; fflush(stdout); (void)!write(1, m, sizeof m - 1); _exit(12);
}
/* for externs that end a path with an error (PostgreSQL's ereport and friends) */
void sx_native_error(void) { fin(panic_ok ? "panic_ok" : "panic", panic_ok ? 0 : 11); }
int main(int argc, char **argv) {
    static char altstack[65536]; stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack }; sigaltstack(&ss, 0);
    int sigs[] = { SIGABRT, SIGILL, SIGTRAP, SIGSEGV, SIGBUS, SIGFPE };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) { struct sigaction a = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK }; sigaction(sigs[i], &a, 0); }
    if (argc < 4) { for (struct entry *e = SX_TABLE; e->name; e++) puts(e->name); return 0; }
    char *s = argv[2]; while (*s) { in[n_in++] = strtoull(s, &s, 10); if (*s == ',') s++; }
    s = argv[3]; for (int i = 0; *s && i < 16; i++) { params[i] = strtoull(s, &s, 10); if (*s == ',') s++; }
    for (struct entry *e = SX_TABLE; e->name; e++) if (!strcmp(e->name, argv[1])) { e->f(); fin("done", 0); }
    fprintf(stderr, "no harness %s\n", argv[1]); return 3;
}
