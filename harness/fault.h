// Fault injection at the boundary to the kernel.  A child process installs a seccomp filter that traps every system call
// that creates, changes, closes, renames or removes a file; the handler counts it, and either lets it through, fails it,
// performs a part of it, or ends the process before or after it.  Whatever library the code uses for its files, the
// operations are the same.
#ifndef VERIF_FAULT_H
#define VERIF_FAULT_H
#include "mc.h"
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <stddef.h>
#include <ucontext.h>
namespace fault {
enum Act { PASS, CRASH_BEFORE, CRASH_AFTER, ERR, SHORT, TORN, FULL, SHORTERR };  // FULL: this and all later writes fail with ENOSPC
struct Step { int at; Act act; long arg; };  // arg: errno, or the number of bytes that still get through
typedef std::vector<Step> Plan;
enum Kind { OPEN, WRITE, CLOSE, REMOVE, RENAME, TRUNC, SYNC, OTHER };
inline const char *kindname(int k) { static const char *n[] = {"open", "write", "close", "remove", "rename", "truncate", "sync", "other"}; return n[k]; }
struct Op { int kind; long len; };
struct Page { int nops; Op op[4096]; int result; int bad; };  // result: -1 none, otherwise what the code returned
inline Page *&page() { static Page *p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
static const unsigned long MAGIC = 0x7e51f1edul;
inline long raw(long n, long a, long b, long c, long d, long e) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = (long)MAGIC; long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
struct Armed { Plan plan; bool full; };
inline Armed &armed() { static Armed a; return a; }
inline int kindof(long n) {
    switch (n) {
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2: return OPEN;
    case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev: return WRITE;
    case SYS_close: return CLOSE; case SYS_unlink: case SYS_unlinkat: return REMOVE;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: return RENAME;
    case SYS_truncate: case SYS_ftruncate: case SYS_fallocate: return TRUNC; case SYS_fsync: case SYS_fdatasync: return SYNC; }
    return OTHER;
}
inline long part(long nr, long a, long b, long c, long d, long e, long k) {  // the first k bytes of a write
    if (nr == SYS_write) return raw(nr, a, b, k, 0, 0);
    if (nr == SYS_pwrite64) return raw(nr, a, b, k, d, 0);
    long done = 0; const struct iovec *v = (const struct iovec *)b;
    for (long i = 0; i < c && done < k; ++i) { long l = std::min<long>(v[i].iov_len, k - done); long r = nr == SYS_writev ? raw(SYS_write, a, (long)v[i].iov_base, l, 0, 0) : raw(SYS_pwrite64, a, (long)v[i].iov_base, l, d + done, 0); if (r < 0) return r; done += r; }
    return done;
}
inline void handler(int, siginfo_t *si, void *ctx) {
    greg_t *g = ((ucontext_t *)ctx)->uc_mcontext.gregs; long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8];
    Page *p = page(); int k = p->nops++; int kind = kindof(nr); long len = 0;
    if (kind == WRITE) { if (nr == SYS_write || nr == SYS_pwrite64) len = c; else for (long i = 0; i < c; ++i) len += ((const struct iovec *)b)[i].iov_len; }
    if (k < 4096) { p->op[k].kind = kind; p->op[k].len = len; } else { p->bad = 1; raw(SYS_exit_group, 98, 0, 0, 0, 0); }
    Act act = PASS; long arg = 0; for (auto &s : armed().plan) if (s.at == k) { act = s.act; arg = s.arg; }
    if (act == FULL) armed().full = true;
    if (armed().full && kind == WRITE) { act = ERR; arg = ENOSPC; } else if (act == FULL) act = PASS;
    long r = 0;
    switch (act) {
    case CRASH_BEFORE: raw(SYS_exit_group, 99, 0, 0, 0, 0); break;
    case CRASH_AFTER: raw(nr, a, b, c, d, e); raw(SYS_exit_group, 99, 0, 0, 0, 0); break;
    case ERR: if (kind == CLOSE) raw(nr, a, b, c, d, e); r = -arg; break;  // Linux releases the descriptor even when close fails
    case SHORT: r = kind == WRITE ? part(nr, a, b, c, d, e, arg) : raw(nr, a, b, c, d, e); break;
    case TORN: if (kind == WRITE) part(nr, a, b, c, d, e, arg); raw(SYS_exit_group, 99, 0, 0, 0, 0); break;
    case SHORTERR: if (kind == WRITE) { part(nr, a, b, c, d, e, arg); armed().full = true; r = arg; if (!arg) r = -ENOSPC; } else r = raw(nr, a, b, c, d, e); break;
    default: r = raw(nr, a, b, c, d, e);
    }
    g[REG_RAX] = r;
}
inline void install(const Plan &pl) {
    armed().plan = pl; armed().full = false;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
    static const int nrs[] = {SYS_open, SYS_openat, SYS_creat, SYS_openat2, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_close, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_truncate, SYS_ftruncate, SYS_fallocate, SYS_fsync, SYS_fdatasync};
    std::vector<sock_filter> f; auto st = [&](unsigned k) { f.push_back(sock_filter{BPF_LD | BPF_W | BPF_ABS, 0, 0, k}); };
    st(offsetof(seccomp_data, args[5])); f.push_back(sock_filter{BPF_JMP | BPF_JEQ | BPF_K, 0, 1, (unsigned)MAGIC}); f.push_back(sock_filter{BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW});
    // writing to the terminal is not an operation on a file
    st(offsetof(seccomp_data, nr)); f.push_back(sock_filter{BPF_JMP | BPF_JEQ | BPF_K, 0, 3, SYS_write}); st(offsetof(seccomp_data, args[0])); f.push_back(sock_filter{BPF_JMP | BPF_JGT | BPF_K, 1, 0, 2}); f.push_back(sock_filter{BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW});
    st(offsetof(seccomp_data, nr)); for (int n : nrs) { f.push_back(sock_filter{BPF_JMP | BPF_JEQ | BPF_K, 0, 1, (unsigned)n}); f.push_back(sock_filter{BPF_RET | BPF_K, 0, 0, SECCOMP_RET_TRAP}); }
    f.push_back(sock_filter{BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW});
    sock_fprog pr = {(unsigned short)f.size(), f.data()};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr, 0, 0)) { perror("seccomp"); raw(SYS_exit_group, 97, 0, 0, 0, 0); }
}
struct Run { int nops; std::vector<Op> ops; int result; bool crashed, aborted; };  // crashed: by the plan; aborted: the code ended the process itself
// runs f in a child under the plan; the value it returns is what the code reported
inline Run run(const Plan &pl, const std::function<int()> &f) {
    Page *p = page(); p->nops = 0; p->result = -1; p->bad = 0; fflush(nullptr); pid_t pid = fork();
    if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); if (dn > 2) close(dn); alarm(20); install(pl); int r = -2; try { r = f(); } catch (...) { raw(SYS_exit_group, 96, 0, 0, 0, 0); } page()->result = r; raw(SYS_exit_group, 0, 0, 0, 0, 0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Run r; r.nops = p->nops; r.ops.assign(p->op, p->op + std::min(p->nops, 4096)); r.result = p->result; r.crashed = WIFEXITED(st) && WEXITSTATUS(st) == 99; r.aborted = !r.crashed && p->result == -1;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97)) MC_FAIL("the fault injector cannot be installed"); if (WIFEXITED(st) && WEXITSTATUS(st) == 98) MC_FAIL("more than 4096 operations on files"); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) MC_FAIL("does not end");
    return r;
}
inline std::string show(const Plan &p, const std::vector<Op> &ops) {
    static const char *n[] = {"passes", "not reached: process ends before it", "process ends after it", "fails with errno", "transfers only", "process ends inside it after", "finds the disk full from here on", "fills the disk after"};
    std::string r; for (auto &s : p) { r += (r.empty() ? "" : "; ") + std::string("operation ") + std::to_string(s.at) + (s.at < (int)ops.size() ? std::string(" (") + kindname(ops[s.at].kind) + (ops[s.at].kind == WRITE ? " of " + std::to_string(ops[s.at].len) + " bytes" : "") + ")" : "") + " " + n[s.act] + (s.act == ERR || s.act == SHORT || s.act == TORN || s.act == SHORTERR ? " " + std::to_string(s.arg) : ""); } return r.empty() ? "no fault" : r;
}
}
#endif
