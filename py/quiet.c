/* C33: in the calling thread, every system call but those for memory, waiting, clocks, random numbers and one pipe
 * is refused by a seccomp filter and its number kept. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>

static volatile long caught = -1;

static void handler(int sig, siginfo_t *info, void *context)
{
    (void)sig;
    if (caught < 0)
        caught = info->si_syscall;
    ((ucontext_t *)context)->uc_mcontext.gregs[REG_RAX] = -EPERM;
}

long quiet_caught(void)
{
    return caught;
}

void quiet_reset(void)
{
    caught = -1;
}

static const unsigned ALLOWED[] = {
    SYS_mmap, SYS_mprotect, SYS_munmap, SYS_brk, SYS_rt_sigreturn, SYS_sched_yield, SYS_mremap, SYS_madvise, SYS_getpid, SYS_exit,
    SYS_exit_group, SYS_gettid, SYS_futex, SYS_clock_gettime, SYS_tgkill, SYS_membarrier, SYS_getrandom, SYS_rseq, SYS_sched_getaffinity,
};

/* 0 if it works. Writes to fd stay possible. */
int quiet_enter(int fd)
{
    enum { N = sizeof ALLOWED / sizeof *ALLOWED };
    struct sock_filter f[N + 12];
    int n = 0, i;
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = handler;
    a.sa_flags = SA_SIGINFO;
    if (sigaction(SIGSYS, &a, NULL))
        return 1;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (i = 0; i < N; i++)
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ALLOWED[i], N - i + 3, 0);
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 0, 2);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[0]));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)fd, 1, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog p = {(unsigned short)n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
        return 2;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) ? 3 : 0;
}
