"""S11 - std::syscall: every wrapper makes the system call of its name with its arguments and returns its result."""
import core
import harness

NAMES = "READ WRITE OPEN CLOSE STAT FSTAT LSTAT POLL LSEEK MMAP MPROTECT MUNMAP BRK RT_SIGACTION RT_SIGPROCMASK RT_SIGRETURN IOCTL PREAD64 PWRITE64 READV WRITEV ACCESS PIPE SELECT SCHED_YIELD MREMAP MSYNC MINCORE MADVISE SHMGET SHMAT SHMCTL DUP DUP2 PAUSE NANOSLEEP GETITIMER ALARM SETITIMER GETPID SENDFILE SOCKET CONNECT ACCEPT SENDTO RECVFROM SENDMSG RECVMSG SHUTDOWN BIND LISTEN GETSOCKNAME GETPEERNAME SOCKETPAIR SETSOCKOPT GETSOCKOPT CLONE FORK VFORK EXECVE EXIT WAIT4 KILL UNAME SEMGET SEMOP SEMCTL SHMDT MSGGET MSGSND MSGRCV MSGCTL FCNTL FLOCK FSYNC FDATASYNC TRUNCATE FTRUNCATE GETDENTS GETCWD CHDIR FCHDIR RENAME MKDIR RMDIR CREAT LINK UNLINK SYMLINK READLINK CHMOD FCHMOD CHOWN FCHOWN LCHOWN UMASK GETTIMEOFDAY GETTRLIMIT GETTRUSAGE SYSINFO TIMES PTRACE GETUID SYSLOG GETGID SETUID SETGID GETEUID GETEGID SETPGID GETPPID GETPGRP SETSID SETREUID SETREGID GETGROUPS SETGROUPS SETRESUID GETRESUID SETRESGID GETRESGID GETPGID SETFSUID SETFSGID GETSID CAPGET CAPSET RT_SIGPENDING RT_SIGTIMEDWAIT RT_SIGQUEUEINFO RT_SIGSUSPEND SIGALSTACK UTIME MKNOD USELIB PERSONALITY USTAT STATFS FSTATFS SYSFS GETPRIORITY SETPRIORITY SCHED_SETPARAM SCHED_GETPARAM SCHED_SETSCHEDULER SCHED_GETSCHEDULER SCHED_GET_PRIORITY_MAX SCHED_GET_PRIORITY_MIN SCHED_RR_GET_INTERVAL MLOCK MUNLOCK MLOCKALL MUNLOCKALL VHANGUP MODIFY_LDT PIVOT_ROOT SYSCTL PRCTL ARCH_PRCTL ADJTIMEX SETTRLIMIT CHROOT SYNC ACCT SETTIMEOFDAY MOUNT UMOUNT2 SWAPON SWAPOFF REBOOT SETHOSTNAME SETDOMAINNAME IOPL IOPERM CREATE_MODULE INIT_MODULE DELETE_MODULE GET_KERNEL_SYMS QUERY_MODULE QUOTACTL NFSSERVTCL GETPMSG PUTPMSG AFS_SYSCALL TUXCALL SECURITY GETTID READAHEAD SETXATTR LSETXATTR FSETXATTR GETXATTR LGETXATTR FGETXATTR LISTXATTR LLISTXATTR FLISTXATTR REMOVEXATTR LREMOVEXATTR FREMOVEXATTR TKILL TIME FUTEX SCHED_SETAFFINITY SCHED_GETAFFINITY SET_THREAD_AREA IO_SETUP IO_DESTROY IO_GETEVENTS IO_SUBMIT IO_CANCEL GET_THREAD_AREA LOOKUP_DCOOKIE EPOLL_CREATE EPOLL_CTL_OLD EPOLL_WAIT_OLD REMAP_FILE_PAGES GETDENTS64 SET_TID_ADDRESS RESTART_SYSCALL SEMTIMEDOP FADVISE64 TIMER_CREATE TIMER_SETTIME TIMER_GETTIME TIMER_GETOVERRUN TIMER_DELETE CLOCK_SETTIME CLOCK_GETTIME CLOCK_GETRES CLOCK_NANOSLEEP EXIT_GROUP EPOLL_WAIT EPOLL_CTL TGKILL UTIMES VSERVER MBIND SET_MEMPOLICY GET_MEMPOLICY MQ_OPEN MQ_UNLINK MQ_TIMEDSEND MQ_TIMEDRECEIVE MQ_NOTIFY MQ_GETSETATTR KEXEC_LOAD WAITID ADD_KEY REQUEST_KEY KEYCTL IOPRIO_SET IOPRIO_GET INOTIFY_INIT INOTIFY_ADD_WATCH INOTIFY_RM_WATCH MIGRATE_PAGES OPENAT MKDIRAT MKNODAT FCHOWNAT FUTIMESAT NEW_FSTATAT UNLINKAT RENAMEAT LINKAT SYMLINKAT READLINKAT FCHMODAT FACCESSAT PSELECT6 PPOLL UNSHARE SET_ROBUST_LIST GET_ROBUST_LIST SPLICE TEE SYNC_FILE_RANGE VMSPLICE MOVE_PAGES UTIMENSTAT EPOLL_PWAIT SIGNALFD TIMERFD_CREATE EVENTFD FALLOCATE TIMERFD_SETTIME TIMERFD_GETTIME ACCEPT4 SIGNALFD4 EVENTFD2 EPOLL_CREATE1 DUP3 PIPE2 INOTIFY_INIT1 PREADV PWRITEV RT_TGSIGQUEUEINFO PERF_EVENT_OPEN RECVMMSG FANOTIFY_INIT FANOTIFY_MARK SYS_PRLIMIT64 NAME_TO_HANDLE_AT OPEN_BY_HANDLE_AT CLOCK_ADJTIME SYNCFS SENDMMSG SETNS GETCPU PROCESS_VM_READV PROCESS_VM_WRITEV KCMP FINIT_MODULE SCHED_SETATTR SCHED_GETATTR RENAMEAT2 SECCOMP GETRANDOM MEMFD_CREATE KEXEC_FILE_LOAD BPF EXECVEAT USERFAULTFD MEMBARRIER MLOCK2 COPY_FILE_RANGE PREADV2 PWRITEV2 PKEY_MPROTECT PKEY_ALLOC PKEY_FREE STATX IO_PGETEVENTS RSEQ".split()
MAP = {"GETTRLIMIT": "GETRLIMIT", "GETTRUSAGE": "GETRUSAGE", "SIGALSTACK": "SIGALTSTACK", "SYSCTL": "_SYSCTL", "SETTRLIMIT": "SETRLIMIT", "NFSSERVTCL": "NFSSERVCTL", "NEW_FSTATAT": "NEWFSTATAT", "UTIMENSTAT": "UTIMENSAT", "SYS_PRLIMIT64": "PRLIMIT64"}
# wrapper, parameters as the kernel takes them (I 32 bits, L 64 bits, X declared as 32 bits but 64 bits for the kernel), result
W = """read ILL L; write ILL L; open LII I; close I I; stat LL I; fstat IL I; lstat LL I; poll LII I; lseek ILI L; mmap LLLIIL L; mprotect LLL I; munmap LL I; ioctl IIL I; pread64 ILLL L;
pwrite64 ILLL L; readv ILX L; writev ILX L; access LI I; pipe L I; time L L; shed_yield - I; mremap LLLX L; msync LLI I; mincore LLL I; madvise LLI I; shmget ILI I; shmat ILI L; dup I I; dup2 II I; pause - I; nanosleep LL I;
alarm I I; getpid - I; sendfile IILL L; socket III I; accept ILL I; sendto ILLI00 L; recvfrom ILLILL L; shutdown II I; bind ILI I; listen II I; getsockname ILL I; getpeername ILL I; socketpair IIIL I; setsockopt IIILI I; getsockopt IIILL I;
fork - I; vfork - I; execve LLL I; wait4 ILIX I; kill II I; getppid - I; uname L I; semget III I; semop ILL I; semctl III I; shmdt L I; msgget II I; msgsnd ILLI I; msgrcv ILLLI L; fcntl II I; fcntl2 IIX I;
flock II I; fsync I I; fdatasync I I; truncate LL I; ftruncate IL I; getdents ILI L; getdents64 ILI L; getcwd LL L; chdir L I; fchdir I I; rename LL I; mkdir LI I; rmdir L I; creat LI I; link LL I; unlink L I; symlink LL I;
readlink LLL L; chmod LI I; fchmod II I; sync - V; clock_gettime IL I; clock_settime IL I; gettimeofday LX I; exit I V; brk L I; rt_sigreturn L I; clone LLIL I"""
WR = [w.split() for w in W.replace("\n", " ").split(";")]
NRN = {"shed_yield": "sched_yield", "fcntl2": "fcntl"}

DRV = r'''
#include <stdarg.h>
#include <stddef.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#ifndef SECCOMP_RET_TRAP
#define SECCOMP_RET_TRAP 0x00030000U
#endif
static u64 EV,BADN,DIST; static void no(const char*k,const char*f,...){ printf("V %s|",k); va_list a; va_start(a,f); vprintf(f,a); puts(""); va_end(a); fflush(stdout); BADN++; }
/* system calls made from compiled csp code do not happen: they are recorded and answered by the handler */
static volatile u64 NR_, A_[6], RESULT; static volatile int CALLS_; static sigjmp_buf OUT_; static int NORET;
static void onsys(int s,siginfo_t*si,void*c){ ucontext_t*u=c; greg_t*r=u->uc_mcontext.gregs; CALLS_++; NR_=r[REG_RAX]; A_[0]=r[REG_RDI]; A_[1]=r[REG_RSI]; A_[2]=r[REG_RDX]; A_[3]=r[REG_R10]; A_[4]=r[REG_R8]; A_[5]=r[REG_R9]; r[REG_RAX]=RESULT; r[REG_RCX]=0xdead0001; r[REG_R11]=0xdead0002; if(NORET) siglongjmp(OUT_,1); }
struct w { const char*name, *par; char ret; long nr; int f; }; static struct w WR[]={ @WR@ };
struct n { const char*name; long nr; int f; }; static struct n NM[]={ @NM@ };
typedef u64 (*fn6)(u64,u64,u64,u64,u64,u64);
int main(void){ traps(); csp_main();
 for(int i=0;i<N(NM);i++){ volatile i64 v=-1; TRYQ(v=((i64(*)(void))F[NM[i].f])()); EV++; DIST++; if(SIG||v!=NM[i].nr) no(NM[i].name,"Syscall::%s is %lld, the number of this system call is %ld",NM[i].name,(long long)v,NM[i].nr); }
 u64 lo=~0ull,hi=0; for(int i=0;i<N(WR);i++){ u64 f=(u64)F[WR[i].f]; if(f<lo) lo=f; if(f>hi) hi=f; } hi+=400;
 struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsys; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGSYS,&sa,0);
 struct sock_filter flt[]={ BPF_STMT(BPF_LD|BPF_W|BPF_ABS,offsetof(struct seccomp_data,instruction_pointer)+4), BPF_JUMP(BPF_JMP|BPF_JEQ|BPF_K,0,0,3), BPF_STMT(BPF_LD|BPF_W|BPF_ABS,offsetof(struct seccomp_data,instruction_pointer)), BPF_JUMP(BPF_JMP|BPF_JGE|BPF_K,(u32)lo,0,1), BPF_JUMP(BPF_JMP|BPF_JGE|BPF_K,(u32)hi,0,1), BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_ALLOW), BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_TRAP) };
 struct sock_fprog pr={N(flt),flt}; if(hi>>32||prctl(PR_SET_NO_NEW_PRIVS,1,0,0,0)||prctl(PR_SET_SECCOMP,SECCOMP_MODE_FILTER,&pr)){ puts("NOFILTER"); return 0; }
 u64 PV[]={0x0000000300000005ull,0xffffffff80000001ull,0x123456789abcdef0ull,0,0xffffffffffffffffull,0x000000007fffffffull,0xdeadbeef00000002ull}; u64 RV[]={0,1,7,0x7fffffff,(u64)-1,(u64)-22,(u64)-4095,0x00007f1234567000ull,0x1ffffffffull};
 for(int i=0;i<N(WR);i++){ struct w*w=&WR[i]; int np=*w->par=='-'?0:strlen(w->par); int given=np; while(given&&w->par[given-1]=='0') given--; int said=0;
  /* every argument takes every value while the others hold each of two backgrounds */
  for(int p=0;p<(given?given:1)&&!said;p++) for(int v=0;v<N(PV)&&!said;v++) for(int bg=0;bg<3&&!said;bg++) for(int r=0;r<N(RV)&&!said;r++){ u64 a[6]; for(int k=0;k<6;k++) a[k]=bg==0?0x1111111100000001ull*(k+1):bg==1?~(0x0101010101010101ull*(k+1)):0; if(given) a[p]=PV[v]; for(int k=given;k<6;k++) a[k]=0x5555555555555555ull;
   CALLS_=0; RESULT=RV[r]; volatile u64 g=0; NORET=!strcmp(w->name,"exit"); if(!sigsetjmp(OUT_,1)) { TRYQ(g=((fn6)F[w->f])(a[0],a[1],a[2],a[3],a[4],a[5])); if(NORET) { said=1; no(w->name,"%s returns",w->name); break; } } EV++;
   if(SIG){ said=1; no(w->name,"%s traps",w->name); break; } if(CALLS_!=1){ said=1; no(w->name,"%s makes %d system calls",w->name,CALLS_); break; } if((u32)NR_!=w->nr) /* the kernel looks at the lower half */{ said=1; no(w->name,"%s makes the system call %llu instead of %ld",w->name,(unsigned long long)NR_,w->nr); break; }
   if(!strcmp(w->name,"clone")){ if((u32)A_[0]!=(u32)a[2]){ said=1; no("clone","clone passes its function as the flags of the system call"); } continue; }
   for(int k=0;k<np&&!said;k++){ u64 e=w->par[k]=='L'?a[k]:w->par[k]=='X'?(u64)(i64)(i32)a[k]:w->par[k]=='0'?0:(u32)a[k]; u64 got=w->par[k]=='I'?(u32)A_[k]:A_[k]; if(got!=e){ said=1; no(w->name,"%s: argument %d of the system call is %llx instead of %llx",w->name,k+1,(unsigned long long)got,(unsigned long long)e); } }
   if(!said&&(w->ret=='L'?g!=RV[r]:w->ret=='I'?(u32)g!=(u32)RV[r]:0)){ said=1; no(w->name,"%s returns %llx instead of %llx",w->name,(unsigned long long)g,(unsigned long long)RV[r]); } } DIST++; }
 printf("TOTAL %llu %llu\n",(unsigned long long)EV,(unsigned long long)DIST); fflush(stdout); _exit(0); }
'''

PROP = dict(
    id="S11", title="Every system call wrapper makes its own system call with its own arguments",
    statement="For every value of every argument and result, each function of std::syscall makes exactly one system call: the one of its name on x86-64 Linux, with the wrapper's arguments in order, unchanged, extended to 64 bits wherever the kernel reads 64 bits, and null for the arguments the wrapper does not have; and it returns what the system returned, in the width of its return type. Every member of the enum Syscall has the number this system call has on x86-64 Linux.",
    quantifier=dict(over=["inputs"], text="90 wrappers x every argument position x 7 values x 3 backgrounds x 9 results; 335 enum members"),
    why_tests_cant="The tests use a handful of system calls with small arguments; a wrong number, order or width of another one is never noticed.",
    anchors=dict(files=["src/std/syscall.csp"], mechanism="syscall!/syscall_r! and the wrappers; enum Syscall"),
    technique="exhaustive enumeration of wrappers, argument and result values with every system call of the compiled code trapped (seccomp), recorded and answered by the driver", level="exploration",
    level_note="No system call of the code under test reaches the kernel. The numbers come from the system's headers. clone (libc-like signature without a kernel counterpart) is a known finding.")


def run(chk, repo):
    csp = 'import "syscall.csp"; import "io.csp"; import "time.csp"; import "net.csp";\n' + "".join("fn n_%s(): i64 = std::Syscall::%s;\n" % (n.lower(), n) for n in NAMES)
    regs = ["std::syscall::" + w[0] for w in WR] + ["n_" + n.lower() for n in NAMES]
    d = DRV.replace("@WR@", ",".join('{"%s","%s",\'%s\',__NR_%s,%d}' % (w[0], w[1], w[2], NRN.get(w[0], w[0]), i) for i, w in enumerate(WR)))
    d = d.replace("@NM@", ",".join('{"%s",__NR_%s,%d}' % (n, MAP.get(n, n).lower(), len(WR) + i) for i, n in enumerate(NAMES)))
    try:
        exe, wd, text = harness.build(repo, csp, regs, d, cflags=["-D_GNU_SOURCE"])
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=300)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            k, _, m = line[2:].partition("|")
            chk.violation("sys:" + k, m, {"csp": text, "observed": line})
        elif line.startswith("TOTAL"):
            tot = [int(x) for x in line.split()[1:]]
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot[0])
        chk.add("distinct_nontrivial", tot[1])
        chk.sample({"wrappers": len(WR), "enum_members": len(NAMES)})
    chk.cov["rule"] = "one evaluation per call; distinct_nontrivial counts wrappers and enum members"
