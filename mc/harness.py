"""Compile csp functions with the compiler under test and link them to a C driver.

Every csp function named in `regs` is handed to the driver through `reg`, so the
driver can call it through a function pointer under the System V calling convention."""
import os
import core

PRE_C = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/time.h>
#define N(x) (sizeof(x)/sizeof((x)[0]))
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef float f32; typedef double f64;
static void *F[%(nf)d];
void reg(int n, void *f) { F[n] = f; }
extern int csp_main(void) __asm__("%(main)s");
static sigjmp_buf JB; static volatile int JARM; static volatile int SIG;
static volatile int TRYN, TRYSEEN, TRYTICKS, TRYLIM = 10;
static void onsig(int s) { if (s == SIGVTALRM) { if (!JARM) return; if (TRYN != TRYSEEN) { TRYSEEN = TRYN; TRYTICKS = 0; return; } if (++TRYTICKS < TRYLIM) return; } SIG = s; if (JARM) { JARM = 0; siglongjmp(JB, 1); } _exit(99); }
static char SIGSTK[65536];
static void tick(void) { struct itimerval it = {{1,0},{1,0}}; setitimer(ITIMER_VIRTUAL, &it, 0); }
#include <sys/prctl.h>
static void in_child(void) { prctl(PR_SET_PDEATHSIG, SIGKILL); tick(); }
int pthread_atfork(void (*)(void), void (*)(void), void (*)(void));
static void traps(void) { static int once; if (!once) { once = 1; pthread_atfork(0, 0, in_child); } tick();
  stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp = SIGSTK; ss.ss_size = sizeof SIGSTK; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER|SA_ONSTACK|SA_RESTART;
  int l[] = {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGVTALRM};
  for (unsigned i = 0; i < N(l); i++) sigaction(l[i], &sa, 0);
}
/* (a timer of one second of cpu time ticks all the time; a call that lasts TRYLIM ticks is stuck) run x; SIG != 0 afterwards if it trapped or spun for `secs` of cpu time */
#define TRY(secs, x) do { TRYLIM = secs; TRYQ(x); TRYLIM = 10; } while (0)
#define TRYQ(x) do { SIG = 0; TRYN++; JARM = 1; if (!sigsetjmp(JB, 1)) { x; } JARM = 0; } while (0)
'''

# Blocks of the allocator end at an inaccessible page and are never reused: anything that touches memory behind a block or a
# freed block traps.  GUARD_REGS have to be the last names registered.
GUARD_REGS = ["std::syscall::mmap", "std::syscall::munmap"]
GUARD_C = r'''
#include <sys/mman.h>
#define GSIZE (1ULL<<36)
static char *GBASE; static u64 GUSED, GBYTES; static int GLIVE, GTOTAL, GFAIL=-1;
static void *g_mmap(void *a, u64 n, i64 prot, i32 flags, i32 fd, i64 off) {
  if (n == 0 || n > (1ULL << 30) || GBYTES > (1ULL << 30)) return (void *)-12LL;
  if (GFAIL >= 0 && GTOTAL++ == GFAIL) return (void *)-12LL;
  u64 l = (n + 4095) & ~4095ULL; if (GUSED + l + 4096 > GSIZE) return (void *)-12LL;
  char *p = GBASE + GUSED; GUSED += l + 4096; mprotect(p, l, 3); GLIVE++; GBYTES += l; return p + l - n; }
static int g_munmap(void *p, u64 n) { char *b = (char *)((u64)p & ~4095ULL); if (b < GBASE || b >= GBASE + GUSED) return -22;
  u64 l = ((char *)p + n - b + 4095) & ~4095ULL; madvise(b, l, MADV_DONTNEED); mprotect(b, l, 0); GLIVE--; GBYTES -= l; return 0; }
static void g_patch(void *f, void *g) { mprotect((void *)((u64)f & ~4095ULL), 8192, 7); u8 *c = f; c[0] = 0x48; c[1] = 0xb8; memcpy(c + 2, &g, 8); c[10] = 0xff; c[11] = 0xe0; }
static void g_reset(void) {
  if (!GBASE) { GBASE = mmap(0, GSIZE, 0, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (GBASE == MAP_FAILED) { puts("guard: no memory"); _exit(98); } }
  if (GUSED) { madvise(GBASE, GUSED, MADV_DONTNEED); mprotect(GBASE, GUSED, 0); } GUSED = 0; GLIVE = 0; GBYTES = 0; GTOTAL = 0; GFAIL = -1; }
static void g_start(int idx) { g_reset(); g_patch(F[idx], g_mmap); g_patch(F[idx + 1], g_munmap); }
'''


class BuildFailure(Exception):
    """A program the check holds to be valid was rejected or could not be assembled/linked."""
    def __init__(self, stage, log, src):
        Exception.__init__(self, stage)
        self.stage, self.log, self.src = stage, log, src


def build(repo, src, regs, driver, backend=None, opt="-O1", flags=(), cflags=(), files=None, extra_c=None):
    """src: csp text without main; regs: csp expressions (function names) to register,
    driver: C text (needs int main calling csp_main()).  Returns path of the executable."""
    text = 'extern "C" fn reg(n: i32, f: &void);\n' + src
    text += "\nfn main(): i32 {\n" + "".join("    reg(%d, %s: &void);\n" % (i, n) for i, n in enumerate(regs)) + "    <- 0;\n}\n"
    wd = repo.workdir()
    if backend == "C":
        # the C compiler is called by cspc itself, with its own options; the wrapper only keeps the object
        # (made once, before any thread starts processes that could have it open for writing)
        os.link(repo.cc_wrapper, wd + "/cc")
        r = repo.compile(text, backend="C", flags=list(flags) + ["--cc", wd + "/cc"], wd=wd, files=files)
        if not os.path.exists(wd + "/b.o"):
            log = open(wd + "/cc.log", errors="replace").read() if os.path.exists(wd + "/cc.log") else ""
            raise BuildFailure("timeout" if r.timed_out else "cc of transpiled code" if log else "cspc -b C", log or r.log, text)
        sym = "csp_c_main"
    else:
        r = repo.compile(text, out="obj", wd=wd, flags=flags, files=files)
        if not r.ok:
            raise BuildFailure("timeout" if r.timed_out else "cspc", r.log, text)
        core.sh(["objcopy", "-L", "_start", r.path, wd + "/b.o"])
        sym = ".main"
    with open(wd + "/d.c", "w") as f:
        f.write(PRE_C.replace("%(nf)d", str(len(regs) + 1)).replace("%(main)s", sym) + driver)
    cmd = ["gcc", "-w", opt, "-fwrapv", "-fno-strict-aliasing", "-no-pie"] + list(cflags) + [wd + "/d.c"]
    rc, o, e = core.sh(cmd + [wd + "/b.o", "-o", wd + "/d", "-lm", "-lpthread"])
    if rc:
        # is it the driver, or the object produced by the compiler under test?
        rc2, _, e2 = core.sh(cmd + ["-c", "-o", wd + "/dd.o"])
        if rc2:
            raise core.CheckError("driver does not compile: " + e2.decode(errors="replace")[:3000])
        raise BuildFailure("link", e.decode(errors="replace"), text)
    return wd + "/d", wd, text


def run(exe, timeout=300, args=()):
    return core.sh([exe] + list(args), timeout=timeout)
