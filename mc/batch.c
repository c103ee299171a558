// Runs the compiler on many texts: batch CSPC STD DIR WORKERS SECONDS < items > results
// item: u32 length, text.  result: u32 index, i32 wait status (-1: time-out), u8 output, u64 hash of it, u32 length, log
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>

static volatile pid_t child;
static volatile int late;
static void on_alarm(int s) { late = 1; if(child > 0) kill(-child, SIGKILL); }

int main(int argc, char** argv)
{
    size_t cap = 1 << 20, len = 0, n = 0; char* in = malloc(cap);
    for(ssize_t r; (r = read(0, in + len, cap - len)) > 0; ) { len += r; if(len == cap) in = realloc(in, cap *= 2); }
    for(size_t p = 0; p < len; n++) { uint32_t l; memcpy(&l, in + p, 4); p += 4 + l; }
    char** text = malloc(n * sizeof *text); uint32_t* size = malloc(n * sizeof *size);
    for(size_t p = 0, i = 0; p < len; i++) { memcpy(&size[i], in + p, 4); text[i] = in + p + 4; p += 4 + size[i]; }
    uint32_t* next = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int workers = atoi(argv[4]), seconds = atoi(argv[5]);
    char tmp[4096];
    for(int w = 0; w < workers; w++)
        if(!fork())
        {
            char dir[3000]; snprintf(dir, sizeof dir, "%s/b%d", argv[3], w); mkdir(dir, 0700); if(chdir(dir)) _exit(1);
            mkdir(".cache", 0700);
            struct rlimit fs = {32 << 20, 32 << 20}, as = {4l << 30, 4l << 30}, core = {0, 0};
            FILE* out = fopen("results", "w");
            setenv("HOME", dir, 1); setenv("LC_ALL", "C.UTF-8", 1);
            signal(SIGALRM, on_alarm);
            for(uint32_t i; (i = __atomic_fetch_add(next, 1, __ATOMIC_SEQ_CST)) < n; )
            {
                int f = open("u.csp", O_CREAT | O_TRUNC | O_WRONLY, 0600); if(write(f, text[i], size[i]) != (ssize_t) size[i]) _exit(1); close(f);
                if(!i || !(i & 15)) { f = open("o.csp", O_CREAT | O_TRUNC | O_WRONLY, 0600); const char* o = "fn o(a: i32, b: i32): i32 = a - b;\n"; if(write(f, o, strlen(o)) < 0) _exit(1); close(f); }
                int log = open("log", O_CREAT | O_TRUNC | O_RDWR, 0600);
                late = 0;
                pid_t c = vfork();
                if(!c)
                {
                    setpgid(0, 0); setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_CORE, &core); if(!getenv("BATCH_NOAS")) setrlimit(RLIMIT_AS, &as);
                    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); dup2(log, 1); dup2(log, 2);
                    execl(argv[1], argv[1], "build", "u.csp", "-p", argv[2], "-o", "t.out", "--silent", "-S", (char*) 0);
                    _exit(127);
                }
                child = c; alarm(seconds);
                int st; while(waitpid(c, &st, 0) < 0 && errno == EINTR) { }
                alarm(0); child = 0;
                if(late) st = -1;
                uint8_t ok = 0; uint64_t h = 1469598103934665603ull;
                int o = open("t.out.s", O_RDONLY);
                if(o >= 0)
                {
                    ok = 1; ssize_t r;
                    while((r = read(o, tmp, sizeof tmp)) > 0) for(ssize_t k = 0; k < r; k++) h = (h ^ (uint8_t) tmp[k]) * 1099511628211ull;
                    close(o); unlink("t.out.s");
                }
                struct stat sb; fstat(log, &sb);
                uint32_t l = sb.st_size < 1200 ? sb.st_size : 1200; l = pread(log, tmp, l, 0); close(log);
                fwrite(&i, 4, 1, out); fwrite(&st, 4, 1, out); fwrite(&ok, 1, 1, out); fwrite(&h, 8, 1, out); fwrite(&l, 4, 1, out); fwrite(tmp, 1, l, out);
            }
            fclose(out); _exit(0);
        }
    int bad = 0, st;
    while(wait(&st) > 0) bad |= st;
    for(int w = 0; w < workers; w++)
    {
        char path[3000]; snprintf(path, sizeof path, "%s/b%d/results", argv[3], w);
        int f = open(path, O_RDONLY); ssize_t r;
        while(f >= 0 && (r = read(f, tmp, sizeof tmp)) > 0) if(write(1, tmp, r) != r) return 1;
        if(f >= 0) close(f);
    }
    return bad != 0;
}
