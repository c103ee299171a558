"""S16 - std::testing: the outcome of tests and of runs of several tests."""
import core
import harness

CSP = '''import "testing.csp"; import "process.csp"; import "io.csp";
extern "C" fn outcome(i: i32): i32; # what the test at index i has to do
extern "C" fn side(x: i32): void;
fn body(t: &std::Testing): void {
    let o = outcome(t.current: i32);
    match o {
        0 => {}
        1 => std::testing::assert(t, true, "never shown");
        2 => std::testing::assert(t, false, "one %i", 77);
        3 => std::testing::assert_false(t, true, "two %s", "x");
        4 => std::testing::assert_false(t, false, "never shown");
        5 => std::testing::assert_fatal(t, true, "never shown");
        6 => { std::testing::assert_fatal(t, false, "fatal %i", 5); std::io::puts("NOT REACHED"); }
        7 => { std::testing::skip(t); std::io::puts("NOT REACHED"); }
        8 => { std::process::kill(std::process::getpid(), std::process::SIGKILL); std::io::puts("NOT REACHED"); }
        9 => { std::testing::assert(t, true, "a"); std::testing::assert(t, false, "b"); std::testing::assert(t, true, "c"); }
        10 => { std::testing::assert(t, false, "b"); std::testing::skip(t); }
        11 => { let p: &i32 = nil; *p = 3; }
        12 => std::testing::log(t, "logged %i", 12);
        _ => { for let i = 0; i < o - 100; i++; { std::testing::assert(t, false, "n"); } }
    }
}
fn t_out(t: &std::Testing, out: &u64): void { out[0] = t.successful; out[1] = t.skipped; out[2] = t.failed; out[3] = t.errors: u64; }
fn t_run1(idx: u64, out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}]; let t = std::testing::new(tests); let r = std::testing::run(&t, idx): u64; t_out(&t, out); <- r; }
fn t_run3(idx: u64, out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}, std::testing::Test::{body, "second"}, std::testing::Test::{body, "third"}]; let t = std::testing::new(tests); let r = std::testing::run(&t, idx): u64; t_out(&t, out); <- r; }
fn t_all1(out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}]; let t = std::testing::new(tests); let r = std::testing::run_all(&t); t_out(&t, out); <- r; }
fn t_all2(out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}, std::testing::Test::{body, "second"}]; let t = std::testing::new(tests); let r = std::testing::run_all(&t); t_out(&t, out); <- r; }
fn t_all3(out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}, std::testing::Test::{body, "second"}, std::testing::Test::{body, "third"}]; let t = std::testing::new(tests); let r = std::testing::run_all(&t); t_out(&t, out); <- r; }
fn t_twice(out: &u64): u64 { let tests = [std::testing::Test::{body, "first"}, std::testing::Test::{body, "second"}, std::testing::Test::{body, "third"}]; let t = std::testing::new(tests); std::testing::run_all(&t); let r = std::testing::run_all(&t); t_out(&t, out); <- r; }
fn t_nil(out: &u64): u64 { std::error::clear(); let t: std::Testing; let a = std::testing::run(nil, 0): u64; out[0] = std::error::current().kind: u64; std::error::clear(); let b = std::testing::run_all(nil); out[1] = std::error::current().kind: u64; std::error::clear(); <- a * 10 + b; }
'''
REGS = "t_run1 t_run3 t_all1 t_all2 t_all3 t_twice t_nil std::syscall::write".split()
DRV = r'''
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
struct buf { int n[3], bad; char b[3][1<<20]; }; static struct buf *B;
static i64 fake_write(i32 fd,const char*b,u64 n){ if(fd<1||fd>2||n>4000||B->n[fd]+n>=sizeof B->b[0]){ B->bad=1; return -9; } memcpy(B->b[fd]+B->n[fd],b,n); B->n[fd]+=n; B->b[fd][B->n[fd]]=0; return n; }
static void g_patch(void *f, void *g) { mprotect((void *)((u64)f & ~4095ULL), 8192, 7); u8 *c = f; c[0] = 0x48; c[1] = 0xb8; memcpy(c + 2, &g, 8); c[10] = 0xff; c[11] = 0xe0; }
static int O[3]; i32 outcome(i32 i){ return O[i]; } void side(i32 x){}
static u64 EV,BADN; static void no(const char*f,...){ if(BADN++>5) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static const char*NMS[]={"first","second","third"};
#define C_RED "\x1b[31m"
#define C_GREEN "\x1b[32m"
#define C_YELLOW "\x1b[33m"
#define C_BOLD "\x1b[1m"
#define C_RST "\x1b[0m"
/* what a test with an outcome writes, and its verdict: 0 passed, 1 skipped, 2 failed */
static int expect(int i,int n,char*w,char*e){ int o=O[i], v=0; w+=sprintf(w,"Running test %d/%d: `%s`",i+1,n,NMS[i]);
#define FAILED(kind,f,...) do{ e+=sprintf(e,"\n    " C_RED "Test `%s` (%d): " kind ": " f C_RST,NMS[i],i+1,##__VA_ARGS__); v=2; }while(0)
  if(o==2) FAILED("assertion failed","one 77"); if(o==3) FAILED("assertion failed","two x"); if(o==6) FAILED("fatal assertion failed","fatal 5"); if(o==7) v=1; if(o==9) FAILED("assertion failed","b"); if(o==10) { FAILED("assertion failed","b"); v=1; }
  if(o>100) for(int k=0;k<o-100;k++) FAILED("assertion failed","n");
  if(o==12) w+=sprintf(w,C_RST "\n    logged 12" C_RST);
  if(o==8||o==11){ w+=sprintf(w,"\n    " C_RED "Test `%s` (%d) terminated with signal %s." C_RST,NMS[i],i+1,o==8?"SIGKILL":"SIGSEGV"); v=2; }
  sprintf(w,v==0?"\t[ " C_GREEN C_BOLD "OK" C_RST " ]\n":v==1?"\t[" C_YELLOW C_BOLD "SKIP" C_RST "]\n":"\t[" C_RED C_BOLD "FAIL" C_RST "]\n"); return v; }
static char W[1<<20], E[1<<20]; static char D[200];
static void streams(const char*what){ if(B->bad) no("%s writes elsewhere",what); B->b[1][B->n[1]]=B->b[2][B->n[2]]=0; if(strcmp(B->b[1],W)){ int k=0; while(W[k]==B->b[1][k]) k++; no("%s with outcomes %s writes ...\"%.50s\" instead of ...\"%.50s\" to stdout",what,D,B->b[1]+k,W+k); } if(strcmp(B->b[2],E)){ int k=0; while(E[k]==B->b[2][k]) k++; no("%s with outcomes %s writes ...\"%.50s\" instead of ...\"%.50s\" to stderr",what,D,B->b[2]+k,E+k); } }
static void reset(void){ B->n[1]=B->n[2]=B->bad=0; *W=*E=0; }
static void all(int n,int twice){ int c[3]={0}; D[0]=0; for(int i=0;i<n;i++) sprintf(D+strlen(D),"%d ",O[i]); reset(); u64 o[4]={0};
  for(int z=0;z<=twice;z++){ c[0]=c[1]=c[2]=0; for(int i=0;i<n;i++) c[expect(i,n,W+strlen(W),E+strlen(E))]++;
  char*w=W+strlen(W); if(c[0]==n) sprintf(w,"[ " C_GREEN C_BOLD "OK" C_RST " ] All %d tests finished successfully.\n",n); else if(!c[2]) sprintf(w,"[ " C_GREEN C_BOLD "OK" C_RST " ] %d of %d tests finished successfully, %d were skipped.\n",c[0],n,c[1]); else sprintf(w,"[" C_RED C_BOLD "FAIL" C_RST "] %d of %d tests failed, %d finished successfully, %d skipped.\n",c[2],n,c[0],c[1]); }
  u64 r=((u64(*)(u64*))F[twice?5:1+n])(o); EV++; if(r!=c[2]) no("run_all of tests with outcomes %s returns %llu instead of %d",D,(unsigned long long)r,c[2]); if(o[0]!=c[0]||o[1]!=c[1]||o[2]!=c[2]) no("run_all of tests with outcomes %s counts %llu successful, %llu skipped, %llu failed instead of %d, %d, %d",D,(unsigned long long)o[0],(unsigned long long)o[1],(unsigned long long)o[2],c[0],c[1],c[2]);
  streams("run_all"); }
static void one(int n,u64 idx){ sprintf(D,"%d (test %d)",O[idx<3?idx:0],(int)idx); reset(); u64 o[4]; int v=2; if(idx<n) v=expect(idx,n,W,E); u64 r=((u64(*)(u64,u64*))F[n==1?0:1])(idx,o); EV++; if((i32)r!=v) no("run of a test with outcome %s is %s instead of %s",D,r==0?"OK":r==1?"SKIP":"FAIL",v==0?"OK":v==1?"SKIP":"FAIL"); streams("run"); }
int main(int argc,char**argv){ int deep=atoi(argv[1]); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); csp_main();
  for(int w=0;w<8;w++){ fflush(stdout); if(fork()) continue; B=mmap(0,sizeof *B,3,MAP_SHARED|MAP_ANONYMOUS,-1,0); g_patch(F[7],fake_write);
    int NO=13; for(int n=1;n<=3;n++){ int tot=n==1?NO:n==2?NO*NO:NO*NO*NO; for(int v=w;v<tot;v+=8){ O[0]=v%NO; O[1]=v/NO%NO; O[2]=v/NO/NO; all(n,0); if(n==3&&v%16==w) all(n,1); if(n!=2) for(int k=0;k<n;k++) if(n==1||v%11==k) one(n,k); } }
    for(int e=1+w;e<=(deep?1100:600);e+=8){ O[0]=100+e; all(1,0); one(1,0); }
    if(w==0){ O[0]=O[1]=O[2]=0; one(1,1); one(3,3); one(3,~0ull); one(1,1ull<<32); reset(); u64 o[4]; u64 r=((u64(*)(u64*))F[6])(o); EV++; if(r!=20||o[0]==0||o[1]==0||o[0]!=o[1]) no("run and run_all of nil are %d (errors %d and %d)",(int)r,(int)o[0],(int)o[1]); }
    printf("PART %llu\n",(unsigned long long)EV); fflush(stdout); _exit(0); }
  int st; while(wait(&st)>0) if(st) no("a worker died (%x)",st); printf("TOTAL 0\n"); return 0; }
'''

PROP = dict(
    id="S16", title="std::testing counts and reports every test by its real outcome",
    statement="testing::run executes the test of the given index in its own process and returns OK if it ended without a failed assertion, FAIL if any number of its assertions failed, an assert_fatal failed or it was ended by a signal, and SKIP if it called skip; an index outside of the tests and a nil argument are FAIL. Messages of failed assertions (and only these) go to the error stream with the name and the number of the test, a failed assert_fatal ends the test at once, and the verdict is printed. run_all runs all tests in order whatever the outcome of each, counts the successful, skipped and failed ones, prints the summary line of them, and returns the number of failed tests, also when run again.",
    quantifier=dict(over=["histories", "inputs"], text="all combinations of 13 outcomes for one, two and three tests; 1 to 600 (thorough 1100) failing assertions in one test; all indexes at the borders"),
    why_tests_cant="The tests of the repository are run by this library themselves and cannot see that it misjudges a combination of outcomes.",
    anchors=dict(files=["src/std/testing.csp", "src/std/process.csp"], mechanism="std::testing::run, run_all, assert, assert_false, assert_fatal, skip"),
    technique="exhaustive enumeration of combinations of test outcomes on the compiled library with real child processes, against a model of verdicts and printed text", level="exploration",
    level_note="Real compiled code and processes; only write is a stand-in which collects the text. Bounds: three tests per run.")


def run(chk, repo):
    try:
        exe, wd, text = harness.build(repo, CSP, REGS, DRV)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=600, args=("1" if chk.thorough else "0",))
    part, tot = 0, None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("out:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
        elif line.startswith("TOTAL"):
            tot = 1
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", part)
        chk.add("distinct_nontrivial", part)
        chk.sample({"runs": part})
    chk.cov["rule"] = "one evaluation per run or run_all, each with different outcomes"
