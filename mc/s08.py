"""S08 - std::time: calendar time of every day, delays and time formats."""
import core
import harness

CSP = '''import "time.csp";
import "fmt.csp";
fn t_get(out: &i64): void { let t = std::time::get(); out[0] = (t.year: i64); out[1] = (t.month: i64); out[2] = (t.day: i64); out[3] = (t.hour: i64); out[4] = (t.minute: i64); out[5] = (t.second: i64); out[6] = t.ts.tv_sec; out[7] = t.ts.tv_usec; }
fn t_fmt(f: &const char): &char = std::fmt::time(f, std::time::get());
fn t_secs(out: &i64): void { let t = std::time::unix::secs(); out[0] = t.tv_sec; }
fn t_delay(ms: i64): void { std::timer::delay(ms); }
fn c_get(clk: i32, ts: &i64): i32 = (std::clock::get_time((clk: std::Clock), (ts: &std::TimeSpec)): i32);
fn c_set(clk: i32, ts: &i64): i32 = std::clock::set_time((clk: std::Clock), (ts: &const std::TimeSpec));
let CALLS: i32 = 0; let LIMIT: i32 = 0;
fn again(): bool { CALLS++; <- CALLS < LIMIT; }
fn t_until(ms: u64, n: i32): i32 { CALLS = 0; LIMIT = n; std::timer::do_each_until(ms, again); <- CALLS; }
'''
REGS = "t_get t_fmt t_secs t_delay t_until std::syscall::clock_gettime std::syscall::nanosleep c_get c_set std::syscall::gettimeofday std::syscall::clock_settime".split()

DRV = r'''
#include <time.h>
#include <sys/wait.h>
static i64 NOW, NSEC; static i64 SLEPT, REMAIN; static int CALLS_;
static i32 fake_gettime(i32 clk,i64*ts){ ts[0]=NOW; ts[1]=NSEC; return 0; }
static i32 KRC, KCLK; static i64 *KTS; static int KN; static i32 fake_gettime2(i32 clk,i64*ts){ KN++; KCLK=clk; KTS=ts; if(!KRC){ ts[0]=NOW; ts[1]=NSEC; } return KRC; }
static i32 fake_tod(i64*tv,void*z){ KN+=100; tv[0]=NOW; tv[1]=NSEC/1000; return 0; }
static i32 fake_settime(i32 clk,i64*ts){ KN+=10000; KCLK=clk; KTS=ts; return KRC; }
static i32 fake_sleep(i64*req,i64*rem){ CALLS_++; if(req[1]<0||req[1]>999999999) return -22; SLEPT+=req[0]*1000000000+req[1]; if(rem) rem[0]=rem[1]=0; return 0; }
static u64 EV,BADN; static void no(const char*f,...){ if(BADN++>8) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static void one(i64 t){ NOW=t; NSEC=(t%1000)*1000003%1000000000; i64 o[8]; TRYQ(((void(*)(i64*))F[0])(o)); struct tm m; time_t tt=t; gmtime_r(&tt,&m); EV++;
  if(SIG||o[0]!=m.tm_year+1900||o[1]!=m.tm_mon+1||o[2]!=m.tm_mday||o[3]!=m.tm_hour||o[4]!=m.tm_min||o[5]!=m.tm_sec||o[6]!=t||o[7]!=NSEC/1000)
    no("time::get at %lld is %lld-%lld-%lld %lld:%lld:%lld instead of %d-%d-%d %d:%d:%d",(long long)t,(long long)o[0],(long long)o[1],(long long)o[2],(long long)o[3],(long long)o[4],(long long)o[5],m.tm_year+1900,m.tm_mon+1,m.tm_mday,m.tm_hour,m.tm_min,m.tm_sec); }
static const char *TOK[]={"%%","%Y","%M","%D","%h","%m","%s","%u","x",".",":","\xc3\xa4"};
static void fmt(int *s,int n,int tail){ char f[64]="",w[200]="",b[40]; struct tm m; time_t tt=NOW; gmtime_r(&tt,&m);
  for(int i=0;i<n;i++){ strcat(f,TOK[s[i]]); switch(s[i]){ case 0: strcpy(b,"%"); break; case 1: sprintf(b,"%d",m.tm_year+1900); break; case 2: sprintf(b,"%02d",m.tm_mon+1); break; case 3: sprintf(b,"%02d",m.tm_mday); break; case 4: sprintf(b,"%02d",m.tm_hour); break; case 5: sprintf(b,"%02d",m.tm_min); break; case 6: sprintf(b,"%02d",m.tm_sec); break; case 7: sprintf(b,"%lld",(long long)NOW); break; default: strcpy(b,TOK[s[i]]); } strcat(w,b); }
  g_reset(); EV++; char *volatile r=0; TRYQ(r=((char*(*)(char*))F[1])(f)); if(SIG||!r||strcmp(r,w)) no("fmt::time(\"%s\") at %lld is \"%.60s\" instead of \"%s\"",f,(long long)NOW,SIG?"(trap)":r?r:"(nil)",w); }
int main(int argc,char**argv){ int years=atoi(argv[1]); traps(); csp_main(); g_start(GIDX); g_patch(F[5],fake_gettime); g_patch(F[6],fake_sleep);
  /* every day, with the first, the last and a middle second */
  for(int w=0;w<8;w++) { fflush(stdout); if(!fork()){ for(i64 d=w;d<365.2425*years;d+=8){ one(d*86400); one(d*86400+86399); one(d*86400+(d*7919)%86400); } printf("PART %llu\n",(unsigned long long)EV); fflush(stdout); _exit(0); } } int st; while(wait(&st)>0) if(st) no("a worker died");
  /* every second of one day */
  for(i64 s=0;s<86400;s++) one((i64)19782*86400+s);
  i64 days[8]={1252487349,1286615410,951782400,1709208000,4107542399,0,1700000000,68169599}; int s[3];
  for(int k=0;k<8;k++){ NOW=days[k]; for(int n=1;n<=3;n++) for(int c=0;c<(n==1?12:n==2?144:1728);c++){ s[0]=c%12; s[1]=c/12%12; s[2]=c/144; fmt(s,n,0); } }
  g_patch(F[5],fake_gettime2); g_patch(F[9],fake_tod); g_patch(F[10],fake_settime);
  { int rcs[]={0,-38,-22,-14,-1}; NOW=1709208000; NSEC=999999000; for(int clk=-1;clk<12;clk++) for(int r=0;r<5;r++){ i64 ts[4]={7,7,7,7}; volatile int g=0; EV+=2; KRC=rcs[r]; KN=0; TRYQ(g=((i32(*)(i32,i64*))F[7])(clk,ts)); int fb=KRC==-38&&clk==0;
     if(SIG||KN!=(fb?101:1)||KCLK!=clk||KTS!=ts||g!=(fb?0:KRC==-38?-22:KRC)||ts[0]!=(KRC==0||fb?NOW:7)||ts[1]!=(KRC==0||fb?NSEC:7)||ts[2]!=7) no("clock::get_time(%d) with the clock call giving %d returns %d, %lld s and %lld ns",clk,KRC,g,(long long)ts[0],(long long)ts[1]);
     KN=0; TRYQ(g=((i32(*)(i32,i64*))F[8])(clk,ts)); if(SIG||KN!=10000||KCLK!=clk||KTS!=ts||g!=KRC) no("clock::set_time(%d) does not make its call or return its result %d",clk,KRC); } }
  KRC=0;
  for(int k=0;k<8;k++){ NOW=days[k]; NSEC=5; i64 o[2]={0,0}; EV++; TRYQ(((void(*)(i64*))F[2])(o)); if(SIG||o[0]!=NOW) no("time::unix::secs at %lld %s",(long long)NOW,SIG?"traps":"is something else"); }
  for(i64 ms=0;ms<=5000;ms++){ EV++; SLEPT=0; TRYQ(((void(*)(i64))F[3])(ms)); if(SIG||SLEPT!=ms*1000000) no("timer::delay(%lld) sleeps %lld ns",(long long)ms,(long long)SLEPT); }
  for(int ms=0;ms<3000;ms+=250) for(int n=1;n<6;n++){ EV++; SLEPT=0; CALLS_=0; volatile int c=0; TRYQ(c=((i32(*)(u64,i32))F[4])(ms,n)); if(SIG||c!=n||SLEPT!=(i64)(n-1)*ms*1000000) no("timer::do_each_until(%d ms) calls its function %d times instead of %d and sleeps %lld ns",ms,c,n,(long long)SLEPT); }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S08", title="std::time gives the right calendar time for every moment; delays last as asked",
    statement="time::get returns the proleptic Gregorian UTC date and time (year, month, day, hour, minute, second) of the system clock for every day from 1970 on, including leap days, century years and the ends of months and years, together with the seconds and microseconds of the clock; clock::get_time and set_time act on the clock given and return what the system returned, except that get_time falls back to gettimeofday where the system has no such call (for other clocks than REALTIME: -INVAL); unix::secs returns the clock's seconds; fmt::time replaces %%, %Y, %M, %D, %h, %m, %s (two digits except the year) and %u (unix seconds) in every combination and copies everything else; timer::delay(ms) asks the system for exactly ms milliseconds, and do_each_until calls its function until it returns false with that delay in between.",
    quantifier=dict(over=["inputs", "programs"], text="every day from 1970 to 2369 (thorough 1970 to 3570) at three seconds each, every second of one day, all time formats of up to three elements at eight moments, all delays from 0 to 5000 ms"),
    why_tests_cant="A test sees the clock of the day it runs on; a wrong leap rule shows on single days.",
    anchors=dict(files=["src/std/time.csp", "src/std/fmt.csp"], mechanism="std::time::get, std::clock::get_time_of_day, std::fmt::time, std::timer::delay/do_each_until"),
    technique="explicit-state exploration of the compiled library with a controlled clock: every day of the range is a state of the clock stand-in; comparison against libc's gmtime_r", level="exploration",
    level_note="Real compiled code; clock_gettime and nanosleep are replaced by stand-ins. Bounds: range of years.")


def run(chk, repo):
    try:
        exe, wd, text = harness.build(repo, CSP, REGS + harness.GUARD_REGS, harness.GUARD_C + "#define GIDX %d\n" % len(REGS) + DRV)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, args=("1600" if chk.thorough else "400",))
    tot, part = None, 0
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("time:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot + part)
        chk.add("distinct_nontrivial", tot + part)
        chk.sample({"days": 1600 * 365 if chk.thorough else 400 * 365, "moments": part, "other": tot})
    chk.cov["rule"] = "one evaluation per moment, format string or delay; all of them are distinct"
