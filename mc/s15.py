"""S15 - std::process and std::assert: how programs end and how the end of a child is read."""
import core
import harness
import seq

BODY = '''import "process.csp"; import "assert.csp"; import "memory.csp";
fn p_reset(): void { std::process::__static::__at_exit_cnt = 0: u32; std::assert::ENABLED = true; }
fn p_todo(): void { todo!(); }
fn p_todo_r(): void { todo!("later on"); }
fn p_unr(): void { unreachable!(); }
fn p_unr_r(): void { unreachable!("why not"); }
fn p_ni(): void { not_implemented!(); }
fn p_ni_s(): void { not_implemented!("a thing"); }
fn p_as(c: bool): void { assert!(c); }
fn p_as_m(c: bool): void { assert!(c, "%s told"); }
fn p_asf_m(c: bool): void { assert_false!(c, "untold"); }
fn p_as_or(a: bool, b: bool): void { assert!(a || b); }
fn p_asf_or(a: bool, b: bool): void { assert_false!(a || b, "or"); }
'''
# name -> csp function
REG = dict(EXIT="std::process::exit", DIE="std::process::die", PANIC="std::process::panic", AT="std::process::at_exit", RESET="p_reset", TODO="p_todo", TODOR="p_todo_r", UNR="p_unr", UNRR="p_unr_r", NI="p_ni", NIS="p_ni_s",
           AS="p_as", ASM="p_as_m", ASFM="p_asf_m", ASOR="p_as_or", ASFOR="p_asf_or", ENABLE="std::assert::enable", DISABLE="std::assert::disable", STATUS="std::assert::status", DWL="std::process::die_with_location",
           WRITE="std::syscall::write", SEXIT="std::syscall::exit", XS="std::process::exit_status", TS="std::process::term_sig", SS="std::process::stop_sig", EXITED="std::process::exited", SIGNALED="std::process::signaled", STOPPED="std::process::stopped",
           SIGSTR="std::process::signum_str", FORK="std::process::fork", WAITPID="std::process::waitpid", KILL="std::process::kill", GETPID="std::process::getpid")
SIG = {"SIGALARM": "SIGALRM", "SIGGCLD": "SIGCHLD"}
SIGS = "SIGINT SIGILL SIGABRT SIGFPE SIGSEGV SIGTERM SIGHUP SIGQUIT SIGTRAP SIGKILL SIGPIPE SIGALARM SIGSTKFLT SIGPWR SIGBUS SIGSYS SIGURG SIGSTOP SIGTSTP SIGCONT SIGCHLD SIGTTIN SIGTTOU SIGPOLL SIGXFSZ SIGXCPU SIGVTALRM SIGPROF SIGUSR1 SIGUSR2 SIGWINCH".split()
CONSTS = SIGS + ["SIGIO", "SIGIOT", "SIGGCLD"] + ["CLONE_" + x for x in "NEWTIME VM FS FILES SIGHAND PIDFD PTRACE VFORK PARENT THREAD NEWNS SYSVSEM SETTLS PARENT_SETTID CHILD_CLEARTID DETACHED UNTRACED CHILD_SETTID NEWCGROUP NEWUTS NEWIPC NEWUSER NEWPID NEWNET IO".split()]
CLONE = {"CLONE_NEWTIME": "0x80"}

COMMON = r'''
#define _GNU_SOURCE
#include <sys/wait.h>
#include <sched.h>
static char OUT[3][1<<14]; static int ON[3];
static i64 fake_write(i32 fd,const char*b,u64 n){ if(fd<0||fd>2||n>4000||ON[fd]+n>=sizeof OUT[0]) return -9; memcpy(OUT[fd]+ON[fd],b,n); ON[fd]+=n; OUT[fd][ON[fd]]=0; return n; }
static sigjmp_buf XJ; static int XCODE;
static void fake_exit(i32 c){ XCODE=c; siglongjmp(XJ,1); }
'''
MODEL = COMMON + r'''
enum { ATA, ATB, ATC, FILL, EXIT0, EXIT1, EXIT77, DIEM, DIEN, PAN, LOC, MACRO, ENA=MACRO+6, DIS, STAT, AS1, AS0, ASM0, ASM1, ASF0, ASF1, OR00, OR01, OR10, FOR00, FOR01, FOR10, NOPS };
static const char *opname(int o){ static const char*n[]={"at_exit(A)","at_exit(B)","at_exit(C, which registers A)","at_exit(A) until 1023 are registered","exit(0)","exit(1)","exit(77)","die(\"a message\")","die(nil)","panic(\"a message\")","die_with_location(\"f\", 7, \"r\", \"m\")","todo!()","todo!(r)","unreachable!()","unreachable!(r)","not_implemented!()","not_implemented!(s)","assert::enable","assert::disable","assert::status","assert!(true)","assert!(false)","assert!(false, msg)","assert!(true, msg)","assert_false!(false, msg)","assert_false!(true, msg)","assert!(false || false)","assert!(false || true)","assert!(true || false)","assert_false!(false || false)","assert_false!(false || true)","assert_false!(true || false)"}; return n[o]; }
static char TRC[4096]; static int TN; static int ARG; static u8 MH[1200]; static int MHN, EN;
static void log_(char c,int code){ if(TN<4000) TRC[TN++]=c; if(code!=ARG) bad("a handler is called with %d instead of %d",code,ARG); }
static void HA(i32 c){ log_('A',c); } static void HB(i32 c){ log_('B',c); } static void HC(i32 c){ log_('C',c); ((bool(*)(void*))F[AT])(HA); }
static void*HF[]={HA,HB,HC};
static void init(void){ static int f; if(!f){ f=1; g_patch(F[WRITE],fake_write); g_patch(F[SEXIT],fake_exit); } ((void(*)(void))F[RESET])(); MHN=0; EN=1; TN=0; }
static void fini(void){ }
static void reg_(int k){ EXPECT(((bool(*)(void*))F[AT])(HF[k])==(MHN<1024),"at_exit %s handler %d",MHN<1024?"refuses":"accepts",MHN+1); if(MHN<1024) MH[MHN++]=k; }
/* the call ends the process with the code, having run the handlers (or not), and having written the text to the error stream */
static int WANTLINE;
static void ends(const char*what,int o,int code,int handlers,const char*head,int line,const char*tail){ volatile int ex=0; char w[4096]; int wn=0; ARG=code; ON[0]=ON[1]=ON[2]=0; OUT[2][0]=0; TN=0;
  if(handlers) for(int i=0;i<MHN;i++){ w[wn++]="ABC"[MH[i]]; if(MH[i]==2&&MHN<1024) MH[MHN++]=0; }
  if(sigsetjmp(XJ,0)) ex=1; else switch(o){ case EXIT0: case EXIT1: case EXIT77: ((void(*)(i32))F[EXIT])(code); break; case DIEM: ((void(*)(char*))F[DIE])("a message"); break; case DIEN: ((void(*)(char*))F[DIE])(0); break; case PAN: ((void(*)(char*))F[PANIC])("a message"); break;
    case LOC: ((void(*)(char*,u32,char*,char*))F[DWL])("f",7,"r","m"); break; case MACRO: case MACRO+1: case MACRO+2: case MACRO+3: case MACRO+4: case MACRO+5: ((void(*)(void))F[TODO+o-MACRO])(); break;
    case AS0: ((void(*)(bool))F[AS])(0); break; case ASM0: ((void(*)(bool))F[ASM])(0); break; case ASF1: ((void(*)(bool))F[ASFM])(1); break; case OR00: ((void(*)(bool,bool))F[ASOR])(0,0); break; case FOR01: ((void(*)(bool,bool))F[ASFOR])(0,1); break; case FOR10: ((void(*)(bool,bool))F[ASFOR])(1,0); break; }
  EXPECT(ex,"%s does not end the process",what); if(BAD) return; EXPECT((XCODE&255)==(code&255),"%s ends with status %d instead of %d",what,XCODE,code);
  EXPECT(TN==wn&&!memcmp(TRC,w,wn),"%s runs the handlers %.*s (%d) instead of %.*s (%d)",what,TN<20?TN:20,TRC,TN,wn<20?wn:20,w,wn);
  char t[600], loc[60]=""; if(line) sprintf(loc,"t.csp:%d",line); EXPECT(ON[0]==0&&ON[1]==0,"%s writes to another stream",what);
  char*p=OUT[2]; if(line){ char*l=strstr(p,loc); int hl=strlen(head); EXPECT(!strncmp(p,head,hl)&&l&&!strchr(p,0)[0]&&!memchr(p,'\n',l-p)&&!strcmp(l+strlen(loc),tail),"%s writes \"%s\" instead of \"%s...%s%s\"",what,p,head,loc,tail); }
  else { sprintf(t,"%s%s",head,tail); EXPECT(!strcmp(p,t),"%s writes \"%s\" instead of \"%s\"",what,p,t); } }
#define RED "\x1b[31m"
#define RST "\x1b[0m"
static void pass(int o){ volatile int ex=0; ON[2]=ON[1]=0; if(sigsetjmp(XJ,0)) ex=1; else switch(o){ case AS1: case AS0: ((void(*)(bool))F[AS])(o==AS1); break; case ASM0: case ASM1: ((void(*)(bool))F[ASM])(o==ASM1); break; case ASF0: case ASF1: ((void(*)(bool))F[ASFM])(o==ASF1); break; case OR00: case OR01: case OR10: ((void(*)(bool,bool))F[ASOR])(o==OR10,o==OR01); break; default: ((void(*)(bool,bool))F[ASFOR])(o==FOR10,o==FOR01); }
  EXPECT(!ex&&!ON[1]&&!ON[2],"%s %s although it must not",opname(o),ex?"ends the process":"writes"); }
static int apply(int o){ const char*n=opname(o); if(BAD) return 0;
  if(o<=ATC) reg_(o);
  else if(o==FILL){ if(MHN>=1023) return 1; while(MHN<1023&&!BAD) reg_(0); }
  else if(o==ENA) { ((void(*)(void))F[ENABLE])(); EN=1; } else if(o==DIS){ ((void(*)(void))F[DISABLE])(); EN=0; }
  else if(o==STAT) EXPECT(((bool(*)(void))F[STATUS])()==EN,"assert::status is wrong");
  else if(o>=AS1){ int fail=o==AS0||o==ASM0||o==ASF1||o==OR00||o==FOR01||o==FOR10; if(!fail||!EN) pass(o);
    else { if(!LAST) return 1; int ln=o==AS0?LINE_p_as:o==ASM0?LINE_p_as_m:o==ASF1?LINE_p_asf_m:o==OR00?LINE_p_as_or:LINE_p_asf_or; char t[300]; sprintf(t," in p_%s(): assertion failed: %s" RST "\n",o==AS0?"as":o==ASM0?"as_m":o==ASF1?"asf_m":o==OR00?"as_or":"asf_or",o==ASM0?"%s told":o==ASF1?"untold":o>=FOR01?"or":""); ends(n,o,ASSERTNO,1,RED,ln,t); } }
  else { if(!LAST) return 1; switch(o){ case EXIT0: ends(n,o,0,1,"",0,""); break; case EXIT1: ends(n,o,1,1,"",0,""); break; case EXIT77: ends(n,o,77,1,"",0,""); break; case DIEM: ends(n,o,1,1,"a message\n",0,""); break; case DIEN: ends(n,o,1,1,"",0,""); break;
    case PAN: ends(n,o,2,0,"CSpydr panic:\na message\n",0,""); break; case LOC: ends(n,o,1,1,"[f:7]: r: m\n",0,""); break;
    case MACRO: ends(n,o,1,1,"[",LINE_p_todo,"]: reached todo!()\n"); break; case MACRO+1: ends(n,o,1,1,"[",LINE_p_todo_r,"]: reached todo!(): later on\n"); break; case MACRO+2: ends(n,o,1,1,"[",LINE_p_unr,"]: reached unreachable!()\n"); break; case MACRO+3: ends(n,o,1,1,"[",LINE_p_unr_r,"]: reached unreachable!(): why not\n"); break;
    case MACRO+4: ends(n,o,1,1,"[",LINE_p_ni,"]: p_ni() is not implemented.\n"); break; case MACRO+5: ends(n,o,1,1,"[",LINE_p_ni_s,"]: a thing is not implemented.\n"); break; } }
  return 0; }
static u64 state(void){ u64 h=EN+2*MHN; for(int i=0;i<MHN;i++) h=h*31+MH[i]+7; return h; }
'''

DRV2 = COMMON + r'''
static u64 EV,BADN; static void no(const char*f,...){ if(BADN++>8) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static int call(int k,i32 v){ volatile int r=-1; TRYQ(r=k==EXITED||k==SIGNALED||k==STOPPED?((bool(*)(i32))F[k])(v):((i32(*)(i32))F[k])(v)); if(SIG) no("decoding of %d traps",v); EV++; return r; }
static void status(i32 s){ int a;
#define D(k,n,want) a=call(k,s); if(a!=(want)) no(n " of the status 0x%x is %d instead of %d",s,a,want)
  D(EXITED,"exited",!!WIFEXITED(s)); D(SIGNALED,"signaled",!!WIFSIGNALED(s)); D(STOPPED,"stopped",!!WIFSTOPPED(s)); D(XS,"exit_status",WEXITSTATUS(s)); D(TS,"term_sig",WTERMSIG(s)); D(SS,"stop_sig",WSTOPSIG(s)); }
static const struct { const char*n; i64 w; } CONST[]={ %(consts)s };
static const struct { const char*n; int v; } NM[]={ %(sigs)s };
int main(void){ traps(); csp_main();
  for(i32 s=0;s<65536;s++) status(s); status(0xffff);
  for(int i=0;i<N(CONST);i++){ i64 v=((i64(*)(void))F[CST+i])(); EV++; if(v!=CONST[i].w) no("process::%s is %lld instead of %lld",CONST[i].n,(long long)v,(long long)CONST[i].w); }
  for(int i=-300;i<=300;i++){ const char*w="<unknown>"; for(int k=0;k<N(NM);k++) if(NM[k].v==i) w=NM[k].n; const char*g=((char*(*)(i32))F[SIGSTR])(i); EV++; if(strcmp(w,g)) no("signum_str(%d) is %s instead of %s",i,g,w); }
  /* children that end in every way */
  for(int s=1;s<32;s++) signal(s,SIG_DFL); fflush(stdout); if(((i32(*)(void))F[GETPID])()!=getpid()) no("getpid is wrong");
  for(int c=0;c<256+31;c++){ if(c>=256){ int s=c-255; if(s==SIGSTOP||s==SIGTSTP||s==SIGTTIN||s==SIGTTOU||s==SIGCONT||s==SIGCHLD||s==SIGURG||s==SIGWINCH) continue; }
    i32 p=((i32(*)(void))F[FORK])(); if(p<0){ no("fork fails"); break; }
    if(p==0){ if(c<256){ ((void(*)(i32))F[EXIT])(c); } else { for(;;) pause(); } _exit(99); }
    if(c>=256&&((i32(*)(i32,i32))F[KILL])(p,c-255)!=0) no("kill fails");
    i32 st=0x55555555; i32 r=((i32(*)(i32,i32*,i32))F[WAITPID])(p,&st,0); EV++; if(r!=p) { no("waitpid returns %d instead of %d",r,p); continue; }
    if(c<256?!call(EXITED,st)||call(SIGNALED,st)||call(XS,st)!=c:call(EXITED,st)||!call(SIGNALED,st)||call(TS,st)!=c-255) no("a child that %s %d is not seen as such (0x%x)",c<256?"exits with":"is ended by signal",c<256?c:c-255,st); }
  { i32 p=fork(); if(!p) for(;;) pause(); i32 st; kill(p,SIGSTOP); i32 r=((i32(*)(i32,i32*,i32))F[WAITPID])(p,&st,WUNTRACED); if(r!=p||!call(STOPPED,st)||call(EXITED,st)||call(SIGNALED,st)||call(SS,st)!=SIGSTOP) no("a stopped child is not seen as such (0x%x)",st);
    st=77; r=((i32(*)(i32,i32*,i32))F[WAITPID])(p,&st,WNOHANG); if(r!=0) no("waitpid with WNOHANG returns %d",r); ((i32(*)(i32,i32))F[KILL])(p,SIGKILL); r=((i32(*)(i32,i32*,i32))F[WAITPID])(p,&st,0); if(r!=p||!call(SIGNALED,st)||call(TS,st)!=SIGKILL) no("a killed child is not seen as such (0x%x)",st); EV+=3; }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S15", title="Programs end as asked, and the end of a child process is read correctly",
    statement="process::exit runs the handlers registered with at_exit in the order of their registration (up to 1024, also those registered while they run; at_exit refuses more), each with the exit code, and ends with it; die, todo!, unreachable!, not_implemented! and failing assertions write exactly their message (with file, line and function) to the error stream and exit likewise; panic writes its message and ends with code 2 without handlers. assert!/assert_false! act exactly when enabled and their condition is false (true), assert::enable, disable and status switch and tell. For every status, exited, signaled, stopped, exit_status, term_sig and stop_sig are what the system's macros say; fork, kill and waitpid see every exit code and signal; signum_str names every signal as its constant, and the SIG and CLONE constants have the values of the system.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences of 32 operations up to length 3 (thorough 4); all 65536 wait statuses; real children for all 256 exit codes and all terminating signals; all constants"),
    why_tests_cant="Statuses and histories of handlers are too many for examples; the tests end in one way.",
    anchors=dict(files=["src/std/process.csp", "src/std/assert.csp"], mechanism="std::process::*, std::assert::*, todo!/unreachable!/not_implemented!/assert! macros"),
    technique="exhaustive exploration of operation sequences on the compiled library (system calls replaced by recording stand-ins), exhaustive enumeration of wait statuses, and real child processes", level="exploration",
    level_note="Real compiled code. exit and write are stand-ins in the first part only; in the second part real children end. Bounds: depth 3/4 of the histories.")


def run(chk, repo):
    # line numbers in the compiled file: harness puts one line in front
    lines = {}
    for i, l in enumerate(BODY.split("\n")):
        if l.startswith("fn "):
            lines[l.split("(")[0][3:]] = i + 2
    d = "".join("#define %s %d\n" % (n, i) for i, n in enumerate(REG)) + "".join("#define LINE_%s %d\n" % x for x in lines.items())
    seq.explore(chk, repo, "process", BODY, list(REG.values()), d + "#define ASSERTNO 136\n" + MODEL, 4 if chk.thorough else 3)
    csp = 'import "process.csp";\n' + "".join("fn k%d(): i64 = (std::process::%s: i64);\n" % (i, c) for i, c in enumerate(CONSTS))
    regs = list(REG.values())
    cs = ",".join('{"%s",(i32)%s}' % (c, CLONE.get(c, SIG.get(c, c)) if c != "CLONE_DETACHED" else "0x400000") for c in CONSTS)
    sg = ",".join('{"%s",%s}' % (c, SIG.get(c, c)) for c in SIGS)
    drv = "".join("#define %s %d\n" % (n, i) for i, n in enumerate(REG)) + "#define CST %d\n" % len(REG) + DRV2.replace("%(consts)s", cs).replace("%(sigs)s", sg)
    try:
        exe, wd, text = harness.build(repo, BODY + csp, regs + ["k%d" % i for i in range(len(CONSTS))], drv, cflags=["-D_GNU_SOURCE"])
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=120)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("st:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot)
        chk.add("distinct_nontrivial", 65536)
        chk.sample({"decodings_children_constants": tot})
    chk.cov["rule"] = "all sequences of operations up to the depth (states: handler lists and switches), and one evaluation per decoded status, constant and child; 65536 distinct statuses"

