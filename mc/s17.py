"""S17 - std::flags and std::args: command lines."""
import core
import harness

CSP = '''import "flags.csp"; import "error.csp";
extern "C" fn h_def(): void; extern "C" fn h_def2(): void; extern "C" fn h_str(s: &const char): void; extern "C" fn h_bool(b: bool): void; extern "C" fn h_int(i: i64): void;
fn c_def() h_def(); fn c_def2() h_def2(); fn c_str_(s: &const char) h_str(s); fn c_bool(b: bool) h_bool(b); fn c_int(i: i64) h_int(i);
fn p_full(argv: &&char, argc: i32): i32 {
    using std;
    let list = [ flag::new("--d", "the default", c_def), flag::new_str("--s", "a string", c_str_), flag::new_bool("--b", "a bool", c_bool), flag::help("This is the help"), flag::new_int("--i", "an int", c_int), flag::new("--d", "hidden", c_def2), flag::new("", "empty", c_def2) ];
    let e = flags::parse(list, argv, argc);
    <- e.kind: i32;
}
fn p_one(argv: &&char, argc: i32): i32 {
    using std;
    let list = [ flag::new_int("--i", "an int", c_int) ];
    let e = flags::parse(list, argv, argc);
    <- e.kind: i32;
}
fn p_two(argv: &&char, argc: i32): i32 {
    using std;
    let list = [ flag::help(""), flag::new_bool("--s", "a bool", c_bool) ];
    let e = flags::parse(list, argv, argc);
    <- e.kind: i32;
}
fn p_now(): i32 = std::error::current().kind: i32;
fn p_clear(): void { std::error::clear(); }
'''
NAMES = {"FULL": "p_full", "ONE": "p_one", "TWO": "p_two", "NOW": "p_now", "CLEAR": "p_clear", "SHIFT": "std::args::shift", "WRITE": "std::syscall::write"}

DRV = r'''
#include <sys/wait.h>
static char OUT[3][1<<14]; static int ON[3], WBAD;
static i64 fake_write(i32 fd,const char*b,u64 n){ if(fd<1||fd>2||n>4000||ON[fd]+n>=sizeof OUT[0]){ WBAD=1; return -9; } memcpy(OUT[fd]+ON[fd],b,n); ON[fd]+=n; OUT[fd][ON[fd]]=0; return n; }
static char TR_[2000], WT[2000], W1[4000], W2[4000];
#define TA(...) sprintf(TR_+strlen(TR_),__VA_ARGS__)
void h_def(void){ TA("d,"); } void h_def2(void){ TA("D,"); } void h_str(char*s){ TA("s(%s),",s); } void h_bool(bool b){ TA("b(%d),",b); } void h_int(i64 i){ TA("i(%lld),",(long long)i); }
static u64 EV,BADN,DIST; static void no(const char*f,...){ if(BADN++>5) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static const char*WORD[]={"--d","--s","--b","--i","--help","true","false","12","-70000000000","","--dd"}; enum { NW=11 };
static char *PG[NW];
struct fl { const char*name,*desc; int kind; char h; }; enum { DEF, STR, BOOL, INT, HELP };
static const struct fl L_FULL[]={{"--d","the default",DEF,'d'},{"--s","a string",STR},{"--b","a bool",BOOL},{"--help","This is the help",HELP},{"--i","an int",INT},{"--d","hidden",DEF,'D'},{"","empty",DEF,'D'}}, L_ONE[]={{"--i","an int",INT}}, L_TWO[]={{"--help","",HELP},{"--s","a bool",BOOL}};
#define RED "\x1b[31m"
#define RST "\x1b[0m"
static int model(const struct fl*f,int nf,const char**v,int n){ char*w=WT; *WT=*W1=*W2=0;
#define E2(...) do{ sprintf(W2+strlen(W2),__VA_ARGS__); return 22; }while(0)
  for(int i=1;i<n;i++){ int j=0; while(j<nf&&strcmp(f[j].name,v[i])) j++; if(j==nf) E2(RED "Unexpected argument `%s`." RST "\n",v[i]);
    switch(f[j].kind){ case DEF: w+=sprintf(w,"%c,",f[j].h); break;
      case HELP: if(*f[j].desc) sprintf(W1+strlen(W1),"%s\n",f[j].desc); for(int k=0;k<nf;k++) if(k==j) sprintf(W1+strlen(W1),"  %s:\tDisplays this help text.\n",f[k].name); else sprintf(W1+strlen(W1),"  %s%s:\t%s\n",f[k].name,f[k].kind==STR?" <string>":f[k].kind==BOOL?" [true|false]":f[k].kind==INT?" <integer>":"",f[k].desc); break;
      case STR: if(i+1>=n) E2(RED "Expect <string> after `%s`." RST "\n",v[i]); w+=sprintf(w,"s(%s),",v[++i]); break;
      case BOOL: if(i+1>=n) E2(RED "Expect [true|false] after `%s`." RST "\n",v[i]); i++; if(!strcmp(v[i],"true")) w+=sprintf(w,"b(1),"); else if(!strcmp(v[i],"false")) w+=sprintf(w,"b(0),"); else E2(RED "Expect [true|false] after `%s`, got %s." RST "\n",v[i-1],v[i]); break;
      case INT: if(i+1>=n) E2(RED "Expect <integer> after `%s`." RST "\n",v[i]); i++; w+=sprintf(w,"i(%lld),",atoll(v[i])); break; } }
  return 0; }
static void one(int which,int*s,int n){ const char*v[12]; char*av[12]; char d[300]=""; v[0]="prog"; av[0]="prog"; for(int i=0;i<n;i++){ v[i+1]=WORD[s[i]]; av[i+1]=PG[s[i]]; sprintf(d+strlen(d)," `%s`",v[i+1]); } av[n+1]=(char*)8;
  int skip=0; int w=which==0?model(L_FULL,7,v,n+1):which==1?model(L_ONE,1,v,n+1):model(L_TWO,2,v,n+1);
  *TR_=0; ON[1]=ON[2]=WBAD=0; OUT[1][0]=OUT[2][0]=0; volatile int r=-1, now=-1; g_reset(); ((void(*)(void))F[CLEAR])(); TRY(5,r=((i32(*)(char**,i32))F[FULL+which])(av,n+1); now=((i32(*)(void))F[NOW])()); EV++; const char*nm=which==0?"parse":which==1?"parse (one flag)":"parse (two flags)";
  if(SIG) { no("%s of%s traps or does not end",nm,d); return; } if(r!=w||now!=w) no("%s of%s gives error %d (current %d) instead of %d",nm,d,r,now,w); if(strcmp(TR_,WT)) no("%s of%s calls %s instead of %s",nm,d,TR_,WT); if(WBAD||strcmp(OUT[1],W1)||strcmp(OUT[2],W2)) no("%s of%s writes \"%s\" and \"%s\" instead of \"%s\" and \"%s\"",nm,d,OUT[1],OUT[2],W1,W2); }
int main(int argc,char**argv){ int deep=atoi(argv[1]); traps(); csp_main(); g_start(GIDX); g_patch(F[WRITE],fake_write);
  for(int i=0;i<NW;i++){ PG[i]=mmap(0,8192,3,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(PG[i]+4096,4096,0); int l=strlen(WORD[i])+1; PG[i]=strcpy(PG[i]+4096-l,WORD[i]); }
  for(int w=0;w<8;w++){ fflush(stdout); if(fork()) continue; GBASE=0; GUSED=0; int s[8]; long c=0; for(int n=0;n<=4+deep;n++){ long tot=1; for(int i=0;i<n;i++) tot*=NW; for(long v=0;v<tot;v++){ if(c++%8!=w) continue; long x=v; for(int i=0;i<n;i++){ s[i]=x%NW; x/=NW; } for(int k=0;k<3;k++) if(n<=3||k==0||v%7==k) one(k,s,n); } } printf("PART %llu\n",(unsigned long long)EV); fflush(stdout); _exit(0); }
  int st; while(wait(&st)>0) if(st) no("a worker died (%x)",st);
  for(int n=0;n<=6;n++) for(int start=0;start<=n;start++){ char*a[8]={"a","bb","","d","e","f"}; a[n]=0; i32 c=n-start; char**p=a+start; int k=start; for(int z=0;z<n+3;z++){ char*r=((char*(*)(i32*,char***))F[SHIFT])(&c,&p); EV++; char*w=k<n?a[k]:0; if(r!=w||c!=(k<n?n-k-1:0)||p!=a+(k<n?k+1:n)) { no("shift number %d of %d arguments returns %s and leaves %d",z+1,n-start,r?r:"nil",c); break; } if(k<n) k++; } }
  i32 c=-3; char*a[2]={"x",0}; char**p=a; if(((char*(*)(i32*,char***))F[SHIFT])(&c,&p)||c!=-3||p!=a) no("shift of -3 arguments is not nil");
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S17", title="std::flags acts on exactly the flags given; args::shift takes arguments in order",
    statement="flags::parse goes through the arguments after the first in order and, for each one equal to the name of a flag (the first of that name), calls its function: without a value for flag::new, with the following argument for new_str, as a bool for new_bool (true or false), as a 64-bit integer for new_int; help prints its text and one line for each flag. It returns no error if all arguments are consumed so, and otherwise writes the message for the first argument that is unknown, lacks its value or has no valid one, and returns (and sets) an INVAL error without looking at later ones. args::shift returns the first of the remaining arguments and removes it, and nil without a change if there is none.",
    quantifier=dict(over=["inputs"], text="all argument lists of up to 4 (thorough 5) of 11 words over three lists of flags; all shift histories of up to 6 arguments"),
    why_tests_cant="No test uses flags at all; lists in which one flag's value looks like another flag are many.",
    anchors=dict(files=["src/std/flags.csp"], mechanism="std::flag::*, std::flags::parse, __internal::handle_help, std::args::shift"),
    technique="exhaustive enumeration of argument lists on the compiled library against a model of calls, output and errors", level="exploration",
    level_note="Real compiled code; write is a stand-in which collects the text. Integer values are those c_str::to_i64 handles (S03).")


def run(chk, repo):
    regs = list(NAMES.values()) + harness.GUARD_REGS
    d = harness.GUARD_C + "#define GIDX %d\n" % (len(regs) - 2) + "".join("#define %s %d\n" % (n, i) for i, n in enumerate(NAMES)) + DRV
    try:
        exe, wd, text = harness.build(repo, CSP, regs, d)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=600, args=("1" if chk.thorough else "0",))
    tot, part = None, 0
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("out:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot + part)
        chk.add("distinct_nontrivial", tot + part)
        chk.sample({"argument_lists": part, "shifts": tot})
    chk.cov["rule"] = "one evaluation per argument list and list of flags, all different"
