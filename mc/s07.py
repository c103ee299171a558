"""S07 - std::fmt / std::io: formatted text, and that all of it reaches the file descriptor."""
import core
import harness

CSP = '''import "io.csp"; import "fmt.csp"; import "time.csp"; import "error.csp";
fn e_new(kind: i32, msg: &const char): void { std::error::new((kind: std::Errno), msg); }
fn e_clear(): void { std::error::clear(); }
fn e_kind(): i32 { let e = std::error::current(); <- (e.kind: i32); }
fn e_nil(): i32 = (std::Errno::NILPTR: i32);
fn t_time(f: &const char): &char = std::fmt::time(f, std::time::get());
fn wm_i8(fd: i32, v: i8): void { write!(fd, v); }
fn wm_i16(fd: i32, v: i16): void { write!(fd, v); }
fn wm_i32(fd: i32, v: i32): void { write!(fd, v); }
fn wm_i64(fd: i32, v: i64): void { write!(fd, v); }
fn wm_u8(fd: i32, v: u8): void { write!(fd, v); }
fn wm_u16(fd: i32, v: u16): void { write!(fd, v); }
fn wm_u32(fd: i32, v: u32): void { write!(fd, v); }
fn wm_u64(fd: i32, v: u64): void { write!(fd, v); }
fn wm_s(fd: i32, v: &char): void { write!(fd, v); }
fn wm_cs(fd: i32, v: &const char): void { write!(fd, v); }
fn wm_p(fd: i32, v: &i32): void { write!(fd, v); }
'''
NAMES = {"FMT": "std::fmt::format", "F32": "std::c_str::from_f32", "F64": "std::c_str::from_f64", "ENEW": "e_new", "ECLR": "e_clear", "EKIND": "e_kind", "ENIL": "e_nil", "ESTR": "std::error::str", "TIME": "t_time", "FREE": "std::memory::free",
         "WRITE": "std::syscall::write", "READ": "std::syscall::read", "PRINTF": "std::io::printf", "EPRINTF": "std::io::eprintf", "FPRINTF": "std::io::fprintf", "PUTS": "std::io::puts", "EPUTS": "std::io::eputs",
         "FPUTS": "std::io::fputs", "PUTC": "std::io::putc", "EPUTC": "std::io::eputc", "FPUTC": "std::io::fputc", "IWRITE": "std::io::write", "WRITELN": "std::io::writeln", "WINT": "std::io::write_int", "WUINT": "std::io::write_uint",
         "WPTR": "std::io::write_ptr", "NEWLINE": "std::io::newline", "GETC": "std::io::getc", "FGETC": "std::io::fgetc", "GETTIME": "std::syscall::clock_gettime",
         "WM8": "wm_i8", "WM16": "wm_i16", "WM32": "wm_i32", "WM64": "wm_i64", "WMU8": "wm_u8", "WMU16": "wm_u16", "WMU32": "wm_u32", "WMU64": "wm_u64", "WMS": "wm_s", "WMCS": "wm_cs", "WMP": "wm_p"}
# optional functions: tried only when the tree has them
DRV = r'''
#include <time.h>
#include <sys/wait.h>
static i64 NOW=1709208059;
static i32 fake_gettime(i32 clk,i64*ts){ ts[0]=NOW; ts[1]=5; return 0; }
/* the recording stand-in for write(2): accepts at most WMAX bytes at a time and fails at call number WFAIL */
static char OUT[3][1<<16]; static int ON[3]; static int WMAX, WFAIL, WCALLS, WBAD;
static i64 fake_write(i32 fd,const char*b,u64 n){ int c=WCALLS++; if(c==WFAIL) return -5; if(fd<0||fd>2){ WBAD=1; return -9; } if(n>60000){ WBAD=2; return -22; } if(WMAX&&n>WMAX) n=WMAX; if(ON[fd]+n>sizeof OUT[0]){ WBAD=3; return -28; } memcpy(OUT[fd]+ON[fd],b,n); ON[fd]+=n; return n; }
static const u8*RB; static int RN, RERR; static int RFD;
static i64 fake_read(i32 fd,char*b,u64 n){ RFD=fd; if(RERR) return RERR; if(RN<n) n=RN; memcpy(b,RB,n); RB+=n; RN-=n; return n; }
static u64 EV,BADN,PROG; static u64 HS[1<<16], HN; static void see(const char*s){ u64 h=1469598103934665603ULL; for(;*s;s++) h=(h^(u8)*s)*1099511628211ULL; u64 i=h>>48; if(HS[i]!=h){ HS[i]=h; HN++; } }
static void no(const char*f,...){ if(BADN++>8) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
/* texts directly in front of an inaccessible page */
static char *PG[12]; static char *put(int k,const char*s){ if(!PG[k]){ PG[k]=mmap(0,8192,3,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(PG[k]+4096,4096,0); } size_t n=strlen(s)+1; char*p=PG[k]+4096-n; memcpy(p,s,n); return p; }
/* call a variadic function as the System V ABI says: the variable arguments in order, ints and floats in their registers while there are any */
struct args { u64 gp[6]; double fp[8]; u64 st[64]; int ng, nf, ns; };
static void a_int(struct args*a,u64 v){ if(a->ng<6) a->gp[a->ng++]=v; else a->st[a->ns++]=v; }
static void a_dbl(struct args*a,double v){ if(a->nf<8) a->fp[a->nf++]=v; else { memcpy(&a->st[a->ns++],&v,8); } }
u64 vcall(void*fn,struct args*a);
__asm__(".text\n.globl vcall\nvcall: push %rbp\n mov %rsp,%rbp\n push %rbx\n push %r12\n mov %rsi,%r12\n mov %rdi,%r11\n movslq 632(%r12),%rcx\n lea 112(%r12),%rdx\n test $1,%rcx\n je 1f\n sub $8,%rsp\n"
 "1: test %rcx,%rcx\n je 2f\n pushq -8(%rdx,%rcx,8)\n dec %rcx\n jmp 1b\n"
 "2: movsd 48(%r12),%xmm0\n movsd 56(%r12),%xmm1\n movsd 64(%r12),%xmm2\n movsd 72(%r12),%xmm3\n movsd 80(%r12),%xmm4\n movsd 88(%r12),%xmm5\n movsd 96(%r12),%xmm6\n movsd 104(%r12),%xmm7\n"
 "mov (%r12),%rdi\n mov 8(%r12),%rsi\n mov 16(%r12),%rdx\n mov 24(%r12),%rcx\n mov 32(%r12),%r8\n mov 40(%r12),%r9\n mov $8,%eax\n call *%r11\n lea -16(%rbp),%rsp\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
_Static_assert(__builtin_offsetof(struct args,ns)==632&&__builtin_offsetof(struct args,st)==112,"layout");
static void *APG[4];
static const char *TOK[]={"a","%%","%i","%u","%U","%l","%o","%x","%b","%f","%d","%p","%c","%C","%s","%S","%n","%e","%E","%t","%q","\xc3\xa4 %","%"};
enum {T_A,T_PC,T_I,T_U,T_UL,T_L,T_O,T_X,T_B,T_F,T_D,T_P,T_C,T_CL,T_S,T_SL,T_N,T_E,T_EC,T_T,T_Q,T_SP,T_END,NT};
static i32 VI[]={0,-1,2147483647,-2147483647-1,42}; static u32 VU[]={0,4294967295u,2147483648u,7,1234567}; static u64 VUL[]={0,18446744073709551615ull,9223372036854775808ull,7,12345678901ull};
static i64 VL[]={0,-1,9223372036854775807ll,-9223372036854775807ll-1,-1234567890123ll}; static f32 VF[]={0,-1.5f,3.25f,100.125f,-0.75f}; static f64 VD[]={0,-1.5,3.25,1e9+0.5,-0.001};
static u8 VC[]={'x','\n','%','\t',0xe4}; static u8 VCL[]={'x','\n','\r','\t',0xe4}; static char*VS[5]={"hello","",0,"%i%s%n","x"}; static char*VSL[5]={"a\nb\t","",0,"\v\f\r\b\a'","%i"};
static const char*lit(u8 c){ static char b[2]; switch(c){ case 7: return "\\a"; case 8: return "\\b"; case 9: return "\\t"; case 11: return "\\v"; case 10: return "\\n"; case 13: return "\\r"; case 12: return "\\f"; case 39: return "\\'"; } b[0]=c; b[1]=0; return b; }
struct err { i32 kind; char pad[4]; char *msg; }; static struct err VE[5]={{22,{0},"why"},{0,{0},0},{5,{0},0},{9,{0},""},{100,{0},"%s"}}; static int CUR;
static void oct(char*w,i64 v){ sprintf(w,"%llo",(unsigned long long)v); }
static int build(int*s,int n,int rot,char*f,char*w,struct args*a){ *f=0; *w=0; int end=0; char b[400]; int sk=0;
  for(int i=0;i<n;i++){ strcat(f,TOK[s[i]]); int k=(rot+i)%5; b[0]=0; int t=s[i]; if(t==T_SP&&i+1<n) return 0; if(t==T_END&&i+1<n) return 0;
    switch(t){ case T_A: case T_SP: case T_END: strcpy(b,TOK[t]); break; case T_PC: strcpy(b,"%"); break;
     case T_I: a_int(a,(u32)VI[k]|(rot&1?0xdeadbeef00000000ull:0)); sprintf(b,"%d",VI[k]); break; case T_U: a_int(a,VU[k]|(rot&1?0xdeadbeef00000000ull:0)); sprintf(b,"%u",VU[k]); break;
     case T_UL: a_int(a,VUL[k]); sprintf(b,"%llu",(unsigned long long)VUL[k]); break; case T_L: a_int(a,VL[k]); sprintf(b,"%lld",(long long)VL[k]); break;
     case T_O: a_int(a,VL[k]); oct(b,VL[k]); break; case T_X: a_int(a,VUL[k]); sprintf(b,"%llx",(unsigned long long)VUL[k]); break;
     case T_B: a_int(a,k&1); strcpy(b,k&1?"true":"false"); break;
     case T_F: { double d=0; memcpy(&d,&VF[k],4); a_dbl(a,d); ((void(*)(f32,i32,char*))F[F32])(VF[k],10,b); } break; case T_D: a_dbl(a,VD[k]); ((void(*)(f64,i32,char*))F[F64])(VD[k],20,b); break;
     case T_P: a_int(a,VUL[k]); sprintf(b,"0x%llx",(unsigned long long)VUL[k]); break; case T_C: a_int(a,VC[k]); b[0]=VC[k]; b[1]=0; break; case T_CL: a_int(a,VCL[k]); strcpy(b,lit(VCL[k])); break;
     case T_S: a_int(a,(u64)VS[k]); strcpy(b,VS[k]?VS[k]:"(nil)"); break; case T_SL: a_int(a,(u64)VSL[k]); if(!VSL[k]) strcpy(b,"(nil)"); else for(char*p=VSL[k];*p;p++) strcat(b,lit(*p)); break;
     case T_N: end=1; break;
     case T_E: a_int(a,(u64)&VE[k]); sprintf(b,"%s%s%s",((char*(*)(i32))F[ESTR])(VE[k].kind),VE[k].msg?": ":"",VE[k].msg?VE[k].msg:""); break;
     case T_EC: sprintf(b,"%s%s%s",((char*(*)(i32))F[ESTR])(VE[CUR].kind),VE[CUR].kind&&VE[CUR].msg?": ":"",VE[CUR].kind&&VE[CUR].msg?VE[CUR].msg:""); break;
     case T_T: { struct tm m; time_t tt=NOW; gmtime_r(&tt,&m); if(k==2){ a_int(a,0); strcpy(b,"(nil)"); } else { a_int(a,(u64)put(11,"%Y-%M-%D %h:%m:%s%%")); sprintf(b,"%d-%02d-%02d %02d:%02d:%02d%%",m.tm_year+1900,m.tm_mon+1,m.tm_mday,m.tm_hour,m.tm_min,m.tm_sec); } } break;
     case T_Q: strcpy(b,"%q"); break; }
    if(end) continue; strcat(w,b); }
  if(end) *w=0; return 1; }
static void pr(const char*f){ char q[300]; int j=0; for(;*f&&j<280;f++) j+=sprintf(q+j,*f<32||*f>126?"\\x%02x":"%c",(u8)*f); q[j]=0; printf("%s",q); }
static char QB[4][500]; static int QI; static const char*q(const char*f){ char*q=QB[QI=(QI+1)&3]; int j=0; for(;*f&&j<480;f++) j+=sprintf(q+j,*f<32||*f>126?"\\x%02x":"%c",(u8)*f); q[j]=0; return q; }
static void fmt(int*s,int n,int rot){ static char f[600],w[8000]; struct args a; memset(&a,0,sizeof a); a.ng=1; g_reset(); CUR=rot%5; ((void(*)(i32,char*))F[ENEW])(VE[CUR].kind,VE[CUR].msg); if(!build(s,n,rot,f,w,&a)) return; char*g=put(0,f); a.gp[0]=(u64)g; EV++; char*volatile r=0;
  TRYQ(r=(char*)vcall(F[FMT],&a)); if(SIG||!r||strcmp(r,w)) { no("format(\"%s\", ...) with argument set %d is \"%s\" instead of \"%s\"",q(f),rot,SIG?"(trap)":r?q(r):"(nil)",q(w)); return; } see(w);
  int live=GLIVE; volatile int ok=1; TRYQ(((void(*)(void*))F[FREE])(r)); if(SIG) no("the result of format(\"%s\") cannot be freed",q(f)); }
/* output functions */
static int OFD; static const char*WHAT; static char WANT[3][1<<16]; static int WN[3];
static void reset_io(int max,int fail){ ON[0]=ON[1]=ON[2]=0; WN[0]=WN[1]=WN[2]=0; WMAX=max; WFAIL=fail; WCALLS=0; WBAD=0; }
static void want(int fd,const char*s,int n){ memcpy(WANT[fd]+WN[fd],s,n); WN[fd]+=n; }
static void verdict(int max,int fail){ EV++; if(SIG){ no("%s traps or does not end (short writes of %d bytes, failing write %d)",WHAT,max,fail); return; } if(WBAD){ no("%s calls write with wrong arguments (%d)",WHAT,WBAD); return; }
  for(int fd=0;fd<3;fd++){ int ok; if(fail<0) ok=ON[fd]==WN[fd]&&!memcmp(OUT[fd],WANT[fd],ON[fd]); else { int i=0; for(int k=0;k<WN[fd]&&i<ON[fd];k++) if(OUT[fd][i]==WANT[fd][k]) i++; ok=i==ON[fd]; } /* after a failure: some part of the text */ if(!ok) { OUT[fd][ON[fd]<200?ON[fd]:200]=0; WANT[fd][WN[fd]<200?WN[fd]:200]=0; no("%s writes \"%s\" (%d bytes) instead of \"%s\" (%d bytes) to %d (at most %d bytes per write)",WHAT,q(OUT[fd]),ON[fd],q(WANT[fd]),WN[fd],fd,max); return; } } }
#define OUTP(fd,text,n,call) do{ reset_io(m,fl); want(fd,text,n); TRY(5,call); verdict(m,fl); }while(0)
typedef void (*s_fn)(const char*); typedef void(*c_fn)(i32); typedef void(*sf_fn)(const char*,i32); typedef void(*cf_fn)(i32,i32); typedef void(*fs_fn)(i32,const char*); typedef void(*fi_fn)(i32,i64);
static void outputs(int m,int fl){ char b[80]; static char big[5000]; memset(big,'b',4999); big[4999]=0; static char w[6000]; const char*T[]={"","x","hello world","line\n","\xc3\xa4%s",big};
  for(int k=0;k<6;k++){ char*s=k==5?big:put(1,T[k]); int n=strlen(s); sprintf(w,"%s\n",s); char nm[60];
    for(int fd=0;fd<3;fd++){ WHAT="fputs"; OUTP(fd,w,n+1,((sf_fn)F[FPUTS])(s,fd)); WHAT="write"; OUTP(fd,s,n,((fs_fn)F[IWRITE])(fd,s)); WHAT="writeln"; OUTP(fd,w,n+1,((fs_fn)F[WRITELN])(fd,s)); WHAT="write! of a &char"; OUTP(fd,s,n,((fs_fn)F[WMS])(fd,s)); WHAT="write! of a &const char"; OUTP(fd,s,n,((fs_fn)F[WMCS])(fd,s)); }
    WHAT="puts"; OUTP(1,w,n+1,((s_fn)F[PUTS])(s)); WHAT="eputs"; OUTP(2,w,n+1,((s_fn)F[EPUTS])(s));
    for(int z=0;z<3;z++){ struct args a; memset(&a,0,sizeof a); int p=0; if(z==2) a.gp[p++]=2; a.gp[p++]=(u64)put(2,"<%s|%i>"); a.gp[p++]=(u64)s; a.gp[p++]=-5; a.ng=p; int l=sprintf(w,"<%s|-5>",s); volatile i32 r=0; WHAT=z==0?"printf":z==1?"eprintf":"fprintf"; g_reset(); OUTP(z==0?1:2,w,l,r=vcall(F[z==0?PRINTF:z==1?EPRINTF:FPRINTF],&a)); if(!SIG&&r!=0) no("%s returns %d",WHAT,r); } }
  if(m==0||m==1) for(int c=1;c<256;c++){ b[0]=c; WHAT="putc"; OUTP(1,b,1,((c_fn)F[PUTC])(c)); WHAT="eputc"; OUTP(2,b,1,((c_fn)F[EPUTC])(c)); WHAT="fputc"; OUTP(0,b,1,((cf_fn)F[FPUTC])(c,0)); }
  WHAT="newline"; OUTP(1,"\n",1,((void(*)(void))F[NEWLINE])());
  i64 V[]={0,1,-1,9,10,-10,99,127,128,255,256,-128,32767,-32768,65535,2147483647,-2147483648ll,4294967295ll,1ll<<40,9223372036854775807ll,-9223372036854775807ll-1};
  for(int i=0;i<N(V);i++) for(int fd=0;fd<3;fd++){ i64 v=V[i]; int n;
#define ONE(fn,nm,f,c) n=sprintf(b,f,c); WHAT=nm; OUTP(fd,b,n,((fi_fn)F[fn])(fd,v))
    ONE(WINT,"write_int","%lld",(long long)v); ONE(WUINT,"write_uint","%llu",(unsigned long long)v); ONE(WPTR,"write_ptr","0x%llx",(unsigned long long)v); ONE(WMP,"write! of a pointer","0x%llx",(unsigned long long)v);
    ONE(WM8,"write! of an i8","%d",(i8)v); ONE(WM16,"write! of an i16","%d",(i16)v); ONE(WM32,"write! of an i32","%d",(i32)v); ONE(WM64,"write! of an i64","%lld",(long long)v);
    ONE(WMU8,"write! of an u8","%u",(u8)v); ONE(WMU16,"write! of an u16","%u",(u16)v); ONE(WMU32,"write! of an u32","%u",(u32)v); ONE(WMU64,"write! of an u64","%llu",(unsigned long long)v); } }
int main(int argc,char**argv){ int deep=atoi(argv[1]); traps(); csp_main(); g_start(GIDX); g_patch(F[WRITE],fake_write); g_patch(F[READ],fake_read); g_patch(F[GETTIME],fake_gettime);
  { char*volatile r=0; EV++; ((void(*)(void))F[ECLR])(); TRYQ(r=((char*(*)(const char*,...))F[FMT])(0)); if(SIG||!r||*r||((i32(*)(void))F[EKIND])()!=((i32(*)(void))F[ENIL])()) no("fmt::format(nil) does not set the error NILPTR and give an empty string"); ((void(*)(void))F[ECLR])(); }
  for(int k=0;k<5;k++){ if(VS[k]) VS[k]=put(3+k,VS[k]); }
  for(int w=0;w<8;w++){ fflush(stdout); if(fork()) continue; int s[64]; int c=0; GBASE=0; GUSED=0;
    for(int n=1;n<=3+deep;n++){ long tot=1; for(int i=0;i<n;i++) tot*=NT; for(long v=0;v<tot;v++){ if(v%8!=w) continue; long x=v; for(int i=0;i<n;i++){ s[i]=x%NT; x/=NT; } for(int rot=0;rot<(n==1?10:n==2?5:n==3?2:1);rot++) fmt(s,n,n==3?v+rot:rot); } }
    /* long argument lists: two kinds alternating with every period, so that each register file overflows before the other */
    if(1) for(int a=T_I;a<=T_SL;a++) for(int b=T_I;b<=T_SL;b++) for(int n=4;n<=26;n++) for(int per=1;per<=13;per++) if((a*31+b*7+n+per)%8==w) { for(int i=0;i<n;i++) s[i]=(i/per)&1?b:a; fmt(s,n,(a+b+n)%5); }
    printf("PART %llu %llu\n",(unsigned long long)EV,(unsigned long long)HN); fflush(stdout); _exit(0); }
  int st; while(wait(&st)>0) if(st) no("a worker died (%x)",st);
  int MX[]={0,1,2,3,7,4096}; for(int i=0;i<6;i++) outputs(MX[i],-1); for(int fl=0;fl<6;fl++) for(int i=0;i<4;i++) outputs(MX[i],fl);
  for(int c=0;c<256;c++) for(int e=0;e<3;e++) for(int fd=-1;fd<4;fd++){ u8 x[1]={c}; RB=x; RN=e==0; RERR=e==2?-5:0; volatile int g=-1; EV++; TRY(5,g=fd<0?((u8(*)(void))F[GETC])():((u8(*)(i32))F[FGETC])(fd)); if(SIG||g!=(e==0?c:0)||RFD!=(fd<0?0:fd)) no("%s of the byte %d%s is %d (from %d)",fd<0?"getc":"fgetc",c,e==0?"":e==1?" at the end of the file":" with a failing read",g,RFD); }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S07", title="Formatted and plain output is exactly the text asked for, on the right file",
    statement="fmt::format yields, for every format string and argument list, the text its documentation describes: %% %i %u %U %l %o %x %b %f %d %p %c %C %s %S %n %e %E %t insert the argument of their type (integers of any value; floats with 10 and 20 digits; nil strings as (nil)), in order and however many arguments there are, every other character including an unknown or trailing % is copied, and nothing outside the strings is read. printf/eprintf/fprintf, puts/eputs/fputs, putc/eputc/fputc, write/writeln/write_int/newline and write! send exactly their text to exactly the right file descriptor, also if the system accepts only a few bytes at a time, and end if a write fails; getc/fgetc return the byte read and '\\0' at the end of the file.",
    quantifier=dict(over=["inputs", "fault_sequences"], text="all format strings of up to 3 (thorough: 4) of 23 tokens with rotating boundary arguments, argument lists of 4..26 arguments of every two kinds in every alternation, every output function with every limit on the bytes per write and every failing write call"),
    why_tests_cant="The tests compare a few printed lines; particular conversions next to each other, boundary values, arguments beyond the registers, and short or failing writes never occur in them.",
    anchors=dict(files=["src/std/fmt.csp", "src/std/io.csp", "src/std/utils.csp", "src/std/error.csp"], mechanism="va_format / __internal::fmt / va_arg!; write loop; write! macro"),
    technique="exhaustive enumeration of format strings, argument lists and write outcomes against the C library, on the compiled library with system calls replaced by recording stand-ins", level="exploration",
    level_note="Arguments are laid out by the driver as the System V ABI says; %f and %d are compared with c_str::from_f32/from_f64, which S03 covers. Numbers above the range of those two functions are not included.")


def run(chk, repo):
    regs = list(NAMES.values()) + harness.GUARD_REGS
    d = harness.GUARD_C + "#define GIDX %d\n" % (len(regs) - 2) + "".join("#define %s %d\n" % (n, i) for i, n in enumerate(NAMES)) + DRV
    try:
        exe, wd, text = harness.build(repo, CSP, regs, d)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=850, args=("1" if chk.thorough else "0",))
    tot, part, dist = None, 0, 0
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("out:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
            dist += int(line.split()[2])
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot + part)
        chk.add("distinct_nontrivial", dist)
        chk.sample({"format_calls": part, "output_calls_and_faults": tot})
    chk.cov["rule"] = "one evaluation per (format string, arguments) and per (output call, write behaviour); distinct_nontrivial counts distinct formatted texts (hash buckets)"
