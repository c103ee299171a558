"""S03 - std::c_str and std::character against the C library, on all short strings."""
import core
import harness

CSP = '''import "c_str.csp"; import "character.csp";
'''
FN = "strlen strnlen strcpy strncpy strcat strncat strcmp strncmp strstr strsep strspn strcspn strchr strrchr strpbrk strtok memchr rawmemchr reverse from_int from_uint from_bool to_i32 to_i64 from_f32 from_f64 copy".split()
CH = "isalnum isalpha isascii isblank isdigit isgraph islower isprint ispunct isspace isupper toascii tolower toupper isncntrl".split()

DRV = r'''
#include <sys/mman.h>
#include <sys/wait.h>
#include <ctype.h>
#include <strings.h>
#include <math.h>
static char MSG[1000]; static int nbad; static u64 evals, distinct;
static u64 SEEN[1<<16];
static void see(u64 h){ h*=0x9E3779B97F4A7C15ULL; if(!SEEN[h>>48]){SEEN[h>>48]=1; distinct++;} }
static const char *CURF; static char CURA[400];
static void bad(const char *f, ...){ if(nbad++>6) return; va_list a; va_start(a,f); printf("BAD %s|%s|",CURF,CURA); vprintf(f,a); printf("\n"); fflush(stdout); }
#define ARGS(...) snprintf(CURA,sizeof CURA,__VA_ARGS__)
/* two pages each followed by an inaccessible one: texts are placed directly in front of it */
static char *PG[4];
static char *mkpage(void){ char*p=mmap(0,8192,3,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(p+4096,4096,0); return p; }
static char *put(int k,const char*s){ size_t n=strlen(s)+1; char*p=PG[k]+4096-n; p[-1]='#'; p[-2]=0; memcpy(p,s,n); return p; }
static char *buf(int k,size_t n,int fill){ char*p=PG[k]+4096-n; memset(PG[k]+4000,0x5a,96); memset(p,fill,n); return p; }
static int intact(int k,size_t n){ for(char*p=PG[k]+4000;p<PG[k]+4096-n;p++) if(*p!=0x5a) return 0; return 1; }
static char *STR[100000]; static int NS;
static void gen(const char*al,int max){ int n=strlen(al); for(int L=0;L<=max;L++){ long tot=1; for(int i=0;i<L;i++)tot*=n; for(long v=0;v<tot;v++){ char*s=malloc(L+1); long w=v; for(int i=0;i<L;i++){s[i]=al[w%n];w/=n;} s[L]=0; STR[NS++]=s; } } }
static const char *esc(const char*s){ static char b[4][120]; static int k; char*o=b[k=(k+1)&3]; int j=0; for(;*s&&j<110;s++) if(*s<32||*s>126) j+=sprintf(o+j,"\\x%02x",(u8)*s); else o[j++]=*s; o[j]=0; return o; }
static int sg(long x){ return x>0?1:x<0?-1:0; }
#define CALL(ix,fn,x) do{ CURF=fn; evals++; TRYQ(x); if(SIG) bad("signal %d",SIG); }while(0)
typedef u64(*f_len)(const char*); typedef u64(*f_nlen)(const char*,u64); typedef void(*f_cpy)(char*,const char*); typedef char*(*f_ncpy)(char*,const char*,u64); typedef char*(*f_cat)(char*,const char*);
typedef i32(*f_cmp)(const char*,const char*); typedef i32(*f_ncmp)(const char*,const char*,u64); typedef char*(*f_ss)(const char*,const char*); typedef char*(*f_sep)(char**,const char*); typedef u64(*f_spn)(const char*,const char*);
typedef char*(*f_chr)(const char*,i32); typedef char*(*f_mchr)(const char*,i32,u64); typedef char*(*f_rev)(char*); typedef char*(*f_fi)(i64,char*,i32); typedef char*(*f_fb)(bool,char*); typedef i32(*f_t32)(const char*); typedef i64(*f_t64)(const char*); typedef void(*f_ff)(f32,i32,char*); typedef void(*f_fd)(f64,i32,char*);
static void one(const char*s0){ char*s=put(0,s0); size_t n=strlen(s0); u64 r; char*p;
 ARGS("\"%s\"",esc(s0));
 CALL(0,"strlen",{ r=((f_len)F[0])(s); if(r!=n) bad("%llu",(unsigned long long)r); see(r*3+1); });
 for(u64 k=0;k<=n+2;k++){ ARGS("\"%s\", %d",esc(s0),(int)k); CALL(1,"strnlen",{ r=((f_nlen)F[1])(s,k); if(r!=strnlen(s0,k)) bad("%llu instead of %d",(unsigned long long)r,(int)strnlen(s0,k)); see(r*5+2); });
   char*d=buf(1,n+4,'Z'); char ex[64]; memset(ex,'Z',64); strncpy(ex,s0,k); CALL(3,"strncpy",{ p=((f_ncpy)F[3])(d,s,k); if(p!=d||memcmp(d,ex,n+4)||!intact(1,n+4)) bad("wrote \"%.*s\"",(int)n+4,d); }); }
 { char*d=buf(1,n+1,'Z'); ARGS("\"%s\"",esc(s0)); CALL(2,"strcpy",{ ((f_cpy)F[2])(d,s); if(memcmp(d,s0,n+1)||!intact(1,n+1)) bad("wrote \"%.*s\"",(int)n+1,d); });
   d=buf(1,n+1,'Z'); CALL(26,"copy",{ ((f_cpy)F[26])(d,s); if(memcmp(d,s0,n+1)||!intact(1,n+1)) bad("wrote \"%.*s\"",(int)n+1,d); }); }
 { char*d=put(1,s0); char ex[64]; for(int i=0;i<n;i++) ex[i]=s0[n-1-i]; ex[n]=0; CALL(18,"reverse",{ p=((f_rev)F[18])(d); if(p!=d||strcmp(d,ex)) bad("\"%s\"",esc(d)); }); }
 for(int c=-1;c<=256;c++){ if(c>3&&c<125&&!strchr("abcxAZ09-+ ,.",c)) continue; if(c>130&&c<254&&c!=0xe1) continue; ARGS("\"%s\", %d",esc(s0),c);
   CALL(12,"strchr",{ p=((f_chr)F[12])(s,c); char*e=strchr(s,c); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,e?(long)(e-s):-1L); see(p?p-s:99); });
   CALL(13,"strrchr",{ p=((f_chr)F[13])(s,c); char*e=strrchr(s,c); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,e?(long)(e-s):-1L); });
   CALL(17,"rawmemchr",{ if(strchr(s,c)){ p=((f_chr)F[17])(s,c); char*e=strchr(s,c); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,(long)(e-s)); } });
   for(u64 k=0;k<=n+1;k++){ ARGS("\"%s\", %d, %d",esc(s0),c,(int)k); CALL(16,"memchr",{ p=((f_mchr)F[16])(s,c,k); char*e=memchr(s,c,k); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,e?(long)(e-s):-1L); }); } }
}
static void two(const char*s0,const char*t0){ char*s=put(0,s0),*t=put(2,t0); size_t n=strlen(s0),m=strlen(t0); char*p; u64 r; i32 c;
 ARGS("\"%s\", \"%s\"",esc(s0),esc(t0));
 CALL(6,"strcmp",{ c=((f_cmp)F[6])(s,t); if(sg(c)!=sg(strcmp(s,t))) bad("%d",c); see(sg(c)+7); });
 for(u64 k=0;k<=m+1;k++){ ARGS("\"%s\", \"%s\", %d",esc(s0),esc(t0),(int)k); CALL(7,"strncmp",{ c=((f_ncmp)F[7])(s,t,k); if(sg(c)!=sg(strncmp(s,t,k))) bad("%d",c); });
   char*d=buf(1,n+m+2,'Z'); strcpy(d,s0); char ex[64]; memset(ex,'Z',64); strcpy(ex,s0); strncat(ex,t0,k); CALL(5,"strncat",{ p=((f_ncpy)F[5])(d,t,k); if(p!=d||memcmp(d,ex,strlen(ex)+1)||!intact(1,n+m+2)||d[n+m+1]!='Z') bad("\"%s\"",esc(d)); }); }
 ARGS("\"%s\", \"%s\"",esc(s0),esc(t0));
 { char*d=buf(1,n+m+1,'Z'); strcpy(d,s0); char ex[64]; strcpy(ex,s0); strcat(ex,t0); CALL(4,"strcat",{ p=((f_cat)F[4])(d,t); if(p!=d||strcmp(d,ex)||!intact(1,n+m+1)) bad("\"%s\"",esc(d)); }); }
 CALL(8,"strstr",{ p=((f_ss)F[8])(s,t); char*e=strstr(s,t); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,e?(long)(e-s):-1L); see(p?p-s+100:199); });
 CALL(10,"strspn",{ r=((f_spn)F[10])(s,t); if(r!=strspn(s,t)) bad("%llu instead of %d",(unsigned long long)r,(int)strspn(s,t)); see(r+200); });
 CALL(11,"strcspn",{ r=((f_spn)F[11])(s,t); if(r!=strcspn(s,t)) bad("%llu instead of %d",(unsigned long long)r,(int)strcspn(s,t)); see(r+300); });
 CALL(14,"strpbrk",{ p=((f_ss)F[14])(s,t); char*e=strpbrk(s,t); if(p!=e) bad("%ld instead of %ld",p?(long)(p-s):-1L,e?(long)(e-s):-1L); });
 /* histories of strsep and strtok: until nothing is left */
 { char*a=put(1,s0),b[64]; strcpy(b,s0); char*ap=a,*bp=b; CALL(9,"strsep",{ for(int i=0;i<10;i++){ char*x=((f_sep)F[9])(&ap,t); char*y=strsep(&bp,t); if((!x)!=(!y)||(x&&(x-a!=y-b||strcmp(x,y)))||(!ap)!=(!bp)||(ap&&ap-a!=bp-b)){ bad("call %d: \"%s\" instead of \"%s\"",i+1,x?esc(x):"nil",y?esc(y):"nil"); break; } if(!y) break; } }); }
 { char*a=put(1,s0),b[64]; strcpy(b,s0); CALL(15,"strtok",{ char*sv; for(int i=0;i<10;i++){ char*x=((f_ss)F[15])(i?0:a,t); char*y=strtok_r(i?0:b,t,&sv); if((!x)!=(!y)||(x&&(x-a!=y-b||strcmp(x,y)))){ bad("call %d: \"%s\" instead of \"%s\"",i+1,x?esc(x):"nil",y?esc(y):"nil"); break; } if(!y) break; } }); }
}
static void num(i64 v){ char ex[100],*d,*p; size_t n;
 for(int base=2;base<=36;base++){ u64 u=v; char t[80]; int i=0,neg=0; 
   /* unsigned */ do{ t[i++]="0123456789abcdefghijklmnopqrstuvwxyz"[u%base]; u/=base; }while(u); for(int k=0;k<i;k++) ex[k]=t[i-1-k]; ex[i]=0; n=i;
   ARGS("%llu, base %d",(unsigned long long)v,base); d=buf(1,n+1,'Z'); CALL(20,"from_uint",{ p=((f_fi)F[20])(v,d,base); if(p!=d||strcmp(d,ex)||!intact(1,n+1)) bad("\"%s\" instead of \"%s\"",esc(d),ex); see(v*base); });
   if(v<0&&base==10){ sprintf(ex,"%lld",(long long)v); n=strlen(ex); }
   ARGS("%lld, base %d",(long long)v,base); d=buf(1,n+1,'Z'); CALL(19,"from_int",{ p=((f_fi)F[19])(v,d,base); if(p!=d||strcmp(d,ex)||!intact(1,n+1)) bad("\"%s\" instead of \"%s\"",esc(d),ex); }); }
 const char*pre[]={""," ","\t\n\v\f\r ","+"," +"}; const char*post[]={"","a"," 1","-","."};
 for(int a=0;a<N(pre);a++) for(int b=0;b<N(post);b++) for(int z=0;z<3;z++){ char t[100]; if(v<0&&strchr(pre[a],'+')) continue; if(v<0&&z) continue; sprintf(t,"%s%s%lld%s",pre[a],z==0?"":z==1?"0":"000",(long long)v,post[b]); ARGS("\"%s\"",esc(t)); char*s=put(0,t);
   CALL(23,"to_i64",{ i64 g=((f_t64)F[23])(s); if(g!=strtoll(t,0,10)) bad("%lld",(long long)g); });
   if((i32)v==v) CALL(22,"to_i32",{ i32 g=((f_t32)F[22])(s); if(g!=v) bad("%d",g); }); }
}
static void flt(double v){ char ex[200];
 for(int nd=0;nd<=6;nd++){
  /* the decimal expansion cut off after nd digits; the values are chosen so that it is exact or far from a digit boundary */
  for(int w=0;w<2;w++){ double x=w?v:(double)(float)v; if(fabs(x)>2e9) continue; double fr=fabs(x); long long whole=(long long)fr; fr-=whole; sprintf(ex,"%s%lld",x<0?"-":"",whole); char*q=ex+strlen(ex); if(nd) *q++='.'; int skip=0; for(int i=0;i<nd;i++){ fr*=10; int dg=(int)fr; *q++='0'+dg; fr-=dg; if(w==0&&i>2&&fr!=0) skip=1; if(fr>0.9999&&i<nd-1) skip=1; } *q=0; if(skip) continue;
   size_t n=strlen(ex); ARGS("%.10g, %d digits",x,nd); char*d=buf(1,n+1,'Z'); if(w) CALL(25,"from_f64",{ ((f_fd)F[25])(x,nd,d); if(strcmp(d,ex)||!intact(1,n+1)) bad("\"%s\" instead of \"%s\"",esc(d),ex); }); else CALL(24,"from_f32",{ ((f_ff)F[24])((float)x,nd,d); if(strcmp(d,ex)||!intact(1,n+1)) bad("\"%s\" instead of \"%s\"",esc(d),ex); }); } } }
static void chars(void){ typedef i32(*fc)(i32); static int (*R[])(int)={isalnum,isalpha,isascii,isblank,isdigit,isgraph,islower,isprint,ispunct,isspace,isupper,toascii,tolower,toupper,iscntrl}; static const char*nm[]={"isalnum","isalpha","isascii","isblank","isdigit","isgraph","islower","isprint","ispunct","isspace","isupper","toascii","tolower","toupper","isncntrl"};
 for(int k=0;k<N(R);k++) for(int c=-2;c<=300;c++){ if(c>127&&k!=2&&k!=11&&k!=12&&k!=13&&k!=14) ; ARGS("%d",c); int to=k>=11&&k<=13; int e=c<0||c>127? (k==2?0:k==11?(c&127):to?c:0):R[k](c); CALL(0,nm[k],{ int g=((fc)F[27+k])(c); if(to?g!=e:(!g)!=(!e)) bad("%d instead of %d",g,e); see(g*1000+k); }); } }
static void group(int g,int L){
 if(g<6){ gen("ab-",L); for(int i=g;i<NS;i+=6) for(int j=0;j<NS;j++) if(strlen(STR[i])+strlen(STR[j])<=L+4-1) two(STR[i],STR[j]); }
 else if(g==6){ gen("a\xe1\xff\x80",4); for(int i=0;i<NS;i++) one(STR[i]); NS=0; gen("a\xe1\xff",3); for(int i=0;i<NS;i++) for(int j=0;j<NS;j++) two(STR[i],STR[j]); NS=0; gen("ab",12); int n=NS; for(int i=0;i<n;i++) one(STR[i]); NS=0; gen("a-+ 0",4); n=NS; for(int i=0;i<n;i++) one(STR[i]); for(int L=13;L<60;L++){ char s[64]; memset(s,'x',L); s[L]=0; one(s); s[L/2]='a'; one(s); s[L-1]='b'; one(s); } }
 else { chars(); for(int k=0;k<64;k++) for(i64 d=-2;d<=2;d++){ num((1LL<<k)+d); num(-(1LL<<k)+d); } for(i64 v=-300;v<=300;v++) num(v); i64 p=1; for(int k=0;k<18;k++,p*=10) for(i64 d=-1;d<=1;d++){ num(p+d); num(-p+d);} 
   for(int i=-40;i<=40;i++) for(int k=0;k<6;k++) flt(i/ (double)(1<<k)); for(int i=0;i<100;i++) flt(1000+i*7.5); flt(123456.75); flt(-123456.75); flt(0.0); 
   for(int b=0;b<2;b++){ const char*ex=b?"true":"false"; ARGS("%d",b); char*d=buf(1,strlen(ex)+1,'Z'); CALL(21,"from_bool",{ char*p=((f_fb)F[21])(b,d); if(p!=d||strcmp(d,ex)) bad("\"%s\"",esc(d)); }); } } }
int main(int argc,char**argv){ traps(); csp_main(); int L=atoi(argv[1]); setvbuf(stdout,0,_IOLBF,0); u64*tot=mmap(0,4096,3,MAP_SHARED|MAP_ANONYMOUS,-1,0);
 for(int g=0;g<8;g++) if(!fork()){ for(int k=0;k<4;k++) PG[k]=mkpage(); group(g,L); __sync_fetch_and_add(tot,evals); __sync_fetch_and_add(tot+1,distinct); _exit(0); }
 int st; while(wait(&st)>0) if(st) printf("BAD worker|status %x|died\n",st);
 printf("TOTAL %llu %llu\n",(unsigned long long)tot[0],(unsigned long long)tot[1]); return 0; }
'''

PROP = dict(
    id="S03", title="std::c_str and std::character agree with the C library on every string",
    statement="Every function of std::c_str (strlen, strnlen, strcpy, strncpy, strcat, strncat, strcmp, strncmp, strstr, strsep, strspn, strcspn, strchr, strrchr, strpbrk, strtok, memchr, rawmemchr, reverse, from_int, from_uint, from_bool, from_f32/f64, to_i32, to_i64) and std::character gives the result of the C function of that name (conversions: the exact digits in every base, -2^63 and negative numbers included; floats cut off after the requested digits), terminates its output, reads no byte behind the terminator and writes no byte outside of the destination.",
    quantifier=dict(over=["inputs", "histories"], text="all strings up to length 4-12 over 2-5 letter alphabets, all pairs, counts and split histories; all bases 2..36 with boundary numbers; all characters"),
    why_tests_cant="Most of these functions have only skipped or single-example tests; overlaps of prefixes, empty operands and exhausted counts need systematic inputs.",
    anchors=dict(files=["src/std/c_str.csp", "src/std/character.csp"], mechanism="std::c_str and std::character functions"),
    technique="exhaustive enumeration of all strings / pairs / call histories up to a bound on the compiled library, compared with the C library, under guard pages", level="exploration",
    level_note="Every input within the bound is run on the compiled code; texts end at an inaccessible page.")


def run(chk, repo):
    regs = ["std::c_str::" + f for f in FN] + ["std::character::" + f for f in CH]
    try:
        exe, wd, text = harness.build(repo, CSP, regs, DRV)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log)[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=850, args=("5" if chk.thorough else "4",))
    core.rmdir(wd)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("BAD "):
            f, a, m = line[4:].split("|", 2)
            chk.violation("%s(%s)" % (f, a), "%s(%s): %s" % (f, a, m), {"function": f, "arguments": a, "observed": m})
        elif line.startswith("TOTAL"):
            tot = [int(x) for x in line.split()[1:]]
    if tot is None:
        chk.violation("died", "driver ended abnormally: rc=%s %s %s" % (rc, o[-300:], e[-300:]), {})
        return
    chk.add("evaluations", tot[0])
    chk.add("distinct_nontrivial", tot[1])
    chk.sample({"functions": FN + CH})
    chk.cov["exhaustive"] = True
    chk.cov["rule"] = "one evaluation per call (or call history) on one input; distinct_nontrivial counts distinct result hashes"
