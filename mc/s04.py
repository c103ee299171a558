"""S04 - std::String behaves as a character sequence under every sequence of operations."""
import core
import harness
import seq

CSP = '''import "string.csp";
import "vec.csp";
fn x_init(s: &char): &char = std::string::init(s: std::String);
fn x_initn(): &char = str!{};
fn x_sized(n: u64): &char = std::string::init_sized(n);
fn x_sizedw(n: u64, c: char): &char = std::string::init_sized_with(n, c);
fn x_free(s: &char): void { std::string::free(s); }
fn x_concat(d: &&char, s: &const char): void { std::string::concat(d, s); }
fn x_concatm(d: &&char, s: &const char): void { let t: std::String = *d; concat!(t, s); *d = t; }
fn x_append(d: &&char, c: char): void { std::string::append(d, c); }
fn x_copy(s: &char): &char = std::string::copy(s);
fn x_size(s: &char): u64 = std::string::size(s);
fn x_substr(s: &char, a: i64, b: i64): &char = std::string::substr(s, a, b);
fn x_trim(s: &char): &char = std::string::trim(s);
fn x_contains(a: &char, b: &char): bool = std::string::contains(a, b);
fn x_equal(a: &char, b: &char): bool = std::string::equal(a, b);
fn x_cc(a: &char, c: char): bool = std::string::contains_char(a, c);
fn x_find(a: &char, c: char): i64 { let r = std::string::find_char(a, c); if r.is_some ret (r.value: i64); <- -1; }
fn x_split(s: &char, d: &char, out: &&char): u64 { let v = std::string::split(s, d); let n: u64 = vec_size!(v); for let i: u64 = 0; i < n; i++; { out[i] = v[i]; } std::vec::free(v); <- n; }
fn x_int(v: i64): &char = std::string::from_int(v);
fn x_uint(v: u64): &char = std::string::from_uint(v);
fn x_char(c: char): &char = std::string::from_char(c);
fn t_bool(b: bool): &char = to_str!(b);
fn t_char(b: char): &char = to_str!(b);
fn t_i8(b: i8): &char = to_str!(b);
fn t_i32(b: i32): &char = to_str!(b);
fn t_i64(b: i64): &char = to_str!(b);
fn t_u8(b: u8): &char = to_str!(b);
fn t_u64(b: u64): &char = to_str!(b);
fn t_str(b: &const char): &char = to_str!(b);
fn c_f32(v: f32, n: i32, b: &char): void { std::c_str::from_f32(v, n, b); }
fn c_f64(v: f64, n: i32, b: &char): void { std::c_str::from_f64(v, n, b); }
fn f_f32(v: f32): &char = std::string::from_f32(v);
fn f_f64(v: f64): &char = std::string::from_f64(v);
fn t_f32(v: f32): &char = to_str!(v);
fn t_f64(v: f64): &char = to_str!(v);
fn t_own(b: &char): &char { let s: std::String = b; <- to_str!(s); }
'''
REGS = ("x_init x_initn x_sized x_sizedw x_free x_concat x_concatm x_append x_copy x_size x_substr x_trim x_contains x_equal x_cc x_find x_split "
        "x_int x_uint x_char t_bool t_char t_i8 t_i32 t_i64 t_u8 t_u64 t_str t_own c_f32 c_f64 f_f32 f_f64 t_f32 t_f64").split()

MODEL = r'''
enum { F_INIT, F_INITN, F_SIZED, F_SIZEDW, F_FREE, F_CONCAT, F_CONCATM, F_APPEND, F_COPY, F_SIZE, F_SUBSTR, F_TRIM, F_CONTAINS, F_EQUAL, F_CC, F_FIND, F_SPLIT };
typedef char*(*f_p)(void*); typedef char*(*f_n)(u64); typedef char*(*f_nc)(u64,u8); typedef void(*f_vp)(void*); typedef void(*f_vpp)(char**,char*); typedef void(*f_vpc)(char**,u8); typedef u64(*f_up)(char*); typedef char*(*f_sub)(char*,i64,i64); typedef u8(*f_bpp)(char*,char*); typedef u8(*f_bpc)(char*,u8); typedef i64(*f_ipc)(char*,u8);
static char *V[2]; static char M[2][4000]; static int CUR; static int NEXT;
static char nextc(void){ return "a bc,d\tz"[NEXT++%8]; }
static void init(void){ V[0]=V[1]=0; M[0][0]=M[1][0]=0; CUR=0; NEXT=0; }
static void check(char*v,char*m,const char*what){ EXPECT(v&&!strcmp(v,m),"%s is \"%.60s\" instead of \"%.60s\"",what,v?v:"(nil)",m); }
static void trimmed(char*d,char*s){ while(*s&&(*s==' '||(*s>=9&&*s<=13))) s++; strcpy(d,s); int n=strlen(d); while(n&&(d[n-1]==' '||(d[n-1]>=9&&d[n-1]<=13))) d[--n]=0; }
static void compare(void){ if(!LAST) return; char b[4000];
  for(int k=0;k<2;k++) if(V[k]&&!BAD){ check(V[k],M[k],k?"the second string":"the first string"); if(BAD) return; int n=strlen(M[k]); EXPECT(((f_up)F[F_SIZE])(V[k])==n,"size is wrong");
    for(int i=0;i<6&&!BAD;i++){ char c="abz,\t "[i]; char*p=strchr(M[k],c); EXPECT(((f_bpc)F[F_CC])(V[k],c)==(p!=0),"contains_char('%c') is wrong",c); i64 f=((f_ipc)F[F_FIND])(V[k],c); EXPECT(f==(p?p-M[k]:-1),"find_char('%c') is %lld",c,(long long)f); }
    char*need[]={"","a","bc","c,d","zz"," "}; for(int i=0;i<6&&!BAD;i++) EXPECT(((f_bpp)F[F_CONTAINS])(V[k],need[i])==(strstr(M[k],need[i])!=0),"contains(\"%s\") is wrong",need[i]);
    int pos[]={-1,0,1,n/2,n-1,n,n+1}; for(int i=0;i<7&&!BAD;i++) for(int j=0;j<7&&!BAD;j++){ i64 x=pos[i],y=pos[j]; char*s=((f_sub)F[F_SUBSTR])(V[k],x,y); if(x<0||y<x||y>n) EXPECT(s==0,"substr(%lld, %lld) of %d characters is not nil",(long long)x,(long long)y,n); else { memcpy(b,M[k]+x,y-x); b[y-x]=0; check(s,b,"the substring"); if(!BAD) ((f_vp)F[F_FREE])(s); } }
    if(BAD) return; char*c=((f_p)F[F_COPY])(V[k]); trimmed(b,M[k]); check(((f_p)F[F_TRIM])(c),b,"the trimmed string"); ((f_vp)F[F_FREE])(c);
    for(int d=0;d<4&&!BAD;d++){ char*del=(char*[]){",", " ,", "b", "\t "}[d]; c=((f_p)F[F_COPY])(V[k]); char*out[4000]; int m=((u64(*)(char*,char*,char**))F[F_SPLIT])(c,del,out); strcpy(b,M[k]); char*q=b,*t; int i=0; while((t=strsep(&q,del))&&!BAD){ EXPECT(i<m,"split gives %d parts only",m); if(i<m) check(out[i],t,"a part of split"); i++; } EXPECT(i==m,"split gives %d parts instead of %d",m,i); for(i=0;i<m&&!BAD;i++) ((f_vp)F[F_FREE])(out[i]); ((f_vp)F[F_FREE])(c); }
  }
  if(V[0]&&V[1]&&!BAD) EXPECT(((f_bpp)F[F_EQUAL])(V[0],V[1])==!strcmp(M[0],M[1]),"equal is wrong"); }
enum { NIL, EMPTY, ABC, SIZED0, SIZED3, SIZEDW, APPEND, BULK, CONC0, CONC2, CONCM, CONCSELF, CONCOTHER, COPY, SWITCH, FREE, POKE, NOPS };
static const char *opname(int o){ static const char *n[]={"str!{}","str!{\"\"}","str!{\" ab, c \"}","init_sized(0)","init_sized(3)","init_sized_with(3, 'x')","append","append 20 times","concat \"\"","concat \"bc,\"","concat!","concat to itself","concat the other","copy to the other","switch to the other","free","set a character"}; return n[o]; }
static int apply(int o){ char**p=&V[CUR]; char*m=M[CUR];
  if(o<=SIZEDW){ if(*p) return 1; switch(o){ case NIL: *p=((char*(*)(void))F[F_INITN])(); *m=0; break; case EMPTY: *p=((f_p)F[F_INIT])(""); *m=0; break; case ABC: *p=((f_p)F[F_INIT])(" ab, c "); strcpy(m," ab, c "); break;
    case SIZED0: case SIZED3: *p=((f_n)F[F_SIZED])(o==SIZED0?0:3); *m=0; break; case SIZEDW: *p=((f_nc)F[F_SIZEDW])(3,'x'); strcpy(m,"xxx"); break; } }
  else { if(!*p) return 1; int n=strlen(m); if(n>1500&&(o==BULK||o==CONCSELF||o==CONCOTHER)) return 1; char c;
   switch(o){
   case APPEND: c=nextc(); ((f_vpc)F[F_APPEND])(p,c); m[n]=c; m[n+1]=0; break;
   case BULK: for(int i=0;i<20;i++){ c=nextc(); ((f_vpc)F[F_APPEND])(p,c); m[n+i]=c; m[n+i+1]=0; } break;
   case CONC0: ((f_vpp)F[F_CONCAT])(p,""); break;
   case CONC2: ((f_vpp)F[F_CONCAT])(p,"bc,"); strcat(m,"bc,"); break;
   case CONCM: ((f_vpp)F[F_CONCATM])(p,"d e"); strcat(m,"d e"); break;
   case CONCSELF: ((f_vpp)F[F_CONCAT])(p,*p); memmove(m+n,m,n); m[2*n]=0; break;
   case CONCOTHER: if(!V[1-CUR]) return 1; ((f_vpp)F[F_CONCAT])(p,V[1-CUR]); strcat(m,M[1-CUR]); break;
   case COPY: if(V[1-CUR]) return 1; V[1-CUR]=((f_p)F[F_COPY])(*p); strcpy(M[1-CUR],m); break;
   case SWITCH: CUR=1-CUR; if(!V[CUR]&&0) return 1; break;
   case FREE: ((f_vp)F[F_FREE])(*p); *p=0; *m=0; break;
   case POKE: if(!n) return 1; (*p)[n-1]=m[n-1]='Q'; break; } }
  compare(); return 0; }
static void fini(void){ for(int k=0;k<2;k++) if(V[k]) ((f_vp)F[F_FREE])(V[k]); EXPECT(GLIVE==0,"%d memory blocks are still allocated after everything was freed",GLIVE); }
static u64 state(void){ u64 h=CUR; for(int k=0;k<2;k++){ h=h*1000003+(V[k]!=0); for(char*c=M[k];*c;c++) h=h*31+*c; } return h; }
'''

CONV = r'''
static u64 EV,BADN; static void no(const char*what,char*got,char*want){ if(BADN++<20) printf("V %s gives \"%.80s\" instead of \"%.80s\"\n",what,got?got:"(nil)",want); }
int main(){ traps(); csp_main(); g_start(GIDX); char w[200],what[200]; i64 iv[4000]; int n=0;
 for(i64 v=-300;v<=300;v++) iv[n++]=v; for(int s=3;s<64;s++) for(int d=-2;d<=2;d++){ iv[n++]=((u64)1<<s)+d; iv[n++]=-((u64)1<<s)+d; } u64 p=1; for(int k=0;k<20;k++){ for(int d=-1;d<=1;d++){ iv[n++]=p+d; iv[n++]=-p+d; } p*=10; }
#define CK(name,fn,arg,...) do{ EV++; char*volatile r=0; TRYQ(r=((char*(*)(arg))F[fn])(v)); sprintf(w,__VA_ARGS__); if(SIG||!r||strcmp(r,w)) { sprintf(what,"%s(%s)",name,w); no(what,SIG?"(trap)":r,w); } } while(0)
 for(int i=0;i<n;i++){ i64 v=iv[i]; g_reset(); CK("string::from_int",17,i64,"%lld",(long long)v); CK("string::from_uint",18,u64,"%llu",(unsigned long long)v); CK("to_str! of an i64",24,i64,"%lld",(long long)v); CK("to_str! of an u64",26,u64,"%llu",(unsigned long long)v); CK("to_str! of an i32",23,i32,"%d",(i32)v); }
 for(int i=0;i<256;i++){ g_reset(); i64 v=i; CK("string::from_char",19,u8,"%c",i); CK("to_str! of a char",21,u8,"%c",i); CK("to_str! of an i8",22,i8,"%d",(i8)v); CK("to_str! of an u8",25,u8,"%d",(u8)v); if(i<2) CK("to_str! of a bool",20,u8,"%s",i?"true":"false"); }
 char*t[]={"","x","hello world"}; for(int i=0;i<3;i++){ char*v=t[i]; CK("to_str! of a C string",27,char*,"%s",v); CK("to_str! of a String",28,char*,"%s",v); }
 /* floats: the text of std::c_str with 10 and 20 digits */
 double fv[]={0,1,1.5,-2.25,0.1,123456.789,-0.001,1e9,-1e9,3.999999,0.5,99.99,-1234567,2e-8,-0.9999}; for(int i=0;i<15;i++) for(int w=0;w<2;w++) for(int m=0;m<2;m++){ g_reset(); EV++; double d=fv[i]; float f=d; char b[200]; memset(b,'#',200); if(w) ((void(*)(f64,i32,char*))F[30])(d,20,b); else ((void(*)(f32,i32,char*))F[29])(f,10,b); char*volatile r=0; if(w) TRYQ(r=((char*(*)(f64))F[m?34:32])(d)); else TRYQ(r=((char*(*)(f32))F[m?33:31])(f)); if(SIG||!r||strcmp(r,b)){ sprintf(what,"%s of the f%d %.9g",m?"to_str!":w?"string::from_f64":"string::from_f32",w?64:32,d); no(what,SIG?"(trap)":r,b); } }
 { EV+=4; volatile u8 e=9; TRYQ(e=((u8(*)(char*,u8))F[14])(0,'a')); if(SIG||e) no("contains_char of nil","true","false"); volatile i64 x=9; TRYQ(x=((i64(*)(char*,u8))F[15])(0,'a')); if(SIG||x!=-1) no("find_char of nil","something","nothing"); e=9; TRYQ(e=((u8(*)(char*,char*))F[13])(0,"a")); if(SIG||e) no("equal of nil and a string","true","false"); TRYQ(e=((u8(*)(char*,char*))F[13])(0,0)); if(SIG||e!=1) no("equal of nil and nil","false","true"); }
 printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S04", title="std::String holds the right characters under any sequence of operations",
    statement="After any sequence of str!/init/init_sized/init_sized_with, append, concat (also of a string with itself), copy, element assignment and free, every string has exactly the characters the sequence implies and is null-terminated; size, contains, contains_char, find_char, equal, substr (nil unless 0 <= from <= to <= size), trim and split report what these characters imply; a copy is independent; no memory outside of the blocks a string owns is touched and everything is released by free. from_int/from_uint/from_char and to_str! of integers, characters, booleans and strings give the decimal or textual form of every value, those of f32 and f64 the text of c_str::from_f32 and from_f64 with 10 and 20 digits; a nil string contains no character and equals only nil.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences over 17 operations on two strings up to length 5 (thorough 6), all query functions after each operation; conversions for all 8-bit values and a boundary set of 1400 integers of up to 64 bits"),
    why_tests_cant="The suite concatenates and appends a few fixed strings; wrong sizes and capacities show up only in particular orders of growth, appending and concatenating.",
    anchors=dict(files=["src/std/string.csp", "src/std/c_str.csp", "src/std/memory.csp", "src/std/vec.csp"], mechanism="std::string::init/append/concat/substr/trim/split/from_* and to_str!"),
    technique="stateless model checking of the compiled library: exhaustive exploration of operation sequences against a reference model on an allocator with guard pages; exhaustive enumeration of conversion inputs", level="exploration",
    level_note="Real compiled code runs every sequence; the model is a C buffer and libc's string functions. Bounds: depth, two strings, one character stream.")


def run(chk, repo):
    seq.explore(chk, repo, "String", CSP, REGS, MODEL, 6 if chk.thorough else 5)
    try:
        exe, wd, text = harness.build(repo, CSP, REGS + harness.GUARD_REGS, harness.GUARD_C + "#define GIDX %d\n" % len(REGS) + CONV)
    except harness.BuildFailure as b:
        chk.violation("conv:build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("conv:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("conv:died", "the conversion enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot)
    chk.cov["rule"] = "all sequences of enabled operations up to the depth; states counts distinct reference states; evaluations counts sequences and conversions"
