"""S12 - numeric helpers: math, bytes swaps and hashes, array sums, limits, options, uuid."""
import core
import harness
from cases import Case, explore

COMMON = '''import "math.csp";
import "algorithm.csp";
import "array.csp";
import "types.csp";
import "option.csp";
'''
CC = r'''
static u64 hashref(const u8*d,u64 n){ u64 h=0; for(u64 i=0;i<n;i++){ h+=d[i]; h+=h<<10; h^=h>>6; } h+=h<<3; h^=h>>11; h^=h<<15; return h; }
static i64 powref(i64 a,i32 b){ u64 r=1; for(i32 i=0;i<b;i++) r*=(u64)a; return r; }
'''
LIM = [("i8", "-128", "127"), ("i16", "-32768", "32767"), ("i32", "-2147483648", "2147483647"), ("i64", "INT64_MIN", "INT64_MAX"), ("u8", "0", "255"), ("u16", "0", "65535"), ("u32", "0", "4294967295u"), ("u64", "0", "UINT64_MAX")]


def cases():
    c = []
    A = c.append
    num = ["i32", "i64", "u32", "u64", "f64", "f32"]
    for t in num:
        rng = "finite" if t[0] == "f" else "full"
        A(Case("max_" + t, [(t, rng), (t, rng)], t, "fn @(a: %s, b: %s): %s = max!(a, b);" % (t, t, t), "%s @(%s a, %s b){ return a>b?a:b; }" % (t, t, t)))
        A(Case("min_" + t, [(t, rng), (t, rng)], t, "fn @(a: %s, b: %s): %s = min!(a, b);" % (t, t, t), "%s @(%s a, %s b){ return a<b?a:b; }" % (t, t, t)))
        if t[0] != "u":
            A(Case("abs_" + t, [(t, rng)], t, "fn @(a: %s): %s = abs!(a);" % (t, t), "%s @(%s a){ return a<0?-a:a; }" % (t, t)))
    A(Case("max_expr", [("i64", "small"), ("i64", "small")], "i64", "fn @(a: i64, b: i64): i64 = max!(a & 255, b | 1) * 2 + min!(a, b) - 1;", "i64 @(i64 a,i64 b){ i64 x=a&255,y=b|1; return (x>y?x:y)*2+(a<b?a:b)-1; }"))
    A(Case("pow", [("i32", "full"), ("i32", range(0, 70))], "i64", "fn @(a: i32, b: i32): i64 = std::math::pow(a, b);", "i64 @(i32 a,i32 b){ return powref(a,b); }"))
    A(Case("pow_small", [("i32", range(-20, 21)), ("i32", range(0, 25))], "i64", "fn @(a: i32, b: i32): i64 = std::math::pow(a, b);", "i64 @(i32 a,i32 b){ return powref(a,b); }"))
    for f, t, s in (("div", "i32", "Division"), ("div64", "i64", "Division64")):
        for m in ("quot", "rem"):
            op = "/" if m == "quot" else "%"
            lo = "INT32_MIN" if t == "i32" else "INT64_MIN"
            A(Case("%s_%s" % (f, m), [(t, "full"), (t, "full")], t, "fn @(a: %s, b: %s): %s { let d = std::math::%s(a, b); <- d.%s; }" % (t, t, t, f, m),
                   "%s @(%s a,%s b){ if(!b||(b==-1&&a==%s)){SKIP=1;return 0;} return a%sb; }" % (t, t, t, lo, op)))
    A(Case("mod", [("i64", "full"), ("i64", "full")], "i64", "fn @(a: i64, b: i64): i64 = std::math::mod(a, b);", "i64 @(i64 a,i64 b){ if(b<=0){SKIP=1;return 0;} i64 r=a%b; return r<0?r+b:r; }"))
    A(Case("mod_small", [("i64", range(-40, 41)), ("i64", range(1, 20))], "i64", "fn @(a: i64, b: i64): i64 = std::math::mod(a, b);", "i64 @(i64 a,i64 b){ i64 r=a%b; return r<0?r+b:r; }"))
    A(Case("abs32", [("i32", "full")], "i32", "fn @(a: i32): i32 = std::math::abs(a);", "i32 @(i32 a){ return a<0?-a:a; }"))
    A(Case("abs64", [("i64", "full")], "i64", "fn @(a: i64): i64 = std::math::abs64(a);", "i64 @(i64 a){ return a<0?-a:a; }"))
    A(Case("inf", [], "f32", "fn @(): f32 = std::math::inf();", "f32 @(void){ return INFINITY; }"))
    A(Case("nan", [], "f32", "fn @(): f32 = std::math::nan();", "f32 @(void){ return NAN; }"))
    A(Case("pi", [], "f32", "fn @(): f32 = std::math::PI: f32;", "f32 @(void){ return 3.141592653589793; }"))
    for w in (16, 32, 64):
        t = "u%d" % w
        A(Case("bswap%d" % w, [(t, "full")], t, "fn @(a: %s): %s = std::algorithm::bswap_%d(a);" % (t, t, w), "%s @(%s a){ return __builtin_bswap%d(a); }" % (t, t, w)))
        if w < 64:
            for f in ("hton", "ntoh"):
                A(Case("%s%d" % (f, w), [(t, "full")], t, "fn @(a: %s): %s = std::algorithm::%s_%d(a);" % (t, t, f, w), "%s @(%s a){ return __builtin_bswap%d(a); }" % (t, t, w)))
    A(Case("bswap16_all", [("u16", range(65536))], "u16", "fn @(a: u16): u16 = std::algorithm::bswap_16(a);", "u16 @(u16 a){ return __builtin_bswap16(a); }"))
    for n in range(0, 9):
        A(Case("hash%d" % n, [("u64", "full")], "u64", "fn @(x: u64): u64 = std::algorithm::hash_bytes(&x: &const u8, %d);" % n, "u64 @(u64 x){ return hashref((u8*)&x,%d); }" % n))
    A(Case("hash2_all", [("u64", range(65536))], "u64", "fn @(x: u64): u64 = std::algorithm::hash_bytes(&x: &const u8, 2);", "u64 @(u64 x){ return hashref((u8*)&x,2); }"))
    A(Case("hashstr", [("u64", "full")], "u64", "fn @(x: u64): u64 { let b: u64[2] = [x, 0: u64]; <- std::algorithm::hash_string(&b[0]: &const char); }",
           "u64 @(u64 x){ u64 b[2]={x,0}; return hashref((u8*)b,strlen((char*)b)); }"))
    # sums of arrays
    for t, w in (("i8", 8), ("u8", 8), ("i16", 16), ("u16", 16), ("i32", 32), ("u32", 32), ("i64", 64), ("u64", 64)):
        rt = "i64" if t[0] == "i" else "u64"
        for n in range(1, 5):
            # element k of a length-n array rotates through the parameters
            ps = [(t, "tiny")] * min(n, 3)
            args = ", ".join("%s: %s" % (x, t) for x in "abc"[:len(ps)])
            el = ", ".join("abc"[k % len(ps)] for k in range(n))
            cargs = ",".join("%s %s" % (t, x) for x in "abc"[:len(ps)])
            summ = "+".join("(u64)(%s)%s" % (rt, "abc"[k % len(ps)]) for k in range(n))
            A(Case("sum_%s_%d" % (t, n), ps, rt, "fn @(%s): %s { let v: %s[%d] = [%s]; <- std::array::sum_%s(&v[0], %d); }" % (args, rt, t, n, el, t, n), "%s @(%s){ return %s; }" % (rt, cargs, summ)))
            A(Case("msum_%s_%d" % (t, n), ps, "i64", "fn @(%s): i64 { let v: %s[%d] = [%s]; <- sum!(v); }" % (args, t, n, el), "i64 @(%s){ return %s; }" % (cargs, summ)))
            A(Case("last_%s_%d" % (t, n), ps, t, "fn @(%s): %s { let v: %s[%d] = [%s]; <- last!(v); }" % (args, t, t, n, el), "%s @(%s){ return %s; }" % (t, cargs, "abc"[(n - 1) % len(ps)])))
            A(Case("first_%s_%d" % (t, n), ps, t, "fn @(%s): %s { let v: %s[%d] = [%s]; <- first!(v); }" % (args, t, t, n, el), "%s @(%s){ return a; }" % (t, cargs)))
        A(Case("sum0_%s" % t, [(t, "tiny")], rt, "fn @(a: %s): %s { let v: %s[1] = [a]; <- std::array::sum_%s(&v[0], 0); }" % (t, rt, t, t), "%s @(%s a){ return 0; }" % (rt, t)))
    for n in range(2, 7):
        x = "abcdef"[:n]
        A(Case("sumargs%d" % n, [("i64", [-3, 0, 2**40])] * n, "i64", "fn @(%s): i64 = sum!(%s);" % (", ".join(k + ": i64" for k in x), ", ".join(x)), "i64 @(%s){ return %s; }" % (",".join("i64 " + k for k in x), "+".join(x))))
    for t, lo, hi in LIM:
        for k, v in (("min", lo), ("max", hi)):
            A(Case("%s_%s" % (t, k), [], t, "fn @(): %s = %s_%s!;" % (t, t, k), "%s @(void){ return %s; }" % (t, v)))
            A(Case("%s_%s_wide" % (t, k), [], "i64", "fn @(): i64 = %s_%s!: i64;" % (t, k), "i64 @(void){ return (i64)(%s)%s; }" % (t, v)))
            A(Case("%s_%s_size" % (t, k), [], "u64", "fn @(): u64 = sizeof(typeof(%s_%s!));" % (t, k), "u64 @(void){ return sizeof(%s); }" % t))
    for t in ("i32", "i64", "u8", "f64", "bool"):
        rng = "finite" if t[0] == "f" else "full"
        head = "type O§%s: option!(%s);\n" % (t, t)
        A(Case("some_" + t, [(t, rng)], t, head + "fn @(a: %s): %s { let o: O§%s = some!(a); <- unwrap!(o); }" % (t, t, t), "%s @(%s a){ return a; }" % (t, t)))
        A(Case("issome_" + t, [(t, rng), ("bool", "full")], "i32", head + "fn @(a: %s, p: bool): i32 { let o: O§%s = some!(a); o.is_some = p; <- (if is_some!(o) => 1 else 0) + (if is_none!(o) => 10 else 0); }" % (t, t), "i32 @(%s a,bool p){ return p?1:10; }" % t))
        A(Case("ofsome_" + t, [(t, rng)], "i32", head + "fn @(a: %s): i32 { let o: O§%s = some!(a); let n: O§%s = none!(%s); <- (if is_some!(o) => 1 else 0) + (if is_none!(o) => 10 else 0) + (if is_some!(n) => 100 else 0) + (if is_none!(n) => 1000 else 0); }" % (t, t, t, t), "i32 @(%s a){ return 1001; }" % t))
        A(Case("unwrapor_" + t, [(t, rng), (t, rng), ("bool", "full")], t, head + "fn @(a: %s, b: %s, p: bool): %s { let o: O§%s = some!(a); o.is_some = p; <- unwrap_or!(o, b); }" % (t, t, t, t), "%s @(%s a,%s b,bool p){ return p?a:b; }" % (t, t, t)))
        A(Case("none_" + t, [(t, rng)], t, head + "fn @(b: %s): %s { let o: O§%s = none!(%s); <- unwrap_or!(o, b); }" % (t, t, t, t), "%s @(%s b){ return b; }" % (t, t)))
    # uuid: every byte value at every position, through serialize, parse and copy
    u = '''fn @(pos: i32, val: u8): u64 { let a: std::Uuid; let b: std::Uuid; for let i = 0; i < 16; i++; { a[i] = i: u8; b[i] = 99; } let t: char[37]; t[36] = '\\0';
  a[pos] = val; std::uuid::serialize(&a, &t[0]); BODY }'''
    cu = r'''static void @txt(i32 pos,u8 val,char*t,u8*a){ for(int i=0;i<16;i++)a[i]=i; a[pos]=val; char*p=t; for(int i=0;i<16;i++){ if(i==4||i==6||i==8||i==10)*p++='-'; p+=sprintf(p,"%02x",a[i]); } }
'''
    P = [("i32", range(16)), ("u8", range(256))]
    A(Case("uuid_serialize", P, "u64", u.replace("BODY", "<- std::algorithm::hash_bytes(&t[0]: &const u8, 36);"), cu + "u64 @(i32 p,u8 v){ char t[40]; u8 a[16]; @txt(p,v,t,a); return hashref((u8*)t,36); }"))
    A(Case("uuid_parse", P, "u64", u.replace("BODY", "std::uuid::parse(&t[0], &b); <- std::algorithm::hash_bytes(&b[0], 16);"), cu + "u64 @(i32 p,u8 v){ char t[40]; u8 a[16]; @txt(p,v,t,a); return hashref(a,16); }"))
    A(Case("uuid_copy", P, "u64", u.replace("BODY", "std::uuid::copy(&a, &b); <- std::algorithm::hash_bytes(&b[0], 16);"), cu + "u64 @(i32 p,u8 v){ char t[40]; u8 a[16]; @txt(p,v,t,a); return hashref(a,16); }"))
    return c


PROP = dict(
    id="S12", title="Numeric helpers, sums, limits, options and uuids compute what they are named for",
    statement="For every argument: max!, min!, abs!, math::abs/abs64 give the maximum, minimum and absolute value (of a number whose absolute value is representable); math::pow(a, b) is a to the power b for b >= 0 modulo 2^64; div and div64 give quotient and remainder, mod the non-negative remainder for a positive divisor; bswap, hton, ntoh reverse the bytes; hash_bytes and hash_string are the documented hash of exactly the given bytes; array::sum_* and sum! add all elements of an array in 64 bits, first! and last! give its ends; the *_min! and *_max! macros are the limits of their types and have those types; some!, none!, is_some!, is_none!, unwrap! and unwrap_or! behave as an optional value; uuid::serialize writes the canonical 36 characters, parse reads them back and copy copies, without touching other memory; uuid::generate fills exactly 16 bytes with successive values of the random generator (four little-endian bytes each), which the first call seeds with the microseconds of the clock.",
    quantifier=dict(over=["inputs"], text="all (pairs of) boundary values of the parameter types, small ranges completely, array lengths 0 to 4, every byte value at every position of a uuid, all 65536 16 bit values"),
    why_tests_cant="Tests use a few ordinary numbers; wrong widths and signs show only on boundary values.",
    anchors=dict(files=["src/std/math.csp", "src/std/algorithm.csp", "src/std/array.csp", "src/std/types.csp", "src/std/option.csp", "src/std/random.csp"], mechanism="macros and functions of the numeric parts of the standard library"),
    technique="bounded exhaustive enumeration of inputs of the compiled library, compared with reference functions", level="exploration",
    level_note="Real compiled code. Bounds: boundary values per type; minimal values whose absolute value is not representable wrap as in C with -fwrapv.")

# uuid::generate with a controlled clock and buffers that end at an inaccessible page
UCSP = '''import "algorithm.csp"; import "random.csp";
fn u_gen(o: &std::Uuid): void { std::uuid::generate(o); }
fn u_ser(i: &std::Uuid, o: &char): void { std::uuid::serialize(i, o); }
fn u_par(i: &char, o: &std::Uuid): void { std::uuid::parse(i, o); }
fn u_copy(i: &std::Uuid, o: &std::Uuid): void { std::uuid::copy(i, o); }
fn u_rand(): i64 = std::random::rand();
fn u_seed(s: u32): void { std::random::seed(s); }
'''
UREGS = ["u_gen", "u_ser", "u_par", "u_copy", "u_rand", "u_seed", "std::syscall::clock_gettime"]
UDRV = r'''
#include <sys/wait.h>
static i64 NSEC; static int ASKED; static i32 fake_gettime(i32 clk,i64*ts){ ASKED++; ts[0]=1700000000; ts[1]=NSEC; return 0; }
static u64 EV; static void no(const char*f,...){ va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static void words(u8*b,int n){ for(int i=0;i<n*4;i+=4){ u32 r=((i64(*)(void))F[4])(); for(int j=0;j<4;j++) b[i+j]=r>>8*j; } }
/* a uuid is an array: eight bytes of length and 16 bytes */
static char*PG[2]; static u8*at(int p,int end,int n){ return (u8*)PG[p]+(end?8192-n:4096); }
static u8*uu(int p,int end){ u8*x=at(p,end,24); *(u64*)x=16; return x+8; }
static int outside(int p,u8*a,int n){ for(int i=0;i<4096;i++){ u8*x=(u8*)PG[p]+4096+i; if((x<a||x>=a+n)&&*x!='#') return 1; } return 0; }
int main(void){ traps(); csp_main(); g_patch(F[6],fake_gettime); for(int p=0;p<2;p++){ PG[p]=mmap(0,3*4096,3,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(PG[p],4096,0); mprotect(PG[p]+8192,4096,0); }
  for(int usec=0;usec<1000000;usec+=usec<100?1:49999) { fflush(stdout); int st; if(!fork()){ NSEC=usec*1000+500; u8 w[64];
    for(int k=0;k<4;k++){ memset(PG[0]+4096,'#',4096); u8*u=uu(0,k&1); EV++; TRYQ(((void(*)(void*))F[0])(u-8)); if(SIG||*(u64*)(u-8)!=16||outside(0,u-8,24)){ no("uuid::generate writes outside the 16 bytes of the uuid"); SIG=1; break; } memcpy(w+16*k,u,16); }
    if(!SIG){ u8 r[64]; ((void(*)(u32))F[5])(usec); words(r,16); if(memcmp(r,w,64)) no("uuid::generate does not give the next 16 random bytes of the generator seeded with the microseconds of the clock"); if(!ASKED) no("uuid::generate does not seed the generator with the clock"); }
    printf("PART %llu\n",(unsigned long long)EV); fflush(stdout); _exit(0); } wait(&st); if(st) no("uuid::generate ended the process"); }
  /* the other functions on buffers between inaccessible pages */
  for(int a=0;a<2;a++) for(int b=0;b<2;b++) for(int f=0;f<3;f++){ memset(PG[0]+4096,'#',4096); memset(PG[1]+4096,'#',4096); u8*u=uu(0,a), *v=f==1?uu(1,b):0, *t=at(1,b,36); const char*TX="00112233-4455-6677-8899-aabbccddeeff"; for(int i=0;i<16;i++) u[i]=i*17; EV++;
      if(f==0) TRYQ(((void(*)(void*,void*))F[1])(u-8,t)); else if(f==1) TRYQ(((void(*)(void*,void*))F[3])(u-8,v-8)); else { memcpy(t,TX,36); memset(u,0,16); TRYQ(((void(*)(void*,void*))F[2])(t,u-8)); }
      const char*n[]={"serialize","copy","parse"}; if(SIG) { no("uuid::%s touches memory outside its buffers",n[f]); continue; }
      if(outside(0,u-8,24)||outside(1,f==1?v-8:t,f==1?24:36)) no("uuid::%s writes outside its destination",n[f]);
      for(int i=0;i<16;i++) if(u[i]!=i*17||f==1&&v[i]!=i*17){ no("uuid::%s: byte %d",n[f],i); break; } if(f!=1&&memcmp(t,TX,36)) no("uuid::serialize gives %.36s",t); }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''


def uuids(chk, repo):
    try:
        exe, wd, text = harness.build(repo, UCSP, UREGS + harness.GUARD_REGS, harness.GUARD_C + UDRV)
    except harness.BuildFailure as b:
        chk.violation("uuid:build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe)
    tot, part, seen = None, 0, set()
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V ") and line not in seen:
            seen.add(line)
            if len(seen) < 10:
                chk.violation("uuid:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("uuid:died", "the enumeration of uuids ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot + part)
        chk.sample({"uuid": "generate at %d microseconds, four calls each" % (part // 4), "other": tot})


def run(chk, repo):
    uuids(chk, repo)
    explore(chk, repo, cases(), common_csp=COMMON, common_c=CC, batch=60)
    chk.cov["rule"] = "one evaluation per function and argument tuple; distinct_nontrivial counts distinct results per function"
