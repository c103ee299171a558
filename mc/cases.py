"""Exhaustive differential exploration of csp functions against reference functions.

A Case is one csp function plus an independently written reference (C text, built with
gcc -fwrapv).  Both are run on *every* tuple of a finite input space; the returned value
and the trace of external calls made are compared.  External calls:
  tr(x)   - append x to the trace
  cd(k)   - environment decision: append k to the trace and return the next bit of the
            decision string (all strings up to a length are enumerated)
A reference may set SKIP to exclude an input on which the operation is undefined."""
import json
import core
import harness

INT = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0)}
UNS = [t for t in INT if not INT[t][1]]


def trunc(v, t):
    w, s = INT[t]
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


_BASE = [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 63, 100, 127, 128, 200, 255, 256, 1000, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
         2**63 - 1, 2**63, 2**64 - 1, 0x123456789abcdef0, -1, -2, -3, -7, -8, -100, -128, -129, -32768, -32769, -2**31, -2**31 - 1, -2**63]
_SMALL = [0, 1, 2, 3, 7, 100, 127, 128, 255, 2**31 - 1, 2**31, 2**63 - 1, 2**63, -1, -2, -7, -128]
_TINY = [0, 1, 3, 7, 2**31 - 1, 2**63, -1, -5]
_SETS = {"full": _BASE, "small": _SMALL, "tiny": _TINY, "bit": [0, 1], "nat": [0, 1, 2, 3, 4, 5, 6, 7]}
FV = "0.0 -0.0 0.5 1.0 1.5 -0.5 -1.5 0.1 3.0 2.75 -2.75 1e10 1e-10 16777217.0 1e38 -1e38 1e-45 100.25 -100.75".split()
FSP = FV + ["INFINITY", "-INFINITY", "NAN"]
FTINY = "0.0 1.0 -1.5 0.1 3.0 1e10 16777217.0".split()


def values(ty, rng="full"):
    """C initialiser list of the boundary values of a type."""
    if isinstance(rng, (list, tuple, range)):
        return [str(x) for x in rng]
    if ty == "bool":
        return ["0", "1"]
    if ty == "char":
        ty = "i8"
    if ty in ("f32", "f64"):
        return {"full": FSP, "finite": FV, "small": FV, "tiny": FTINY}.get(rng, FTINY)
    return ["(%s)%dULL" % (ty, v & (2**64 - 1)) for v in sorted({trunc(b, ty) for b in _SETS[rng]})]


REF_PRELUDE = r'''
#include <math.h>
#include <sys/wait.h>
#include <sys/mman.h>
static int SKIP; static int INREF;
static i64 TR[4096]; static int NT; static unsigned DEC; static int NDEC, DPOS; static int TOVER;
/* tr keeps nothing but its result: all other registers a callee may change are overwritten */
__attribute__((used)) i64 tr_(i64 x) { if (NT < 4096) TR[NT++] = x; else { TOVER = 1; } return x; }
i64 tr(i64 x);
__asm__(".text\n.globl tr\n.type tr,@function\ntr:\n sub $8,%rsp\n call tr_\n add $8,%rsp\n mov $0x5a5a5a5a5a5a5a5a,%rcx\n mov %rcx,%rdx\n mov %rcx,%rsi\n mov %rcx,%rdi\n mov %rcx,%r8\n mov %rcx,%r9\n mov %rcx,%r10\n mov %rcx,%r11\n"
 " movq %rcx,%xmm0\n movq %rcx,%xmm1\n movq %rcx,%xmm2\n movq %rcx,%xmm3\n movq %rcx,%xmm4\n movq %rcx,%xmm5\n movq %rcx,%xmm6\n movq %rcx,%xmm7\n movq %rcx,%xmm8\n movq %rcx,%xmm9\n movq %rcx,%xmm15\n ret\n");
/* once the decision string is used up the last outcome policy is: stop the run */
static sigjmp_buf DEND; static int DENDED;
i32 cd(i64 k) { tr(1000000 + k); if (DPOS >= NDEC) { DENDED = 1; siglongjmp(DEND, 1); } return (DEC >> DPOS++) & 1; }
'''


def _ops():
    s = ""
    for t, (w, sg) in INT.items():
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("and", "&"), ("or", "|"), ("xor", "^")):
            s += "static inline %s %s_%s(%s a,%s b){return (%s)(a %s b);}\n" % (t, n, t, t, t, t, op)
        for n, op in (("div", "/"), ("mod", "%")):
            ov = "||(b==(%s)-1&&a==(%s)(1ULL<<%d))" % (t, t, w - 1) if sg else ""
            s += "static inline %s %s_%s(%s a,%s b){if(b==0%s){SKIP=1;return 0;}return (%s)(a %s b);}\n" % (t, n, t, t, t, ov, t, op)
        for n, op in (("shl", "<<"), ("shr", ">>")):
            s += "static inline %s %s_%s(%s a,i64 b){if(b<0||b>=%d){SKIP=1;return 0;}return (%s)(a %s b);}\n" % (t, n, t, t, w, t, op)
        for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            s += "static inline bool %s_%s(%s a,%s b){return a %s b;}\n" % (n, t, t, t, op)
        s += "static inline %s neg_%s(%s a){return (%s)-a;}\nstatic inline %s not_%s(%s a){return (%s)~a;}\n" % ((t,) * 8)
    for t in ("f32", "f64"):
        for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
            s += "static inline %s %s_%s(%s a,%s b){return (%s)(a %s b);}\n" % (t, n, t, t, t, t, op)
        for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            s += "static inline bool %s_%s(%s a,%s b){return a %s b;}\n" % (n, t, t, t, op)
        s += "static inline %s neg_%s(%s a){return (%s)-a;}\n" % ((t,) * 4)
    return s


REF_PRELUDE += _ops()
OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr",
       "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}

EXT_CSP = 'extern "C" fn tr(x: i64): i64;\nextern "C" fn cd(k: i64): i32;\n'


class Case:
    """key: stable identifier; params: [(type, value-range)]; ret: type;
    csp: text defining the csp function `@` (the placeholder @ is replaced by a unique name);
    ref: C text defining the reference function `@` (may define helpers, all starting with @);
    dec: max length of the decision string (0 = no decisions)."""
    __slots__ = ("key", "params", "ret", "csp", "ref", "dec", "desc", "files")

    def __init__(self, key, params, ret, csp, ref, dec=0, desc=None, files=None):
        self.files = files or {}
        self.key, self.params, self.ret, self.csp, self.ref, self.dec = key, params, ret, csp, ref, dec
        self.desc = desc or csp


def _driver(cases, common_c):
    d = REF_PRELUDE + (common_c or "")
    d += "static u64 evals, skipped, distinct;\nstatic u64 SEEN[4096];\n"
    d += "static void see(u64 h){h*=0x9E3779B97F4A7C15ULL;h>>=52;if(!SEEN[h]){SEEN[h]=1;distinct++;}}\n"
    body = ""
    shape = {}  # one exploration loop per signature, used by all the cases that have it
    call = ""
    for i, c in enumerate(cases):
        d += c.ref.replace("@", "R%d" % i).replace("§", str(i)) + "\n"
        sig = (str(c.params), c.ret, str(c.dec))
        if sig in shape:
            call += "case %d: shape%d(%d,(void*)R%d); break;\n" % (i, shape[sig], i, i)
            continue
        k = shape[sig] = len(shape)
        call += "case %d: shape%d(%d,(void*)R%d); break;\n" % (i, k, i, i)
        pt = ",".join(t for t, _ in c.params) or "void"
        nm = "rf"
        f = "static void shape%d(int ci,void*rp){ int bad=0;\n typedef %s (*fp)(%s); fp f=(fp)F[ci]; fp rf=(fp)rp;\n" % (k, c.ret, pt)
        ind = ""
        for k, (t, rng) in enumerate(c.params):
            f += " static const %s v%d[]={%s};\n" % (t, k, ",".join(values(t, rng)))
        for k, (t, rng) in enumerate(c.params):
            f += " for(int I%d=0;I%d<N(v%d);I%d++)" % (k, k, k, k)
        f += "{\n"
        for k, (t, _) in enumerate(c.params):
            f += "  %s a%d=v%d[I%d];\n" % (t, k, k, k)
        args = ",".join("a%d" % k for k in range(len(c.params)))
        isv = c.ret == "void"
        if c.dec:
            # explore every decision string as a tree: a prefix the run does not exhaust is not extended
            f += "  static struct{unsigned d;int n;} st[1<<16]; int sp=0; st[sp].d=0;st[sp++].n=0;\n  while(sp){ sp--; unsigned dec=st[sp].d; int nd=st[sp].n;\n"
        else:
            f += "  for(int once=0;once<1;once++){unsigned dec=0;int nd=0;\n"
        reset = "NT=0;TOVER=0;DEC=dec;NDEC=nd;DPOS=0;DENDED=0;"
        callw = ("%s(%s);" % (nm, args)) if isv else ("w=%s(%s);" % (nm, args))
        callg = ("f(%s);" % args) if isv else ("g=f(%s);" % args)
        f += "   %s w, g; memset((void*)&w,0,sizeof w); memset((void*)&g,0,sizeof g); static i64 T0[4096]; int n0,e0,p0;\n" % ("int" if isv else c.ret)
        f += "   SKIP=0; INREF=1; %s if(!sigsetjmp(DEND,0)){%s} n0=NT;e0=DENDED;p0=DPOS; if(SKIP||TOVER){skipped++;continue;} memcpy(T0,TR,sizeof(i64)*n0);\n" % (reset, callw)
        f += "   INREF=0; %s volatile int sg=0; if(!sigsetjmp(DEND,0)){ TRYN++; JARM=1; if(!sigsetjmp(JB,0)){%s} else sg=SIG; } JARM=0; evals++;\n" % (reset, callg)
        if isv:
            cmp = "0"
        elif c.ret in ("f32", "f64"):
            cmp = "(!e0&&memcmp(&g,&w,sizeof w)&&!(g!=g&&w!=w))"
        elif c.ret not in INT and c.ret not in ("bool", "char") and "*" not in c.ret:
            cmp = "(!e0&&!EQ_%s((void*)&g,(void*)&w))" % c.ret
        else:
            cmp = "(!e0&&memcmp((void*)&g,(void*)&w,sizeof w))"
        f += "   { u64 h=ci; if(!e0) memcpy(&h,(void*)&w,sizeof w<8?sizeof w:8); for(int z=0;z<n0;z++)h=h*31+T0[z]; see(h); }\n"
        f += "   if(sg||e0!=DENDED||n0!=NT||memcmp(T0,TR,sizeof(i64)*n0)||%s){ if(bad++<1){ printf(\"BAD %%d \",ci);" % cmp
        for k, (t, _) in enumerate(c.params):
            if t in ("f32", "f64"):
                f += "printf(\"a%d=%%.17g \",(double)a%d);" % (k, k)
            elif t in INT or t in ("bool", "char"):
                f += "printf(\"a%d=%%lld \",(long long)a%d);" % (k, k)
        if c.dec:
            f += "printf(\"decisions=\");for(int z=0;z<nd;z++)putchar('0'+((dec>>z)&1));putchar(' ');"
        if not isv and c.ret in ("f32", "f64"):
            f += "printf(\"got %.17g want %.17g \",(double)g,(double)w);"
        elif not isv and (c.ret in INT or c.ret in ("bool", "char")):
            f += "printf(\"got %lld want %lld \",(long long)g,(long long)w);"
        f += "if(sg)printf(\"signal %d \",sg); printf(\"trace got[\");for(int z=0;z<NT&&z<40;z++)printf(\"%lld,\",(long long)TR[z]);printf(\"]%s want[\",DENDED?\"+\":\"\");for(int z=0;z<n0&&z<40;z++)printf(\"%lld,\",(long long)T0[z]);printf(\"]%s\\n\",e0?\"+\":\"\");} if(sg==SIGVTALRM) return; }\n"
        if c.dec:
            f += "   if(e0&&nd<%d&&sp+2<(1<<16)){st[sp].d=dec;st[sp++].n=nd+1;st[sp].d=dec|(1u<<nd);st[sp++].n=nd+1;}\n" % c.dec
        f += "  }\n }\n if(bad>1)printf(\"MORE %d %d\\n\",ci,bad);\n}\n"
        body += f
    d += body
    d += "static void one_case(int i){ switch(i){\n%s} }\nenum { NCASES=%d };\n" % (call, len(cases))
    d += r'''
int main(int argc,char**argv){ traps(); csp_main();
 u64 *tot=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
 for(int i=0;i<NCASES;i++){ fflush(stdout); pid_t p=fork();
  if(!p){ one_case(i); fflush(stdout); tot[0]+=evals; tot[1]+=skipped; tot[2]+=distinct; _exit(0);}
  int st; waitpid(p,&st,0); if(st) printf("BAD %d process died: %s %d\n",i,WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); }
 printf("TOTAL %llu %llu %llu\n",(unsigned long long)tot[0],(unsigned long long)tot[1],(unsigned long long)tot[2]); return 0; }
'''
    return d


def run_batch(repo, cases, common_csp="", common_c="", backend=None, flags=(), depth=0, cflags=(), stop=None):
    """-> (evals, skipped, distinct, [(case, message)])"""
    src = EXT_CSP + common_csp + "\n" + "\n".join(c.csp.replace("@", "f%d" % i).replace("§", str(i)).replace("¤", "@") for i, c in enumerate(cases)) + "\n"

    files = {k.replace("@", "f%d" % i): v.replace("@", "f%d" % i).replace("§", str(i)).replace("¤", "@") for i, c in enumerate(cases) for k, v in c.files.items()}

    def split(why):
        if len(cases) == 1:
            return 0, 0, 0, [(cases[0], why)]
        step = max(1, len(cases) // 4)
        out = [0, 0, 0, []]
        for k in range(0, len(cases), step):
            if len(out[3]) >= 4 or (stop and stop()):
                break
            r = run_batch(repo, cases[k:k + step], common_csp, common_c, backend, flags, depth + 1, cflags, stop)
            for j in range(3):
                out[j] += r[j]
            out[3] += r[3]
        if not out[3] and depth == 0 and not (stop and stop()):
            # every part on its own is fine: only the whole is not
            out[3] = [(cases[0], "the programs of this batch work alone but not in one file: " + why)]
        return tuple(out)

    try:
        exe, wd, text = harness.build(repo, src, ["f%d" % i for i in range(len(cases))], _driver(cases, common_c), backend=backend, flags=flags, opt="-O1", cflags=cflags, files=files)
    except harness.BuildFailure as b:
        if b.stage == "timeout" and len(cases) == 1:
            try:
                harness.build(repo, src, ["f0"], _driver(cases, common_c), backend=backend, flags=flags, opt="-O1", cflags=cflags, files=files)
                return 0, 0, 0, []
            except harness.BuildFailure:
                pass
        return split("does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600] or "no message"))
    rc, o, e = harness.run(exe, timeout=600)
    bad, tot = [], None
    for line in o.decode(errors="replace").splitlines():
        p = line.split(" ", 2)
        if p[0] == "BAD":
            bad.append((cases[int(p[1])], p[2]))
        elif p[0] == "TOTAL":
            tot = [int(x) for x in line.split()[1:]]
    core.rmdir(wd)
    if tot is None:
        return split("program ended abnormally, rc=%s: %s %s" % (rc, o[-300:], e[-300:]))
    return tot[0], tot[1], tot[2], bad


def explore(chk, repo, cases, batch=150, common_csp="", common_c="", backend=None, flags=(), tag="", cflags=()):
    """Run every case; report violations into chk."""
    cases = list(cases)
    batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]

    def one(b):
        if chk.enough():
            return None
        r = run_batch(repo, b, common_csp, common_c, backend, flags, 0, cflags, chk.enough)
        chk.seen_bad += len([1 for c, _ in r[3] if tag + c.key not in chk.known])
        return r
    for bt, r in zip(batches, core.pmap(one, batches)):
        if r is None:
            continue
        chk.add("evaluations", r[0])
        chk.add("skipped_undefined", r[1])
        chk.add("distinct_nontrivial", r[2])
        chk.add("programs", len(bt))
        for c, msg in r[3]:
            chk.violation(tag + c.key, "%s: %s" % (c.desc.strip().replace("@", "f")[:300], msg[:600]),
                          {"csp": EXT_CSP + common_csp + c.csp.replace("@", "f").replace("§", "0").replace("¤", "@"), "reference": c.ref.replace("@", "f").replace("§", "0"), "backend": backend or "assembly", "flags": list(flags), "observed": msg, "files": {k.replace("@", "f"): v.replace("@", "f") for k, v in c.files.items()}})
    for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1] + cases[-1:]:
        chk.sample({"csp": c.csp.replace("@", "f").strip()[:400], "inputs": [[t, str(r)[:80]] for t, r in c.params]})
