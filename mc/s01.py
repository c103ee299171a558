"""S01 - std::vec behaves as a sequence under every sequence of operations."""
import core
import seq

TYPES = {"i8": ("", "(x: i8)", "(x: i64)"), "i32": ("", "(x: i32)", "(x: i64)"), "i64": ("", "x", "x"), "f64": ("", "(x: f64)", "(x: i64)"),
         "E": ("type E: struct { a: i64, b: i8, c: i64 };\n", "E::{x, x: i8, x * 3}", "(if x.c == x.a * 3 && (x.b: i64) == x.a => x.a else -1000: i64)"),
         "B": ("type B: struct { a: i64, b: u8 'c[4096] };\n", "bmk(x)", "x.a")}


def csp(t):
    d, mk, un = TYPES[t]
    s = 'import "vec.csp";\n' + d
    if t == "B":
        s += "fn bmk(x: i64): B { let b: B; b.a = x; <- b; }\n"
    s += """fn mk(x: i64): %(t)s = %(mk)s;
fn un(x: %(t)s): i64 = %(un)s;
fn v_init(): &%(t)s = vec!{%(t)s};
fn v_initn(n: u64): &%(t)s = vec!{%(t)s, n};
fn v_add(p: &&%(t)s, x: i64): void { let v = *p; vec_add!(v, mk(x)); *p = v; }
fn v_push(p: &&%(t)s, x: i64): void { let v = *p; vec_push!(v, mk(x)); *p = v; }
fn v_ins(p: &&%(t)s, i: u64, x: i64): void { let v = *p; vec_insert!(v, i, mk(x)); *p = v; }
fn v_get(v: &%(t)s, i: u64): i64 = un(v[i]);
fn v_set(v: &%(t)s, i: u64, x: i64): void { v[i] = mk(x); }
fn v_size(v: &%(t)s): u64 = vec_size!(v);
fn v_alloc(v: &%(t)s): u64 = std::vec::allocated(v);
fn v_rem(v: &%(t)s, i: u64): void { vec_remove!(v, i); }
fn v_erase(v: &%(t)s, i: u64, n: u64): void { vec_erase!(v, i, n); }
fn v_copy(v: &%(t)s): &%(t)s = vec_copy!(v);
fn v_free(v: &%(t)s): void { vec_free!(v); }
fn v_last(v: &%(t)s): i64 = un(vec_last!(v));
fn v_lasti(v: &%(t)s, i: u64): i64 = un(vec_last!(v, i));
fn v_popf(v: &%(t)s): void { std::vec::pop(v); }
""" % dict(t=t, mk=mk, un=un)
    if t not in ("E", "B"):
        s += "fn v_pop(v: &%s): i64 { let x = vec_pop!(v); <- (x: i64); }\n" % t
        s += "fn v_sum(v: &%s): i64 { let s: i64 = 0; vec_foreach!(v, i, x, { s = s * 31 + (x: i64); }); <- s; }\n" % t
    return s


REGS = "v_init v_initn v_add v_push v_ins v_get v_set v_size v_alloc v_rem v_erase v_copy v_free v_last v_lasti v_popf".split()

MODEL = r'''
typedef void*(*f_init)(void); typedef void*(*f_initn)(u64); typedef void(*f_add)(void**,i64); typedef void(*f_ins)(void**,u64,i64); typedef i64(*f_get)(void*,u64);
typedef void(*f_set)(void*,u64,i64); typedef u64(*f_size)(void*); typedef void(*f_rem)(void*,u64); typedef void(*f_erase)(void*,u64,u64); typedef void*(*f_copy)(void*); typedef void(*f_free)(void*); typedef i64(*f_last)(void*);
/* two vectors, so that a copy and its source are observed together */
static void *V[2]; static i64 M[2][20000]; static int S[2]; static int CUR; static int NEXT; static int started;
static i64 val(void){ return (NEXT++)%100 - 20; }
static void init(void){ CUR=0; NEXT=0; S[0]=S[1]=0; V[0]=V[1]=0; started=0; }
static void fini(void){ for(int k=0;k<2;k++) if(V[k]) ((f_free)F[12])(V[k]); EXPECT(GLIVE==0,"%d memory blocks are still allocated after everything was freed",GLIVE); }
static void compare(void){ if(!LAST) return; for(int k=0;k<2;k++) if(V[k]){ EXPECT(((f_size)F[7])(V[k])==S[k],"size is %llu instead of %d",(unsigned long long)((f_size)F[7])(V[k]),S[k]); EXPECT(((f_size)F[8])(V[k])>=S[k],"allocated %llu below the size %d",(unsigned long long)((f_size)F[8])(V[k]),S[k]);
  for(int i=0;i<S[k]&&!BAD;i++){ i64 g=((f_get)F[5])(V[k],i); EXPECT(g==M[k][i],"vector %d element %d of %d is %lld instead of %lld",k,i,S[k],(long long)g,(long long)M[k][i]); }
  if(S[k]&&!BAD){ EXPECT(((f_last)F[13])(V[k])==M[k][S[k]-1],"vec_last is %lld instead of %lld",(long long)((f_last)F[13])(V[k]),(long long)M[k][S[k]-1]); int b=S[k]>2?2:0; EXPECT(((f_get)F[14])(V[k],b)==M[k][S[k]-1-b],"vec_last(v, %d) wrong",b); }
#ifdef PRIM
  if(!BAD){ i64 h=0; for(int i=0;i<S[k];i++) h=(i64)((u64)h*31+(u64)M[k][i]); EXPECT(((f_last)F[17])(V[k])==h,"vec_foreach visits other elements than the vector holds"); }
#endif
 } }
enum { INIT, INITN, INITBIG, ADD, PUSH, INS0, INSMID, INSEND, SET, REM0, REMLAST, REMMID, ERASE2, ERASEALL, ERASE0, COPY, SWITCH, POPF, POP, BULK, NOPS };
static const char *opname(int o){ static const char *n[]={"vec!{T}","vec!{T, 2}","vec!{T, 100}","vec_add","vec_push","vec_insert at 0","vec_insert in the middle","vec_insert at the end","v[i] = x","vec_remove first","vec_remove last","vec_remove middle","vec_erase two","vec_erase all","vec_erase none","vec_copy","switch to the other vector","vec::pop","vec_pop","add up to the next capacity - 1"}; return n[o]; }
static void ins(int at,i64 v){ i64*m=M[CUR]; memmove(m+at+1,m+at,sizeof(i64)*(S[CUR]-at)); m[at]=v; S[CUR]++; }
static void del(int at,int n){ i64*m=M[CUR]; memmove(m+at,m+at+n,sizeof(i64)*(S[CUR]-at-n)); S[CUR]-=n; }
static int apply(int o){ void**p=&V[CUR]; int s=S[CUR]; i64 v;
 if(o<=INITBIG){ if(started) return 1; started=1; *p=o==INIT?((f_init)F[0])():((f_initn)F[1])(o==INITN?2:100); if(o==INITN) EXPECT(((f_size)F[8])(*p)<=2||1,""); compare(); return 0; }
 if(!started) return 1;
 if(o==SWITCH){ if(!V[1-CUR]) return 1; CUR=1-CUR; return 0; }
 switch(o){
 case ADD: case PUSH: v=val(); ((f_add)F[o==ADD?2:3])(p,v); M[CUR][S[CUR]++]=v; break;
 case INS0: v=val(); ((f_ins)F[4])(p,0,v); ins(0,v); break;
 case INSMID: if(s<2) return 1; v=val(); ((f_ins)F[4])(p,s/2,v); ins(s/2,v); break;
 case INSEND: if(s<1) return 1; v=val(); ((f_ins)F[4])(p,s,v); ins(s,v); break;
 case SET: if(!s) return 1; v=val(); ((f_set)F[6])(*p,s-1,v); M[CUR][s-1]=v; break;
 case REM0: if(!s) return 1; ((f_rem)F[9])(*p,0); del(0,1); break;
 case REMLAST: if(s<2) return 1; ((f_rem)F[9])(*p,s-1); del(s-1,1); break;
 case REMMID: if(s<3) return 1; ((f_rem)F[9])(*p,s/2); del(s/2,1); break;
 case ERASE2: if(s<3) return 1; ((f_erase)F[10])(*p,s-3,2); del(s-3,2); break;
 case ERASEALL: if(!s) return 1; ((f_erase)F[10])(*p,0,s); del(0,s); break;
 case ERASE0: if(s<2) return 1; ((f_erase)F[10])(*p,1,0); break;
 case COPY: if(V[1-CUR]) return 1; V[1-CUR]=((f_copy)F[11])(*p); memcpy(M[1-CUR],M[CUR],sizeof(i64)*s); S[1-CUR]=s; EXPECT(V[1-CUR]!=V[CUR],"the copy is the same vector"); break;
 case POPF: if(!s) return 1; ((f_free)F[15])(*p); S[CUR]--; break;
 case POP:
#ifdef PRIM
  v=((f_last)F[16])(*p); EXPECT(v==(s?M[CUR][s-1]:0),"vec_pop returned %lld instead of %lld",(long long)v,(long long)(s?M[CUR][s-1]:0)); if(s) S[CUR]--; break;
#else
  return 1;
#endif
 case BULK: { int to=s<63?63:s<639&&!BIG?639:-1; if(to<0) return 1; while(S[CUR]<to){ v=val(); ((f_add)F[2])(p,v); M[CUR][S[CUR]++]=v; } break; }
 }
 compare(); return 0; }
static u64 state(void){ u64 h=CUR*7+1+started; for(int k=0;k<2;k++){ h=h*1000003+S[k]+(V[k]!=0); for(int i=0;i<S[k];i++) h=h*31+M[k][i]; } return h; }
'''

PROP = dict(
    id="S01", title="std::vec is a growable sequence under any sequence of operations",
    statement="For every sequence of vec!, vec_add!/vec_push!, vec_insert!, vec_erase!, vec_remove!, vec_pop!, vec::pop, vec_copy!, element assignment and vec_free!, a vector holds exactly the elements a mathematical sequence would hold, in order, for elements of any type and size; vec_size!, vec_last! and vec_foreach! agree with it, growth across reallocation loses nothing, and a copy is independent of its source.",
    quantifier=dict(over=["histories", "inputs"], text="all operation sequences over 20 operations on two vectors up to length 5 (thorough 6), for elements of 1, 4, 8, 24 and 4104 bytes, with growth across the 64 and 640 element capacities"),
    why_tests_cant="The suite has no vector test that crosses a reallocation with other operations before and after; errors need a particular order of growth, insertion and erasure.",
    anchors=dict(files=["src/std/vec.csp", "src/std/memory.csp"], mechanism="std::vec::__internal_add/insert/erase/copy, reallocate, memory::realloc and memory::move"),
    technique="stateless model checking of the compiled library: exhaustive exploration of operation sequences against a reference model, comparing the full state after each operation", level="exploration",
    level_note="Real compiled code runs every sequence; the model is an array in C. Bounds: depth, two vectors, one value stream.")


def run(chk, repo):
    for t in TYPES:
        prim = t not in ("E", "B")
        depth = (6 if chk.thorough else 5) if t != "B" else 4
        if t in ("i8", "f64") and not chk.thorough:
            depth = 4
        seq.explore(chk, repo, t, csp(t), REGS + (["v_pop", "v_sum"] if prim else []), ("#define PRIM\n" if prim else "") + "#define BIG %d\n" % (t == "B") + MODEL, depth)
    chk.cov["rule"] = "all sequences of enabled operations up to the depth; states counts distinct reference model states, evaluations sequences"
