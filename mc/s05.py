"""S05 - std::memory: allocation, reallocation and block operations."""
import core
import harness
import seq

NAMES = "alloc calloc realloc free copy move eq set zero is_zero ptr_overlap".split()
CSP = '''import "memory.csp";
fn q_alloc(n: u64): &void = alloc!(n);
fn q_realloc(p: &void, n: u64): &void = realloc!(p, n);
fn q_free(p: &void): void { free!(p); }
type Big: struct { a: i64, b: i8 'c[5000] };
fn q_make(): &void = make!(Big);
fn q_maken(n: u64): &void = make!(i32, n);
'''
REGS = ["std::memory::" + n for n in NAMES] + ["q_alloc", "q_realloc", "q_free", "q_make", "q_maken"]

MODEL = r'''
typedef void*(*f_a)(u64); typedef void*(*f_r)(void*,u64); typedef void(*f_f)(void*); typedef i32(*f_cp)(void*,void*,u64); typedef void*(*f_mv)(void*,void*,u64); typedef u8(*f_eq)(void*,void*,u64);
enum { F_ALLOC, F_CALLOC, F_REALLOC, F_FREE, F_COPY, F_MOVE, F_EQ, F_SET, F_ZERO, F_ISZERO, F_OVERLAP, F_QA, F_QR, F_QF, F_MAKE, F_MAKEN };
static u8 *P[2]; static u8 M[2][20000]; static u64 S[2]; static int CUR, NEXT, failing;
static u64 SZ[]={0,1,8,4088,4089,10000};
static void init(void){ P[0]=P[1]=0; S[0]=S[1]=0; CUR=0; NEXT=1; failing=0; }
static void check(void){ for(int k=0;k<2;k++) if(P[k]) for(u64 i=0;i<S[k]&&!BAD;i++) EXPECT(P[k][i]==M[k][i],"byte %llu of block %d (%llu bytes) changed",(unsigned long long)i,k,(unsigned long long)S[k]); if(P[0]&&P[1]&&!BAD) EXPECT(P[0]+S[0]<=P[1]||P[1]+S[1]<=P[0],"two live blocks overlap"); }
static void fill(int k){ for(u64 i=0;i<S[k];i++) P[k][i]=M[k][i]=(u8)(NEXT*37+i*7+(i>>8)); NEXT++; }
enum { A0, A1, A8, A4088, A4089, A10000, CA, CA0, CA00, MK, MKN, R0, R1, R8, R4088, R4089, R10000, RNIL, FREE, FREENIL, SWITCH, COPY, MOVEUP, MOVEDOWN, SET, ZERO, FAIL, HUGE_, NOPS };
static const char *opname(int o){ static const char *n[]={"alloc(0)","alloc(1)","alloc(8)","alloc(4088)","alloc(4089)","alloc(10000)","calloc(13, 7)","calloc(13, 0)","calloc(0, 7)","make!(T)","make!(i32, 9)","realloc(p, 0)","realloc(p, 1)","realloc(p, 8)","realloc(p, 4088)","realloc(p, 4089)","realloc(p, 10000)","realloc(nil, 8)","free","free(nil)","switch blocks","copy from the other block","move up inside of the block","move down inside of the block","set","zero","the next request to the system fails","alloc of half the address space"}; return n[o]; }
static int apply(int o){ void*r; int k=CUR; if(failing&&!(o<=RNIL)) return 1;
 if(o==FAIL){ if(failing) return 1; failing=1; GTOTAL=0; GFAIL=0; return 0; }
 if(o<=MKN||o==RNIL||o==HUGE_){ if(P[k]) return 1; u64 n=o<=A10000?SZ[o]:o==CA?91:o==CA0||o==CA00?0:o==MK?5008:o==MKN?36:8;
   if(o<=A10000) r=((f_a)F[NEXT&1?F_ALLOC:F_QA])(n); else if(o==CA0||o==CA00) r=((void*(*)(u64,u64))F[F_CALLOC])(o==CA0?13:0,o==CA0?0:7); else if(o==CA) r=((void*(*)(u64,u64))F[F_CALLOC])(13,7); else if(o==MK) r=((void*(*)(void))F[F_MAKE])(); else if(o==MKN) r=((f_a)F[F_MAKEN])(9); else if(o==RNIL) r=((f_r)F[F_REALLOC])(0,8); else { r=((f_a)F[F_ALLOC])((u64)1<<62); EXPECT(!r,"an impossible allocation gives a block"); r=((void*(*)(u64,u64))F[F_CALLOC])((u64)1<<33,(u64)1<<33); EXPECT(!r,"an impossible calloc gives a block"); return 0; }
   if(failing){ failing=0; GFAIL=-1; EXPECT(r==0,"%s returned a block although the system had none",opname(o)); check(); return 0; }
   EXPECT(r!=0,"%s failed",opname(o)); if(BAD) return 0; P[k]=r; S[k]=n; if(o==CA) for(u64 i=0;i<n;i++) EXPECT(P[k][i]==0,"calloc gives memory that is not zero"); fill(k); }
 else if(o>=R0&&o<=R10000){ if(!P[k]) return 1; u64 n=SZ[o-R0]; r=((f_r)F[NEXT&1?F_REALLOC:F_QR])(P[k],n);
   if(failing){ failing=0; GFAIL=-1; EXPECT(r==0,"realloc returned a block although the system had none"); check(); return 0; }
   EXPECT(r!=0,"realloc failed"); if(BAD) return 0; P[k]=r; if(n<S[k]) S[k]=n; u64 kept=S[k]; check(); S[k]=n; for(u64 i=kept;i<n;i++) P[k][i]=M[k][i]=(u8)i; NEXT++; }
 else switch(o){
  case FREE: if(!P[k]) return 1; ((f_f)F[NEXT&1?F_FREE:F_QF])(P[k]); P[k]=0; break;
  case FREENIL: if(P[k]) return 1; ((f_f)F[F_FREE])(0); break;
  case SWITCH: CUR=1-CUR; return 0;
  case COPY: { if(!P[0]||!P[1]) return 1; u64 n=S[0]<S[1]?S[0]:S[1]; EXPECT(((f_cp)F[F_COPY])(P[k],P[1-k],n)==0,"copy between two blocks failed"); memcpy(M[k],M[1-k],n); break; }
  case MOVEUP: case MOVEDOWN: { if(!P[k]||S[k]<8) return 1; u64 n=S[k]-3, a=o==MOVEUP?3:0, b=3-a; r=((f_mv)F[F_MOVE])(P[k]+a,P[k]+b,n); EXPECT(r==P[k]+a,"move returned something other than its destination"); memmove(M[k]+a,M[k]+b,n); break; }
  case SET: if(!P[k]) return 1; ((void(*)(void*,i32,u64))F[F_SET])(P[k],0x1ab,S[k]); memset(M[k],0xab,S[k]); break;
  case ZERO: if(!P[k]) return 1; ((void(*)(void*,u64))F[F_ZERO])(P[k],S[k]); memset(M[k],0,S[k]); EXPECT(((u8(*)(void*,u64))F[F_ISZERO])(P[k],S[k])==1,"is_zero denies that a zeroed block is zero"); break; }
 if(P[0]&&P[1]&&!BAD){ u64 n=S[0]<S[1]?S[0]:S[1]; EXPECT(((f_eq)F[F_EQ])(P[0],P[1],n)==!memcmp(M[0],M[1],n),"eq is wrong"); }
 check(); return 0; }
static void fini(void){ check(); for(int k=0;k<2;k++) if(P[k]) ((f_f)F[F_FREE])(P[k]); EXPECT(GLIVE==0,"%d blocks are still mapped after everything was freed",GLIVE); }
static u64 state(void){ u64 h=CUR+failing*2; for(int k=0;k<2;k++){ h=h*1000003+(P[k]?S[k]+1:0); if(P[k]) for(u64 i=0;i<S[k]&&i<16;i++) h=h*31+M[k][i]; } return h; }
'''

BLOCK = r'''
static u64 EV,BADN; static void no(const char*f,...){ if(BADN++>20) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); }
enum { F_ALLOC, F_CALLOC, F_REALLOC, F_FREE, F_COPY, F_MOVE, F_EQ, F_SET, F_ZERO, F_ISZERO, F_OVERLAP };
#define L 20
static u8 X[L],Y[L]; static void fresh(void){ for(int i=0;i<L;i++) X[i]=Y[i]=i*11+3; }
int main(){ traps(); csp_main();
 u8*pg=mmap(0,12288,3,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(pg,4096,0); mprotect(pg+8192,4096,0);
 for(int side=0;side<2;side++){ u8*B=side?pg+8192-L:pg+4096; /* the buffer touches an inaccessible page on one side */
 for(int n=0;n<=L;n++) for(int d=0;d+n<=L;d++) for(int s=0;s+n<=L;s++){
  int ov=(d<=s&&d+n>s)||(s<=d&&s+n>d); EV+=3;
  fresh(); memcpy(B,X,L); memmove(Y+d,Y+s,n); TRYQ(((void*(*)(void*,void*,u64))F[F_MOVE])(B+d,B+s,n)); if(SIG||memcmp(B,Y,L)) no("memory::move of %d bytes from offset %d to %d %s",n,s,d,SIG?"traps":"gives other bytes than memmove");
  fresh(); memcpy(B,X,L); volatile i32 r=9; TRYQ(r=((i32(*)(void*,void*,u64))F[F_COPY])(B+d,B+s,n)); if(!ov) memcpy(Y+d,Y+s,n); if(SIG||memcmp(B,Y,L)||r!=(ov?-1:0)) no("memory::copy of %d bytes from offset %d to %d %s (result %d)",n,s,d,SIG?"traps":"is wrong",r);
  volatile u8 o=9; TRYQ(o=((u8(*)(void*,void*,u64))F[F_OVERLAP])(B+d,B+s,n)); if(SIG||o!=ov) no("memory::ptr_overlap(+%d, +%d, %d) is %d",d,s,n,o); }
 for(int n=0;n<=L;n++) for(int d=0;d+n<=L;d++) for(int v=0;v<260;v+=(v==1?126:1)){ EV+=2; fresh(); memcpy(B,X,L); memset(Y+d,v,n); TRYQ(((void(*)(void*,i32,u64))F[F_SET])(B+d,v,n)); if(SIG||memcmp(B,Y,L)) no("memory::set(+%d, %d, %d) is wrong",d,v,n);
   if(v==0){ fresh(); memcpy(B,X,L); memset(Y+d,0,n); TRYQ(((void(*)(void*,u64))F[F_ZERO])(B+d,n)); if(SIG||memcmp(B,Y,L)) no("memory::zero(+%d, %d) is wrong",d,n); } }
 for(int n=0;n<=L;n++) for(int at=-1;at<n;at++) for(int bit=0;bit<8;bit++){ EV+=2; fresh(); u8*b=B+(side?L-n:0); memcpy(b,X,n); if(at>=0) b[at]^=1<<bit; volatile u8 r=9; TRYQ(r=((u8(*)(void*,void*,u64))F[F_EQ])(b,X,n)); if(SIG||r!=(at<0)) no("memory::eq of %d bytes that %s gives %d",n,at<0?"are equal":"differ",r);
   memset(b,0,n); if(at>=0) b[at]=1<<bit; r=9; TRYQ(r=((u8(*)(void*,u64))F[F_ISZERO])(b,n)); if(SIG||r!=(at<0)) no("memory::is_zero of %d bytes with bit %d of byte %d set gives %d",n,bit,at,r); } }
 printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S05", title="std::memory blocks keep their contents; failures are reported, not fatal",
    statement="Under any sequence of alloc/calloc/realloc/free/make!, copy, move, set, zero and eq on two live blocks, live blocks never overlap, keep exactly the bytes stored in them (realloc keeps the common prefix, calloc gives zeros), can be used over their full requested size, and are returned to the system by free; free(nil) is harmless and realloc(nil, n) allocates. If the system refuses memory, at whichever request, alloc/calloc/realloc return nil and existing blocks stay intact. copy/move/set/zero/eq/is_zero/ptr_overlap agree with memcpy/memmove/memset/memcmp for every length and offset, touching nothing outside the given range; copy refuses overlapping ranges with -1 and changes nothing.",
    quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="all sequences over 28 operations on two blocks of sizes around a page up to length 5 (thorough 6), with the refusal of memory injected at every request; every (offset, offset, length) in a 20-byte buffer between guard pages"),
    why_tests_cant="The suite allocates a few blocks and never runs out of memory; a lost prefix or a missed failure needs a particular size, order or failing request.",
    anchors=dict(files=["src/std/memory.csp", "src/std/syscall.csp"], mechanism="std::memory::alloc/calloc/realloc/free/copy/move/eq/set/zero/is_zero"),
    technique="stateless model checking of the compiled library: exhaustive operation sequences with fault injection at every allocation against a reference model; exhaustive enumeration of block operations in a small buffer", level="exploration",
    level_note="Real compiled code; the mmap/munmap wrappers are replaced by an allocator with guard pages that can refuse any request. Bounds: depth, six sizes, buffer of 20 bytes.")


def run(chk, repo):
    seq.explore(chk, repo, "memory", CSP, REGS, MODEL, 6 if chk.thorough else 5)
    try:
        exe, wd, text = harness.build(repo, CSP, REGS, "#include <sys/mman.h>\n" + BLOCK)
    except harness.BuildFailure as b:
        chk.violation("block:build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("block:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("block:died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot)
    chk.cov["rule"] = "all sequences of enabled operations up to the depth; states counts distinct reference states; evaluations counts sequences and block operations"
