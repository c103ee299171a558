"""S06 - std::arena: blocks stay valid and disjoint until the arena is reset or freed."""
import seq

CSP = '''import "arena.csp";
type SA: std::Arena;
fn a_size(): u64 = sizeof SA;
fn a_init(a: &SA, b: i32): void { let n: SA = SA::{b, nil, nil}; *a = n; }
'''
REGS = ["std::arena::alloc", "std::arena::reset", "std::arena::free", "a_size", "a_init"]

MODEL = r'''
static u8 A[256]; static int HIST[16], NH, PREV[16], NP, PLIVE; /* sizes since the last reset or free; those before it, and the regions then held */ static struct { u8*p; u64 n; u8 s; } B[64]; static int NB, NEXT;
static u64 SZ[]={0,1,8,9,4000,40000,64768,64769,200000};
static void init(void){ NB=0; NH=NP=0; PLIVE=-1; NEXT=1; memset(A,0,sizeof A); EXPECT(((u64(*)(void))F[3])()<=sizeof A,"Arena too large"); ((void(*)(void*,i32))F[4])(A,BACKEND); }
static void check(void){ for(int k=0;k<NB&&!BAD;k++){ u8*p=B[k].p; u64 n=B[k].n; u8 s=B[k].s; u64 step=n>512?97:1; for(u64 i=0;i<n&&!BAD;i+=step) EXPECT(p[i]==(u8)(s+i*13),"byte %llu of the %d. live block (%llu bytes) changed",(unsigned long long)i,k+1,(unsigned long long)n); if(n) EXPECT(p[n-1]==(u8)(s+(n-1)*13),"the last byte of the %d. live block changed",k+1);
   for(int j=0;j<k&&!BAD;j++) if(n&&B[j].n) EXPECT(p+n<=B[j].p||B[j].p+B[j].n<=p,"the %d. and the %d. live block overlap",j+1,k+1); } }
enum { A0, A1, A8, A9, A4000, A40000, AEXACT, AOVER, AHUGE, RESET, FREE, NOPS };
static const char *opname(int o){ static const char *n[]={"alloc(0)","alloc(1)","alloc(8)","alloc(9)","alloc(4000)","alloc(40000)","alloc(64768)","alloc(64769)","alloc(200000)","reset","free"}; return n[o]; }
static int apply(int o){ if(o==RESET){ ((void(*)(void*))F[1])(A); NB=0; memcpy(PREV,HIST,sizeof HIST); NP=NH; NH=0; PLIVE=GLIVE; } else if(o==FREE){ ((void(*)(void*))F[2])(A); NB=0; NH=NP=0; PLIVE=-1; if(BACKEND==0) EXPECT(GLIVE==0,"%d regions are still mapped after free",GLIVE); }
 else { u64 n=SZ[o]; u8*p=((void*(*)(void*,u64))F[0])(A,n); EXPECT(p!=0,"alloc gives nil"); if(BAD) return 0; u8 s=NEXT++*29; for(u64 i=0;i<n;i++) p[i]=s+i*13; B[NB].p=p; B[NB].n=n; B[NB++].s=s; if(NH<16) HIST[NH++]=o; if(BACKEND==0&&PLIVE>=0&&NH<=NP&&!memcmp(HIST,PREV,NH*sizeof(int))) EXPECT(GLIVE<=PLIVE,"the same allocations after a reset need new regions (%d instead of %d)",GLIVE,PLIVE); }
 if(LAST) check(); return 0; }
static void fini(void){ ((void(*)(void*))F[2])(A); if(BACKEND==0) EXPECT(GLIVE==0,"%d regions are still mapped after free",GLIVE); }
static u64 state(void){ u64 h=7; for(int k=0;k<NB;k++) h=h*1000003+B[k].n+1; return h*2+(GLIVE&1); }
'''

PROP = dict(
    id="S06", title="Arena blocks are valid, disjoint and intact until reset or free",
    statement="For every sequence of arena::alloc, arena::reset and arena::free with either backend, every block returned since the last reset or free is non-nil, usable over its whole requested size, disjoint from all other live blocks and keeps its contents; sizes that exactly fill or exceed a region work; reset and free allow the arena to be used again, the allocations made before a reset can be repeated after it without new regions, and free returns all regions.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences over 9 allocation sizes (0 to more than three regions), reset and free up to length 5 (thorough 7), both backends"),
    why_tests_cant="No test uses the arena; overlaps need particular fill levels of regions before and after a reset.",
    anchors=dict(files=["src/std/arena.csp", "src/std/memory.csp"], mechanism="std::arena::alloc/new_region/reset/free"),
    technique="stateless model checking of the compiled library: exhaustive exploration of operation sequences against a reference model on an allocator with guard pages", level="exploration",
    level_note="Real compiled code runs every sequence. Bounds: depth and the set of sizes.")


def run(chk, repo):
    for b, name in ((0, "MMAP"), (1, "LIBC_MALLOC")):
        d = 7 if chk.thorough else 5
        seq.explore(chk, repo, name, CSP, REGS, "#define BACKEND %d\n" % b + MODEL, d if b == 0 else min(d, 6))
    chk.cov["rule"] = "all sequences of operations up to the depth; states counts distinct multisets of live block sizes, evaluations sequences"
