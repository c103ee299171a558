"""Exhaustive exploration of operation sequences on compiled csp code against a reference model.

The driver runs every sequence of enabled operations up to a depth on the real (compiled) code and on a model written in
C, from a fresh start each time, comparing after every operation.  The model supplies:
  NOPS, void init(void), void fini(void), int apply(int op)  (1: not enabled, 0: done), const char *opname(int op), u64 state(void)
and calls bad("fmt", ...) on a mismatch."""
import json
import core
import harness

PRE = r'''
#include <stdarg.h>
#include <sys/wait.h>
#include <sys/mman.h>
static char MSG[4000]; static int BAD; static volatile int LAST; /* the sequence ends with this operation (its prefixes are explored on their own) */
static void bad(const char*f,...){ if(BAD++) return; va_list a; va_start(a,f); vsnprintf(MSG,sizeof MSG,f,a); va_end(a); }
#define EXPECT(x,...) do{ if(!(x)) bad(__VA_ARGS__); }while(0)
'''
POST = r'''
struct tot { u64 seqs, trans, states, depth, viol; };
static struct tot *TOT;
static u64 *SEEN; /* shared between the workers */
static void see(u64 h){ h*=0x9E3779B97F4A7C15ULL; h^=h>>29; h*=0xBF58476D1CE4E5B9ULL; u64 i=h>>44; for(int k=0;k<64;k++){ u64 *p=&SEEN[(i+k)&((1<<20)-1)]; u64 o=*p; if(o==h)return; if(!o){ if(__sync_bool_compare_and_swap(p,0,h)) __sync_fetch_and_add(&TOT->states,1); return;} } }
static int run(int *s,int n){ /* -> index of the first operation that is not enabled, n if all were, -1 violation */
  BAD=0; MSG[0]=0; volatile int i=0; volatile int dis=-1; volatile int trapped=0;
  TRY(10, { GRESET; init(); for(i=0;i<n;i++){ LAST=i==n-1; if(apply(s[i])){ dis=i; break; } __sync_fetch_and_add(&TOT->trans,1); see(state()); if(BAD) break; } if(dis<0&&!BAD){ fini(); } } );
  if(SIG) { bad("signal %d (%s)",SIG,SIG==SIGVTALRM?"does not terminate":"trap"); trapped=1; }
  if(dis>=0&&!BAD) return dis;
  if(BAD){ flockfile(stdout); printf("BAD "); for(int k=0;k<=i&&k<n;k++) printf("%s%s",k?" ; ":"",opname(s[k])); printf(" => %s\n",MSG); fflush(stdout); funlockfile(stdout); __sync_fetch_and_add(&TOT->viol,1); return -2-(i<n?i:n-1); }
  return n; }
static void explore_depth(int n,int w,int W){ int s[64]={0}; u64 c=0; int p=0;
  for(;;){
    int pre=n>=2?s[0]*NOPS+s[1]:s[0]; int adv=n-1;
    if(pre%W==w){ int r=run(s,n); __sync_fetch_and_add(&TOT->seqs,1);
      if(r<0) { adv=-2-r; if(TOT->viol>8) return; } else if(r<n) adv=r; }
    else adv=n>=2?1:0;
    int i=adv; for(int k=i+1;k<n;k++) s[k]=0;
    while(i>=0&&++s[i]>=NOPS){ s[i]=0; i--; }
    if(i<0) return; } }
int main(int argc,char**argv){ int D=atoi(argv[1]), W=atoi(argv[2]); TOT=mmap(0,4096,3,MAP_SHARED|MAP_ANONYMOUS,-1,0); SEEN=mmap(0,8<<20,3,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  traps(); csp_main(); GSTART; setvbuf(stdout,0,_IOLBF,0);
  for(int d=1;d<=D;d++){ fflush(stdout); for(int w=0;w<W;w++) if(!fork()){ explore_depth(d,w,W); fflush(stdout); _exit(0); }
    int st; pid_t p; while((p=wait(&st))>0) if(st) { printf("BAD worker died => status %x at depth %d\n",st,d); TOT->viol++; }
    TOT->depth=d; if(TOT->viol) break; }
  printf("TOTAL %llu %llu %llu %llu\n",(unsigned long long)TOT->seqs,(unsigned long long)TOT->trans,(unsigned long long)TOT->states,(unsigned long long)TOT->depth); return 0; }
'''


def explore(chk, repo, key, csp, regs, model, depth, timeout=800, flags=(), cflags=(), guard=True):
    try:
        if guard:
            regs = list(regs) + harness.GUARD_REGS
            model = harness.GUARD_C + "#define GRESET g_reset()\n#define GSTART g_start(%d)\n" % (len(regs) - 2) + model
        else:
            model = "#define GRESET\n#define GSTART\n" + model
        exe, wd, text = harness.build(repo, csp, regs, PRE + model + POST, flags=flags, cflags=cflags)
    except harness.BuildFailure as b:
        chk.violation(key + ":build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=timeout, args=(str(depth), "8"))
    tot = None
    seen = set()
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("BAD "):
            s, _, m = line[4:].partition(" => ")
            k = key + ":" + s
            if k in seen:
                continue
            seen.add(k)
            chk.violation(k, "%s: after the operations `%s`: %s" % (key, s, m), {"csp": text, "operations": s, "observed": m})
        elif line.startswith("TOTAL"):
            tot = [int(x) for x in line.split()[1:]]
    core.rmdir(wd)
    if tot is None:
        chk.violation(key + ":died", "%s: exploration ended abnormally rc=%s %s %s" % (key, rc, o[-300:], e[-300:]), {"csp": text})
        return
    chk.add("evaluations", tot[0])
    chk.add("transitions", tot[1])
    chk.add("states", tot[2])
    chk.add("distinct_nontrivial", tot[2])
    chk.cov.setdefault("depth", {})[key] = tot[3]
    chk.sample({"exploration": key, "depth": tot[3], "sequences": tot[0], "states": tot[2]})
