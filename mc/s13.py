"""S13 - std::random: the generator, its seeds and its states."""
import seq

CSP = '''import "random.csp";
'''
REGS = ["std::random::rand", "std::random::seed", "std::random::save_state", "std::random::load_state", "std::random::set_state", "std::random::init_state", "std::random::lcg32", "std::random::lcg64"]

MODEL = r'''
/* the additive feedback generator of the reference: n words of state behind one word holding n, i and j */
static u32 MI[32]={0x00000000,0x5851f42d,0xc0b18ccf,0xcbb5f646,0xc7033129,0x30705b04,0x20fd5db4,0x9a8b7f78,0x502959d8,0xab894868,0x6c0356a7,0x88cdb7ff,0xb477d43f,0x70a3a52b,0xa8e4baf1,0xfd8341fc,0x8ae16fd9,0x742d2f7a,0x0d1f0796,0x76035e09,0x40f7702c,0x6fa72ca5,0xaaa84157,0x58a0df74,0xc74a0364,0xae533cc4,0x04185faf,0x6de3b115,0x0cab8628,0xf043bfa4,0x398150e9,0x37521657};
static u32 *mx=MI+1; static int mn=31, mi=3, mj=0;
static i64 m_rand(void){ i64 k; if(mn==0) k=mx[0]=(1103515245u*mx[0]+12345u)&0x7fffffff; else { mx[mi]+=mx[mj]; k=mx[mi]>>1; if(++mi==mn)mi=0; if(++mj==mn)mj=0; } return k; }
static void m_seed(u32 s0){ u64 s=s0; if(mn==0){ mx[0]=s; return; } mi=mn==31||mn==7?3:1; mj=0; for(int k=0;k<mn;k++){ s=6364136223846793005ULL*s+1; mx[k]=s>>32; } mx[0]|=1; }
static u32*m_save(void){ mx[-1]=(mn<<16)|(mi<<8)|mj; return mx-1; }
static void m_load(u32*s){ mx=s+1; mn=mx[-1]>>16; mi=(mx[-1]>>8)&255; mj=mx[-1]&255; }
static u32*m_set(u32*s){ u32*o=m_save(); m_load(s); return o; }
static u32*m_init(u32 sd,u32*st,u64 size){ if(size<8) return 0; u32*o=m_save(); mn=size<32?0:size<64?7:size<128?15:size<256?31:63; mx=st+1; m_seed(sd); m_save(); return o; }
static const u64 SIZE[]={7,8,31,32,63,64,127,128,255,256,300};
static u32 RB[4][80], MB[4][80]; /* state buffers: of the library and of the model */
static u32*twin(u32*r){ for(int k=0;k<4;k++) if(r>=RB[k]&&r<RB[k]+80) return MB[k]+(r-RB[k]); return (u32*)r; }
static int have[4];
static void cmp(const char*when){ for(int k=0;k<4&&!BAD;k++) if(memcmp(RB[k],MB[k],sizeof RB[k])){ int i=0; while(RB[k][i]==MB[k][i]) i++; bad("%s: word %d of state %d is %x instead of %x",when,i,k,RB[k][i],MB[k][i]); } }
static void init(void){ static int first=1; if(first){ first=0; for(int i=0;i<200&&!BAD;i++){ i64 g=((i64(*)(void))F[0])(), w=m_rand(); EXPECT(g==w,"value %d of the unseeded generator is %lld instead of %lld",i+1,(long long)g,(long long)w); } }
  memset(RB,0,sizeof RB); memset(MB,0,sizeof MB); memset(have,0,sizeof have); ((void*(*)(u32,u32*,u64))F[5])(1,RB[3],128); m_init(1,MB[3],128); have[3]=1; }
enum { RAND1, RAND40, SEED0, SEED1, SEEDX, SAVE, LOAD0, LOAD1=LOAD0+2, SET0, SET3=SET0+2, INIT, NOPS=INIT+22 };
static const char *opname(int o){ static char b[8][60]; static int r; char*s=b[r++&7]; if(o<=RAND40) sprintf(s,"rand (%d times)",o==RAND1?1:40); else if(o<=SEEDX) sprintf(s,"seed(%u)",o==SEED0?0:o==SEED1?1u:0xdeadbeefu); else if(o==SAVE) sprintf(s,"save_state"); else if(o<SET0) sprintf(s,"load_state(%d)",o-LOAD0); else if(o<INIT) sprintf(s,"set_state(%d)",o-SET0); else sprintf(s,"init_state(7, %d, %d)",(o-INIT)/11,(int)SIZE[(o-INIT)%11]); return s; }
static void rnd(int n){ for(int i=0;i<n&&!BAD;i++){ i64 g=((i64(*)(void))F[0])(), w=m_rand(); EXPECT(g==w,"value %d is %lld instead of %lld",i+1,(long long)g,(long long)w); } }
static int apply(int o){
  if(o<=RAND40) rnd(o==RAND1?1:40);
  else if(o<=SEEDX){ u32 s=o==SEED0?0:o==SEED1?1u:0xdeadbeefu; ((void(*)(u32))F[1])(s); m_seed(s); }
  else if(o==SAVE){ u32*g=((u32*(*)(void))F[2])(), *w=m_save(); EXPECT(twin(g)==w,"save_state gives another state"); }
  else if(o<SET0){ int k=o-LOAD0; if(k==2) k=3; if(!have[k]) return 1; m_save(); ((u32*(*)(void))F[2])(); ((void(*)(u32*))F[3])(RB[k]); m_load(MB[k]); }
  else if(o<INIT){ int k=o-SET0; if(k==2) k=3; if(!have[k]) return 1; u32*g=((u32*(*)(u32*))F[4])(RB[k]), *w=m_set(MB[k]); EXPECT(twin(g)==w,"set_state gives another old state"); }
  else { int k=(o-INIT)/11; u64 n=SIZE[(o-INIT)%11]; u32*g=((u32*(*)(u32,u32*,u64))F[5])(7,RB[k],n), *w=m_init(7,MB[k],n); EXPECT(g?w&&twin(g)==w:!w,"init_state gives %s",g?"another old state":"nil"); if(w) have[k]=1; }
  if(LAST){ cmp("afterwards"); rnd(70); cmp("after 70 values"); ((u32*(*)(void))F[2])(); m_save(); cmp("after saving"); }
  return 0; }
static void fini(void){ }
static u64 state(void){ u64 h=mn*64+mi+(mx-&MB[0][0])*977; for(int k=0;k<4;k++) for(int i=0;i<3;i++) h=h*1000003+MB[k][i]; return h; }
'''

PROP = dict(
    id="S13", title="std::random is the deterministic generator of its seed and state",
    statement="The values of random::rand are determined by the state: they are those of the reference additive feedback generator (that of the C library musl, whose algorithm and initial table the module uses) from the first value of an unseeded program on, after seed with any seed, and after init_state with any state size (sizes below 8 bytes are refused with nil; 8 to 31, 63, 127, 255 and more bytes select 0, 7, 15, 31 and 63 words of state); save_state, set_state and load_state save and continue any state exactly, return the old one, write nothing outside the given buffer, and states do not influence one another.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences over 34 operations (rand once or 40 times, 3 seeds, save, load and set of 3 states, init_state of 2 buffers with 11 sizes) up to length 3 (thorough 4), followed by 70 more values; 200 values of the unseeded generator"),
    why_tests_cant="A wrong carry of indexes shows only after a wrap of the state and for single state sizes.",
    anchors=dict(files=["src/std/random.csp"], mechanism="std::random::*"),
    technique="stateless model checking of the compiled library: exhaustive exploration of operation sequences against a reference model", level="exploration",
    level_note="Real compiled code runs every sequence. Bounds: depth, alphabet of seeds and sizes.")


def run(chk, repo):
    seq.explore(chk, repo, "random", CSP, REGS, MODEL, 4 if chk.thorough else 3, guard=False)
    chk.cov["rule"] = "all sequences of operations up to the depth; states counts distinct generator states (all words of it), evaluations sequences"
