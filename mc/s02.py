"""S02 - std::hashmap behaves as a finite map under every sequence of operations."""
import core
import seq

# key type -> (declarations, key from an index (C: i64), identity of a key)
KEYS = {
    "i8": ("", "(k: i8)", "(k: i64)"), "i32": ("", "(k: i32)", "(k: i64)"), "u64": ("", "(k: u64)", "(k: i64)"), "u16": ("", "(k: u16)", "(k: i64)"),
    "K": ("type K: struct { a: i32, b: i32 };\n", "K::{k: i32, (k * 7): i32}", "(if k.b == k.a * 7 => (k.a: i64) else -1: i64)"),
    "&char": ('extern "C" fn kstr(k: i64): &char; extern "C" fn knum(s: &char): i64;\n', "kstr(k)", "knum(k)"),
}
VALS = {
    "i8": ("", "(v: i8)", "(v: i64)"), "i32": ("", "(v: i32)", "(v: i64)"), "i64": ("", "v", "v"), "f64": ("", "(v: f64)", "(v: i64)"),
    "V": ("type V: struct { a: i64, b: i8, c: i64 };\n", "V::{v, v: i8, v * 5}", "(if v.c == v.a * 5 && (v.b: i64) == v.a => v.a else -1: i64)"),
}


def csp(kt, vt):
    kd, kmk, kid = KEYS[kt]
    vd, vmk, vid = VALS[vt]
    scalar = vt != "V"
    return 'import "hashmap.csp";\nimport "vec.csp";\n' + kd + vd + """type Map: hashmap!{%(kt)s, %(vt)s};
fn kmk(k: i64): %(kt)s = %(kmk)s;
fn kid(k: %(kt)s): i64 = %(kid)s;
fn vmk(v: i64): %(vt)s = %(vmk)s;
fn vid(v: %(vt)s): i64 = %(vid)s;
fn m_size(): u64 = sizeof Map;
fn m_init(m: &Map): void { hashmap_init!(m); }
fn m_put(m: &Map, k: i64, v: i64): void { hashmap_put!(m, kmk(k), vmk(v)); }
fn m_get(m: &Map, k: i64, found: &i32): i64 {
    let key = kmk(k);
    let p: &%(vt)s = std::hashmap::get(m: &std::hashmap::Template, (&key): &u8);
    if p == nil { *found = 0; ret 0; }
    *found = 1;
    <- vid(*p);
}
fn m_getm(m: &Map, k: i64): i64 { %(getm)s }
fn m_num(m: &Map): u64 = m.data.size;
fn m_keys(m: &Map, out: &i64): u64 { let ks = hashmap_keys!(m); let n: u64 = vec_size!(ks); for let i: u64 = 0; i < n; i++; { out[i] = kid(ks[i]); } std::vec::free(ks); <- n; }
fn m_vals(m: &Map, out: &i64): u64 { let vs = hashmap_values!(m); let n: u64 = vec_size!(vs); for let i: u64 = 0; i < n; i++; { out[i] = vid(vs[i]); } std::vec::free(vs); <- n; }
fn m_free(m: &Map): void { hashmap_free!(m); }
""" % dict(kt=kt, vt=vt, kmk=kmk, kid=kid, vmk=vmk, vid=vid, getm=("<- vid(hashmap_get!(m, kmk(k)));" if scalar else "<- -1;"))


REGS = "m_size m_init m_put m_get m_getm m_num m_keys m_vals m_free".split()

MODEL = r'''
typedef u64(*f_size)(void); typedef void(*f_init)(void*); typedef void(*f_put)(void*,i64,i64); typedef i64(*f_get)(void*,i64,i32*); typedef i64(*f_getm)(void*,i64); typedef u64(*f_num)(void*); typedef u64(*f_vec)(void*,i64*);
#ifdef STRKEYS
/* a different pointer on every call, the same characters for the same number */
static char KB[1<<16]; static int KP;
char *kstr(i64 k){ if(KP>60000) KP=0; char *s=KB+KP; s[0]=0; if(k) sprintf(s,k%3==0?"%lld":k%3==1?"key%lld":"%lldlonger key",(long long)k); KP+=strlen(s)+1; char *d=malloc(strlen(s)+1); strcpy(d,s); return d; }
i64 knum(char *s){ while(*s&&(*s<'0'||*s>'9')) s++; return strtoll(s,0,10); }
#endif
static char MAP[256]; static i64 MV[KSPACE]; static u8 MH[KSPACE]; static int NUM; static int live; static i64 NEXT;
/* keys that share a slot of the initial table and one that belongs to its last slot */
static u64 hb(i64 k){ u64 h=0; for(int i=0;i<KBYTES;i++){ h+=(u8)(k>>(8*i)); h+=h<<10; h^=h>>6; } h+=h<<3; h^=h>>11; h^=h<<15; return h; }
static i64 KEY[6]; static int picked;
static void pick(void){ if(picked) return; picked=1; KEY[0]=0; KEY[1]=1; KEY[2]=2; KEY[3]=3; KEY[4]=4; KEY[5]=5;
  for(i64 k=1;k<KUSE;k++) if((hb(k)&31)==31){ KEY[1]=k; for(i64 j=k+1;j<KUSE;j++) if((hb(j)&31)==31){ KEY[2]=j; break; } break; }
  for(i64 k=1;k<KUSE;k++) if((hb(k)&31)==0&&k!=KEY[1]&&k!=KEY[2]){ KEY[3]=k; break; }
  for(i64 k=1;k<KUSE;k++) if((hb(k)&31)==(hb(0)&31)&&k!=KEY[1]&&k!=KEY[2]&&k!=KEY[3]){ KEY[4]=k; break; }
  KEY[5]=KUSE-1; }
static void init(void){ pick(); memset(MAP,0,sizeof MAP); memset(MH,0,sizeof MH); NUM=0; NEXT=0; live=0; EXPECT(((f_size)F[0])()<=sizeof MAP,"map too large"); }
static void put(i64 k){ i64 v=(NEXT++)%19+1; ((f_put)F[2])(MAP,k,v); if(!MH[k]) NUM++; MH[k]=1; MV[k]=v; }
static int cmp(const void*a,const void*b){ i64 x=*(i64*)a,y=*(i64*)b; return x<y?-1:x>y; }
static void compare(void){ if(!LAST) return; if(!live) return; EXPECT(((f_num)F[5])(MAP)==NUM,"the map counts %llu entries instead of %d",(unsigned long long)((f_num)F[5])(MAP),NUM);
  for(i64 k=0;k<KUSE&&!BAD;k++){ i32 f=-1; i64 v=((f_get)F[3])(MAP,k,&f); EXPECT(f==MH[k],"key %lld %s",(long long)k,MH[k]?"is lost":"appears although it was never put"); if(f==1&&MH[k]) EXPECT(v==MV[k],"the value of key %lld is %lld instead of %lld",(long long)k,(long long)v,(long long)MV[k]);
#ifdef GETM
   v=((f_getm)F[4])(MAP,k); EXPECT(v==(MH[k]?MV[k]:0),"hashmap_get of key %lld is %lld instead of %lld",(long long)k,(long long)v,(long long)(MH[k]?MV[k]:0));
#endif
  }
  if(BAD) return; static i64 a[1024],b[1024]; int n=((f_vec)F[6])(MAP,a); EXPECT(n==NUM,"hashmap_keys has %d elements instead of %d",n,NUM); if(BAD) return; qsort(a,n,8,cmp); int j=0; for(i64 k=0;k<KUSE;k++) if(MH[k]) { EXPECT(a[j]==k,"hashmap_keys misses key %lld",(long long)k); j++; }
  n=((f_vec)F[7])(MAP,a); EXPECT(n==NUM,"hashmap_values has %d elements instead of %d",n,NUM); if(BAD) return; qsort(a,n,8,cmp); j=0; for(i64 k=0;k<KUSE;k++) if(MH[k]) b[j++]=MV[k]; qsort(b,j,8,cmp); for(int i=0;i<j;i++) EXPECT(a[i]==b[i],"hashmap_values has other values than were put"); }
enum { INIT, PUT0, PUT1, PUT2, PUT3, PUT4, PUT5, FILL, OVER, BIG, FREE, NOPS };
static const char *opname(int o){ static char b[16][40]; static const char *n[]={"hashmap_init","","","","","","","put until 31 entries","put until 33 entries","put until 70 entries","hashmap_free"}; if(o>=PUT0&&o<=PUT5){ sprintf(b[o],"put key %lld",(long long)KEY[o-PUT0]); return b[o]; } return n[o]; }
static int apply(int o){ if(o==INIT){ if(live) return 1; ((f_init)F[1])(MAP); live=1; compare(); return 0; } if(!live) return 1;
  if(o>=PUT0&&o<=PUT5) put(KEY[o-PUT0]);
  else if(o==FREE){ ((f_init)F[8])(MAP); live=0; memset(MH,0,sizeof MH); NUM=0; return 0; }
  else { int to=o==FILL?31:o==OVER?33:70; if(NUM>=to) return 1; for(i64 k=1;k<KUSE&&NUM<to;k++) if(!MH[k]) put(k); }
  compare(); return 0; }
static void fini(void){ if(live) ((f_init)F[8])(MAP); EXPECT(GLIVE==0,"%d memory blocks are still allocated after hashmap_free",GLIVE); }
static u64 state(void){ u64 h=live; for(int k=0;k<KUSE;k++) if(MH[k]) h=h*1000003+k*31+MV[k]; return h; }
'''

PROP = dict(
    id="S02", title="std::hashmap is a finite map under any sequence of operations",
    statement="After any sequence of hashmap_init!, hashmap_put! and hashmap_free!, the map holds exactly the keys put since the last init, each with the value put last (overwriting does not add an entry), whatever the keys are (including keys that are all zero bytes, colliding keys and, for &char keys, equal strings at different addresses); data.size counts the entries, hashmap_get! of an absent key gives 0 (hashmap::get: nil), hashmap_keys!/hashmap_values! list every entry once, growing loses nothing, no memory outside the map's blocks is touched, and hashmap_free! releases them all.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences of init, puts of six keys (zero, colliding, last-slot and wrap-around keys), bulk puts to 31, 33 and 70 entries and free up to length 5 or 6 (thorough one more), for ten key/value type combinations of different sizes and paddings"),
    why_tests_cant="The suite never uses the hashmap; losing an entry needs a particular combination of collisions, wrap-around and growth.",
    anchors=dict(files=["src/std/hashmap.csp", "src/std/algorithm.csp", "src/std/memory.csp"], mechanism="std::hashmap::put/get/find_index/grow/rehash/keys/values and the hashmap_* macros"),
    technique="stateless model checking of the compiled library: exhaustive exploration of operation sequences against a reference map, observing every key of the key space after each operation", level="exploration",
    level_note="Real compiled code runs every sequence over an allocator whose blocks end at guard pages. Bounds: depth, key space of 120 keys, value stream.")

COMBOS = [("i32", "i32"), ("i8", "i64"), ("u64", "i8"), ("i8", "V"), ("&char", "i32"), ("&char", "V"), ("K", "f64"), ("u16", "i32"), ("u64", "i64"), ("K", "V")]
BYTES = {"i8": 1, "i32": 4, "u64": 8, "u16": 2, "K": 8, "&char": 0}


def run(chk, repo):
    for i, (kt, vt) in enumerate(COMBOS):
        depth = (7 if i == 0 else 6) if chk.thorough else (6 if i == 0 else 5)
        defs = "#define KSPACE 256\n#define KUSE 120\n#define KBYTES %d\n" % BYTES[kt]
        if kt == "&char":
            defs += "#define STRKEYS\n"
        if vt != "V":
            defs += "#define GETM\n"
        seq.explore(chk, repo, "%s->%s" % (kt, vt), csp(kt, vt), REGS, defs + MODEL, depth)
    chk.cov["rule"] = "all sequences of enabled operations up to the depth; states counts distinct reference map states, evaluations sequences"
