"""S14 - std::regex: patterns match what they describe."""
import core
import harness

CSP = '''import "regex.csp";
fn r_match(p: &const char, t: &const char, out: &i32): void { let m = std::regex::matches(p, t); out[0] = m.index; out[1] = m.length; }
fn r_again(p: &std::Regex, t: &const char, out: &i32): void { let m = std::regex::match_pattern(p, t); out[0] = m.index; out[1] = m.length; }
'''
REGS = ["r_match", "r_again", "std::regex::compile", "std::regex::print", "std::syscall::write"]

DRV = r'''
#include <sys/wait.h>
#include <sys/mman.h>
static char OUT[4096]; static int ON; static i64 fake_write(i32 fd,const char*b,u64 n){ if(fd!=1||ON+n>=sizeof OUT) return -9; memcpy(OUT+ON,b,n); ON+=n; OUT[ON]=0; return n; }
static void patch(void *f, void *g) { mprotect((void *)((u64)f & ~4095ULL), 8192, 7); u8 *c = f; c[0] = 0x48; c[1] = 0xb8; memcpy(c + 2, &g, 8); c[10] = 0xff; c[11] = 0xe0; }
typedef struct { int kind; /* 0 char, 1 dot, 2 class, 3 digit.. */ const char*src; int q; } el;
static int word(int c){ return c=='_'||(c>='0'&&c<='9')||((c|32)>='a'&&(c|32)<='z'); } static int sp(int c){ return c==' '||(c>=9&&c<=13); } static int dg(int c){ return c>='0'&&c<='9'; }
static int meta(int m,int c){ switch(m){ case 'd': return dg(c); case 'D': return !dg(c); case 'w': return word(c); case 'W': return !word(c); case 's': return sp(c); case 'S': return !sp(c); default: return c==m; } }
static int one(const char*s,int c){ if(*s=='.') return c!='\n'&&c!='\r'; if(*s=='\\') return meta(s[1],c);
  if(*s!='[') return c==*s; int inv=0,hit=0; s++; if(*s=='^'){ inv=1; s++; } const char*b=s;
  while(*s!=']'){ if(*s=='\\'){ if(meta(s[1],c)) hit=1; s+=2; } else if(s[1]=='-'&&s[2]!=']'){ if(c>=*s&&c<=s[2]) hit=1; s+=3; } else { if(c==*s) hit=1; s++; } }
  return hit!=inv; }
static const char *E[16]; static int Q[16]; static int NE, EOL;
static const char *m_(int k,const char*t){ /* the end of the preferred match of elements k.. at t, or 0 */
  if(k==NE) return !EOL||!*t?t:0; const char*r; int q=Q[k];
  if(q=='*'||q=='+'){ const char*e=t; while(*e&&one(E[k],(u8)*e)) e++; for(;e>=t+(q=='+');e--) if((r=m_(k+1,e))) return r; return 0; }
  if(q=='?'){ if((r=m_(k+1,t))) return r; return *t&&one(E[k],(u8)*t)?m_(k+1,t+1):0; }
  return *t&&one(E[k],(u8)*t)?m_(k+1,t+1):0; }
static u64 EV,NB,POS; static void no(const char*f,...){ if(NB++>6) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static char TX[100000][8]; static int NT_;
static int BOL; static char P[256];
static void mk(void){ char*p=P; if(BOL) *p++='^'; for(int i=0;i<NE;i++){ p=stpcpy(p,E[i]); if(Q[i]) *p++=Q[i]; } if(EOL) *p++='$'; *p=0; }
static void test(void){ mk(); void*volatile re=0; TRYQ(re=((void*(*)(char*))F[2])(P)); if(SIG||!re){ no("compile(\"%s\") %s",P,SIG?"traps":"fails"); return; }
  { char w[4096],*p=w; if(BOL) p+=sprintf(p,"BEGIN\n"); for(int i=0;i<NE;i++){ const char*e=E[i]; if(*e=='.') p+=sprintf(p,"DOT\n"); else if(*e=='[') p+=sprintf(p,"%s [%s\n",e[1]=='^'?"INV_CHAR_CLASS":"CHAR_CLASS",e+1+(e[1]=='^')); else if(*e=='\\'&&strchr("dDwWsS",e[1])) p+=sprintf(p,"%s\n",e[1]=='d'?"DIGIT":e[1]=='D'?"NOT_DIGIT":e[1]=='w'?"ALPHA":e[1]=='W'?"NOT_ALPHA":e[1]=='s'?"WHITESPACE":"NOT_WHITESPACE"); else p+=sprintf(p,"CHAR '%c'\n",*e=='\\'?e[1]:*e); if(Q[i]) p+=sprintf(p,"%s\n",Q[i]=='*'?"STAR":Q[i]=='+'?"PLUS":"QUESTIONMARK"); } if(EOL) p+=sprintf(p,"END\n");
    if(NE<3){ ON=0; OUT[0]=0; EV++; TRYQ(((void(*)(void*))F[3])(re)); if(SIG||strcmp(OUT,w)){ no("print of /%s/ %s: %s instead of %s",P,SIG?"traps":"writes something else",OUT,w); return; } } }
  for(int k=0;k<NT_;k++){ const char*t=TX[k]; int wi=-1,wl=0; const char*r; 
    if(BOL){ if((r=m_(0,t))){ wi=0; wl=r-t; } } else for(int i=0;t[i];i++) if((r=m_(0,t+i))){ wi=i; wl=r-t-i; break; }
    i32 o[2]={77,77}; EV++; POS+=wi>=0; TRYQ(((void(*)(void*,const char*,i32*))F[1])(re,t,o)); 
    if(SIG||o[0]!=wi||(wi>=0&&o[1]!=wl)) { if(SIG) no("match of /%s/ in \"%s\" traps (%d)",P,t,SIG); else no("match of /%s/ in \"%s\" is at %d of length %d instead of at %d of length %d",P,t,o[0],o[1],wi,wl); if(NB>6) return; } } }
static const char*AT[]={"a","b",".","[ab]","[^a]","\\d","\\w","\\W","\\s","\\S","\\D","[a-c]","[^\\d-]","[-b]","\\.","[\\w]","[0-9_]","[^a-b1]","_","[\\s\\-a]","[\\W]","[\\D]","[\\S]","[^\\s]","[^\\W_]","[x\\d]"};
static const int QS[]={0,'*','+','?'};
static void texts(const char*al,int n){ NT_=0; int b=strlen(al); for(int l=0;l<=n;l++){ int c=1; for(int i=0;i<l;i++)c*=b; for(int x=0;x<c;x++){ int y=x; for(int i=0;i<l;i++){ TX[NT_][i]=al[y%b]; y/=b; } TX[NT_++][l]=0; } } }
static void all(int n,int na,int w){ NE=n; int tot=1; for(int i=0;i<n;i++) tot*=na*4; for(int x=0;x<tot;x++){ if(x%8!=w) continue; int y=x; for(int i=0;i<n;i++){ E[i]=AT[y%na]; y/=na; Q[i]=QS[y%4]; y/=4; } for(int a=0;a<4;a++){ BOL=a&1; EOL=a>>1; if(!n&&a<2) continue; test(); if(NB>6) return; } } }
int main(int argc,char**argv){ int thorough=atoi(argv[1]); traps(); csp_main(); patch(F[4],fake_write);
  for(int w=0;w<8;w++){ fflush(stdout); if(!fork()){
    texts("ab1 _.-\nB",3); all(1,20,w); texts("ab1 _-",3); all(2,20,w); texts("ab1",4); all(3,thorough?20:9,w); texts("ab",5); all(4,thorough?6:4,w); texts("ab",6); all(5,thorough?3:2,w);
    printf("PART %llu %llu\n",(unsigned long long)EV,(unsigned long long)POS); fflush(stdout); _exit(0); } }
  int st; while(wait(&st)>0) if(st) no("a worker died (%x)",st);
  /* every byte value against every atom */
  NE=1; BOL=1; EOL=1; Q[0]=0; for(int a=0;a<26;a++){ E[0]=AT[a]; NT_=0; for(int c=1;c<256;c++){ TX[NT_][0]=c; TX[NT_++][1]=0; } test(); }
  /* long patterns and classes; the pattern compiled last is the one that is used */
  static char big[3000]; for(int n=1;n<=1000;n+=n<20?1:49){ big[0]='['; memset(big+1,'x',n); big[n]='y'; strcpy(big+n+1,"]"); NE=1; E[0]=big; BOL=EOL=0; i32 o[2]={9,9}; EV++; TRYQ(((void(*)(char*,char*,i32*))F[0])(big,"aby",o)); if(SIG||o[0]!=2||o[1]!=1) no("a class of %d characters does not match its last one",n); 
    memset(big,'x',n); big[n]=0; static char tx[3000]; strcpy(tx,"ab"); strcat(tx,big); EV++; TRYQ(((void(*)(char*,char*,i32*))F[0])(big,tx,o)); if(SIG||o[0]!=2||o[1]!=n) no("a pattern of %d characters gives index %d and length %d",n,o[0],o[1]); tx[n+1]='z'; EV++; TRYQ(((void(*)(char*,char*,i32*))F[0])(big,tx,o)); if(SIG||o[0]!=-1) no("a pattern of %d characters matches another text",n); }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
'''

PROP = dict(
    id="S14", title="A regular expression matches exactly the texts it describes, leftmost first",
    statement="For every pattern of characters, `.` (anything but line ends), classes [..] and [^..] with ranges and escapes, \\d \\D \\w (letters, digits and _) \\W \\s \\S and escaped characters, each with an optional *, + or ?, with an optional ^ at its beginning and $ at its end, and every text: regex::matches and match_pattern give the leftmost index before the end of the text at which the pattern matches (-1 if there is none; with ^ only index 0, also of the empty text), together with the length of the match, where * and + take as many characters and ? as few as the rest of the pattern allows, the earlier elements first. Patterns and classes of up to 1000 characters work, and compiling or matching one pattern does not depend on earlier ones. regex::print writes the kind of each element of a pattern in order, with the character or class it stands for.",
    quantifier=dict(over=["inputs", "histories"], text="all patterns of up to 2 elements from 20 (of 26) atoms and 4 quantifiers with all anchors against all texts of up to 3 characters from 6; all patterns of 3 elements from 9 (thorough 20) atoms against all texts up to length 4 from 3; all of 4 elements from 4 (thorough 6) and of 5 from 2 (thorough 3) against all texts up to length 5 and 6 from 2; every byte against every atom; the patterns are compiled one after another in the same program"),
    why_tests_cant="Backtracking and length bookkeeping fail for single combinations of quantifiers and texts.",
    anchors=dict(files=["src/std/regex.csp", "src/std/character.csp"], mechanism="std::regex::compile, match_pattern, matches"),
    technique="bounded exhaustive exploration of the compiled library: all patterns and texts up to a size, compared with a reference matcher", level="exploration",
    level_note="Real compiled code. Patterns outside of the grammar above (misplaced anchors, a quantifier without an element, an incomplete class) are not looked at. Bounds: sizes and alphabets.")


def run(chk, repo):
    try:
        exe, wd, text = harness.build(repo, CSP, REGS, DRV)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, args=("1" if chk.thorough else "0",), timeout=850)
    tot, part, pos = None, 0, 0
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("regex:" + line[2:], line[2:], {"csp": text, "observed": line})
        elif line.startswith("PART"):
            part += int(line.split()[1])
            pos += int(line.split()[2])
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    else:
        chk.add("evaluations", tot + part)
        chk.add("distinct_nontrivial", pos)
        chk.sample({"pattern and text pairs": part, "of them matching": pos})
    chk.cov["rule"] = "one evaluation per pattern and text; distinct_nontrivial counts the pairs that match"
