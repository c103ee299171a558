"""S09 - std::error: the current error and the names and numbers of errors."""
import core
import harness
import seq

CSP = '''import "error.csp";
fn e_new(k: i32, m: &const char, out: &i64): void { let e = std::error::new(k: std::Errno, m); out[0] = (e.kind: i64); out[1] = (e.msg: i64); }
fn e_set(k: i32, m: &char, out: &i64): void { let a: std::Error = std::Error::{k: std::Errno, m}; let e = std::error::set(a); out[0] = (e.kind: i64); out[1] = (e.msg: i64); }
fn e_none(out: &i64): void { let e = std::error::none(); out[0] = (e.kind: i64); out[1] = (e.msg: i64); }
fn e_clear(out: &i64): void { let e = std::error::clear(); out[0] = (e.kind: i64); out[1] = (e.msg: i64); }
fn e_current(out: &i64): void { let e = std::error::current(); out[0] = (e.kind: i64); out[1] = (e.msg: i64); }
'''
REGS = ["e_new", "e_set", "e_none", "e_clear", "e_current", "std::error::is_some"]
MODEL = r'''
static const i32 K[]={0,1,22,133,134,136,-5}; static const char *M[]={0,"m",""}; static i64 CK, CM;
static void init(void){ i64 o[2]; ((void(*)(i64*))F[2])(o); CK=0; CM=0; }
static void fini(void){}
enum { NEW=0, SET=21, NONE=42, CLEAR, CURRENT, IS_SOME, NOPS };
static const char *opname(int o){ static char b[8][60]; static int r; char*s=b[r++&7]; if(o<NONE) sprintf(s,"%s(%d, %s)",o<SET?"new":"set",K[o%21/3],M[o%3]?o%3==1?"\"m\"":"\"\"":"nil"); else strcpy(s,o==NONE?"none":o==CLEAR?"clear":o==CURRENT?"current":"is_some"); return s; }
static int apply(int o){ i64 r[2]={99,99}, wk, wm;
  if(o<NONE){ i32 k=K[o%21/3]; const char*m=M[o%3]; ((void(*)(i32,const char*,i64*))F[o<SET?0:1])(k,m,r); CK=k; CM=(i64)m; wk=CK; wm=CM; }
  else if(o==NONE){ ((void(*)(i64*))F[2])(r); wk=wm=CK=CM=0; }
  else if(o==CLEAR){ ((void(*)(i64*))F[3])(r); wk=CK; wm=CM; CK=CM=0; }
  else if(o==CURRENT){ ((void(*)(i64*))F[4])(r); if(!CK) CM=0; wk=CK; wm=CM; }
  else { bool b=((bool(*)(void))F[5])(); EXPECT(b==(CK!=0),"is_some gives %d while the current error is %lld",b,(long long)CK); return 0; }
  EXPECT(r[0]==wk&&r[1]==wm,"gives kind %lld and message %llx instead of %lld and %llx",(long long)r[0],(long long)r[1],(long long)wk,(long long)wm); return 0; }
static u64 state(void){ return CK*1000+CM+77; }
'''

NAMES = "NONE PERM NOENT SRCH INTR IO NXIO TOOBIG NOEXEC BADF CHILD AGAIN NOMEM ACCESS EFAULT NOTBLK BUSY EXIST XDEV NODEV NOTDIR ISDIR INVAL NFILE MFILE NOTTY TXTBSY FBIG NOSPC SPIPE ROFS MLINK PIPE DOM RANGE DEADLK NAMETOOLONG NOLCK NOSYS NOTEMPTY LOOP WOULDBLOCK NOMSG IDRM CHRNG L2NSYNC L3HLT L3RST LNRNG UNATCH NOCSI L2HLT BADE BADR XFULL NOANO BADRQC BADSLT DEADLOCK BFONT NOSTR NODATA TME NOSR NONET NOPKG REMOTE NOLINK ADV SRMNT COMM PROTO MULTIHOP DOTDOT BADMSG OVERFLOW NOTUNIQ BADFD REMCHG LIBACC LIBBAD LIBSCN LIBMAX LIBEXEC ILSEQ RESTART STRPIPE USERS NOTSOCK DESTADDRREQ MSGSIZE PROTOTYPE NOPROTOOPT PROTONOSUPPORT SOCKTNOSUPPORT OPNOTSUPP NOTSUP PFNOSUPPORT AFNOSUPPORT ADDRINUSE ADDRNOTAVAIL NETDOWN NETUNREACH NETRESET CONNABORTED CONNRESET NOBUFS ISCONN NOTCONN SHUTDOWN TOOMANYREFS TIMEDOUT CONNREFUSED HOSTDOWN HOSTUNREACH ALREADY INPROGRESS STALE UCLEAN NOTNAM NAVAIL INAM REMOTEIO DQUOT NOMEDIUM MEDIUMTYPE CANCELED NOKEY KEYEXPIRED KEYREVOKED KEYREJECTED OWNERDEAD NOTRECOVERABLE RFKIL HWPOISON".split()
CNAME = {"TOOBIG": "E2BIG", "ACCESS": "EACCES", "EFAULT": "EFAULT", "PFNOSUPPORT": "EPFNOSUPPORT", "CANCELED": "ECANCELED", "RFKIL": "ERFKILL", "TME": "ETIME", "INAM": "EISNAM", "NONE": "0"}
STRS = {0: "none", 22: "invalid", 5: "input/output", 134: "nil pointer", 9: "bad file descriptor", 20: "not a directory", 135: "index out of bounds", 136: "failed assertion", 10: "child"}

PROP = dict(
    id="S09", title="std::error reports the last error set, and errors have their right numbers",
    statement="For every sequence of error::new, set, none, clear, current and is_some: new and set make their kind and message the current error and return it, none and clear remove it (clear returns the previous one), current returns the error last set (kind NONE and message nil if there is none), and is_some tells whether the current kind is not NONE. Every Errno constant has the number of the operating system's errno of that name (NILPTR, INDEXOUTOFBOUNDS and ASSERT follow HWPOISON), and error::str gives the fixed text of the nine kinds that have one, for the number and its negation, and \"<unknown>\" for all others.",
    quantifier=dict(over=["histories", "inputs"], text="all sequences over 46 operations (7 kinds times 3 messages for new and set) up to length 4 (thorough 5); all Errno constants; error::str for all numbers from -5000 to 5000"),
    why_tests_cant="The state of one operation shows in later ones; a shifted enumeration gives wrong numbers only from some member on.",
    anchors=dict(files=["src/std/error.csp"], mechanism="std::error::*, std::Errno"),
    technique="explicit-state exploration of the compiled library: all operation sequences up to a depth against a reference model, and enumeration of all error numbers", level="exploration",
    level_note="Real compiled code runs every sequence. Bounds: depth, alphabet of kinds and messages.")


def run(chk, repo):
    seq.explore(chk, repo, "error", CSP, REGS, MODEL, 5 if chk.thorough else 4, guard=False)
    extra = NAMES + ["NILPTR", "INDEXOUTOFBOUNDS", "ASSERT"]
    csp = CSP + "".join("fn n%d(): i64 = std::Errno::%s: i64;\n" % (i, n) for i, n in enumerate(extra))
    drv = "#include <errno.h>\nint main(void){ csp_main(); traps(); int k=0;\n"
    for i, n in enumerate(extra):
        w = CNAME.get(n, "E" + n) if n in NAMES else str(134 + i - len(NAMES))
        drv += '{ i64 v=((i64(*)(void))F[%d])(); if(v!=%s) printf("V Errno::%s is %%lld instead of %%d\\n",(long long)v,(int)(%s)); k++; }\n' % (i, w, n, w)
    drv += "for(int e=-5000;e<=5000;e++){ const char*w; switch(e<0?-e:e){ %s default: w=\"<unknown>\"; } const char*volatile g=0; TRYQ(g=((const char*(*)(i32))F[%d])(e)); k++; if(SIG||!g||strcmp(g,w)) printf(\"V error::str(%%d) is %%s instead of %%s\\n\",e,SIG?\"(trap)\":g?g:\"nil\",w); }\n" % (
        "".join('case %d: w="%s"; break; ' % x for x in STRS.items()), len(extra))
    drv += 'printf("TOTAL %d\\n",k); return 0; }\n'
    try:
        exe, wd, text = harness.build(repo, csp, ["n%d" % i for i in range(len(extra))] + ["std::error::str"], drv)
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe)
    core.rmdir(wd)
    tot = 0
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("num:" + line[2:].split(" is ")[0], line[2:], {"observed": line})
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    if not tot:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
    chk.add("evaluations", tot)
    chk.add("distinct_nontrivial", tot)
    chk.cov["rule"] = "all sequences of operations up to the depth; states counts distinct current errors, evaluations sequences, constants and numbers"
