"""S10 - std::file and std::directory: operation sequences against POSIX semantics, with failing and short system calls."""
import core
import harness
import seq

CSP = '''import "file.csp"; import "directory.csp"; import "error.csp"; import "string.csp";
type FL: std::File; type FP: &std::File; type DEP: &std::DirEntry; type EK: std::Error;
fn f_desc(f: FP): i32 = f.desc;
fn f_off(f: FP): i64 = f.offset;
fn f_mode(f: FP): i32 = (f.mode: i32);
fn f_open(p: &const char, m: u8): FP = std::file::open(p, m);
fn f_close(f: FP): i32 { let e = std::file::close(f); <- (e.kind: i32); }
fn f_seek(f: FP, o: i64, w: u8): i32 { let e = std::file::seek(f, o, w); <- (e.kind: i32); }
fn f_rewind(f: FP): i32 { let e = std::file::rewind(f); <- (e.kind: i32); }
fn f_writef(f: FP, n: i32, s: &char): i64 = std::file::writef(f, "%i-%s", n, s);
fn f_flags(o: &i32): void { o[0] = (std::file::READ: i32); o[1] = (std::file::WRITE: i32); o[2] = (std::file::READ_WRITE: i32); o[3] = (std::file::CREATE: i32); o[4] = (std::file::SEEK_SET: i32); o[5] = (std::file::SEEK_CUR: i32); o[6] = (std::file::SEEK_END: i32); }
fn e_kind(): i32 { let e = std::error::current(); <- (e.kind: i32); }
fn e_clear(): void { std::error::clear(); }
fn d_seek(d: &std::Directory, o: i64): i32 { let e = std::directory::seek(d, o); <- (e.kind: i32); }
fn d_rewind(d: &std::Directory): i32 { let e = std::directory::rewind(d); <- (e.kind: i32); }
fn de_ino(d: DEP): u64 = d.ino;
fn de_type(d: DEP): i32 = (d.type_: i32);
fn de_name(d: DEP): &char { let n: &char = d.name; <- n; }
fn de_off(d: DEP): i64 = d.off;
fn st_get(s: &std::Stat, o: &u64): void { o[0] = s.dev; o[1] = s.ino; o[2] = s.nlink; o[3] = (s.mode: u64); o[4] = (s.uid: u64); o[5] = (s.gid: u64); o[6] = s.rdev; o[7] = (s.size: u64); o[8] = (s.blksize: u64); o[9] = (s.blocks: u64); o[10] = (s.atime: u64); o[11] = (s.mtime: u64); o[12] = (s.ctime: u64); o[13] = s.mtimensec; }
fn st_size(): u64 = sizeof std::Stat;
'''
NAMES = {"OPEN": "f_open", "CLOSE": "f_close", "SEEK": "f_seek", "REWIND": "f_rewind", "WRITEF": "f_writef", "WRITES": "std::file::write_str", "WRITE": "std::file::write", "READ": "std::file::read", "READC": "std::file::readc",
         "SIZE": "std::file::size", "READALL": "std::file::read_all", "TELL": "std::file::tell", "FOPEN": "std::file::fopen", "DESC": "f_desc", "OFF": "f_off", "FLAGS": "f_flags", "EKIND": "e_kind", "ECLEAR": "e_clear",
         "SFREE": "std::string::free", "SSIZE": "std::string::size", "KREAD": "std::syscall::read", "KWRITE": "std::syscall::write", "KOPEN": "std::syscall::open", "KCLOSE": "std::syscall::close", "KLSEEK": "std::syscall::lseek", "KFSTAT": "std::syscall::fstat"}
DNAMES = {"DOPEN": "std::directory::open", "DFOPEN": "std::directory::fopen", "DCLOSE": "std::directory::close", "DREAD": "std::directory::read", "DTELL": "std::directory::tell", "DSEEK": "d_seek", "DREWIND": "d_rewind", "DFD": "std::directory::fd",
          "INO": "de_ino", "TYPE": "de_type", "NAME": "de_name", "DOFF": "de_off", "EKIND": "e_kind", "ECLEAR": "e_clear", "KDENTS": "std::syscall::getdents64", "STGET": "st_get", "STSIZE": "st_size", "STAT": "std::syscall::stat", "FSTAT": "std::syscall::fstat", "LSTAT": "std::syscall::lstat",
          "OPEN": "f_open", "READALL": "std::file::read_all", "SSIZE": "std::string::size", "SFREE": "std::string::free", "CLOSE": "f_close", "KREAD": "std::syscall::read", "KWRITE": "std::syscall::write", "WRITES": "std::file::write_str"}

MODEL = r'''
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
/* The file system: one path.  KERNEL 0: a model of the system calls (with faults), 1: the real ones on a scratch file. */
#define MAXC 256
static char DIR_[100], PATH[120], MISS[120], NODIR[140];
static int FAULT, SHORT; /* the next call of this kind fails / transfers at most one byte */
static char MC[MAXC]; static int ML, MEX; /* contents, as they should be */
struct kfd { int used, acc; i64 off; }; static struct kfd K[8]; static char KC[MAXC]; static int KL, KEX; static int KOPENS;
#define BASE (START==0?0:3) /* the lowest descriptor of the model */
static i32 k_open(const char*p,i32 fl,u32 mode){ KOPENS++; if(FAULT){ FAULT=0; return -5; } if(!strcmp(p,NODIR)) return -2; if(strcmp(p,PATH)) return fl&O_CREAT?-13:-2; if(fl&~(O_ACCMODE|O_CREAT)) return -22; if(!KEX){ if(!(fl&O_CREAT)) return -2; KEX=1; KL=0; } if((fl&O_CREAT)&&mode!=0640) bad("open creates the file with mode %o instead of 0640",mode); for(int i=BASE;i<8;i++) if(!K[i].used){ K[i].used=1; K[i].acc=fl&3; K[i].off=0; return i; } return -24; }
static i32 k_close(i32 fd){ if(fd<BASE||fd>=8||!K[fd].used) return -9; K[fd].used=0; return 0; }
static i64 k_read(i32 fd,char*b,u64 n){ if(fd<BASE||fd>=8||!K[fd].used||K[fd].acc==O_WRONLY) return -9; if(FAULT){ FAULT=0; return -5; } if(SHORT&&n>1){ SHORT=0; n=1; } i64 o=K[fd].off; i64 a=o<KL?KL-o:0; if(n>a) n=a; memcpy(b,KC+o,n); K[fd].off+=n; return n; }
static i64 k_write(i32 fd,const char*b,u64 n){ if(fd<BASE||fd>=8||!K[fd].used||K[fd].acc==O_RDONLY) return -9; if(FAULT){ FAULT=0; return -5; } if(SHORT&&n>1){ SHORT=0; n=1; } i64 o=K[fd].off; if(n&&o+n>MAXC) return -27; if(n){ if(o>KL) memset(KC+KL,0,o-KL); memcpy(KC+o,b,n); K[fd].off+=n; if(o+(i64)n>KL) KL=o+n; } return n; }
static i64 k_lseek(i32 fd,i64 o,i32 w){ if(fd<BASE||fd>=8||!K[fd].used) return -9; if(FAULT){ FAULT=0; return -5; } i64 r=w==0?o:w==1?K[fd].off+o:w==2?KL+o:-1; if(r<0) return -22; return K[fd].off=r; }
static i32 k_fstat(i32 fd,struct stat*s){ if(fd<BASE||fd>=8||!K[fd].used) return -9; if(FAULT){ FAULT=0; return -5; } memset(s,0,sizeof *s); s->st_size=KL; s->st_mode=S_IFREG|0640; return 0; }
struct h { void *f; int open, acc; i64 off; }; static struct h H[2];
static int FL[7];
typedef void *(*open_fn)(const char*,u8); typedef i32(*f_fn)(void*); typedef i64(*f_fn64)(void*); typedef i32(*seek_fn)(void*,i64,u8);
static int kind(void){ return ((i32(*)(void))F[EKIND])(); }
enum { EIO_=5, EINVAL_=22 }; static int NILPTR_;
static void init(void){ ((void(*)(int*))F[FLAGS])(FL); memset(K,0,sizeof K); memset(H,0,sizeof H); FAULT=SHORT=0; KOPENS=0; memset(KC,0,MAXC); memset(MC,0,MAXC);
#if KERNEL
  if(!*DIR_){ sprintf(DIR_,"%s/%d",SCRATCH,getpid()); mkdir(DIR_,0755); sprintf(PATH,"%s/f",DIR_); sprintf(MISS,"%s/nodir/f",DIR_); strcpy(NODIR,MISS); }
  unlink(PATH);
#else
  strcpy(PATH,"/f"); strcpy(NODIR,"/nodir/f");
  g_patch(F[KOPEN],k_open); g_patch(F[KCLOSE],k_close); g_patch(F[KREAD],k_read); g_patch(F[KWRITE],k_write); g_patch(F[KLSEEK],k_lseek); g_patch(F[KFSTAT],k_fstat);
#endif
#if START==0
  MEX=0; ML=0; KEX=0; KL=0;
#else
  MEX=KEX=1; ML=KL=5; memcpy(MC,"12345",5); memcpy(KC,MC,5);
#if KERNEL
  int fd=open(PATH,O_CREAT|O_WRONLY,0640); if(write(fd,MC,5)!=5) bad("driver"); close(fd);
#endif
  H[0].f=((open_fn)F[OPEN])(PATH,FL[2]); H[0].open=1; H[0].acc=O_RDWR; if(!H[0].f) bad("open of an existing file gives nil");
#endif
  ((void(*)(void))F[ECLEAR])(); }
static void m_put(struct h*h,const char*b,int n){ if(!n) return; if(h->off>ML) memset(MC+ML,0,h->off-ML); memcpy(MC+h->off,b,n); h->off+=n; if(h->off>ML) ML=h->off; }
enum { O_R,O_W,O_RW,O_RC,O_WC,O_RWC,O_NONE,O_C,O_BAD,O2_RW,CL,CL2,W3,W1,W0,WF,WBIG,W2ND,RD3,RD0,RC_,SZ_,RALL,R2ND,S0,S2,S50,SNEG,SC1,SCM1,SE0,SBADW,RW_,NILS,TL,FOP,
#if !KERNEL
 FLT,SHT,
#endif
 NOPS };
static const char *opname(int o){ static const char *n[]={"a=open(READ)","a=open(WRITE)","a=open(READ_WRITE)","a=open(READ|CREATE)","a=open(WRITE|CREATE)","a=open(READ_WRITE|CREATE)","open(0)","open(CREATE)","open(missing directory, READ_WRITE|CREATE)","b=open(READ_WRITE)","close(a)","close(b)","write_str(a,\"abc\")","write(a,\"X\",1)","write(a,\"Y\",0)","writef(a,\"%i-%s\",42,\"q\")","write(a,40 bytes)","write_str(b,\"##\")","read(a,3)","read(a,0)","readc(a)","size(a)","read_all(a)","readc(b)","seek(a,0,SET)","seek(a,2,SET)","seek(a,50,SET)","seek(a,-1,SET)","seek(a,1,CUR)","seek(a,-1,CUR)","seek(a,0,END)","seek(a,0,9)","rewind(a)","calls with nil","tell(a)","fopen(desc of a)","[next call fails]","[next transfer is short]"}; return n[o]; }
static void chkh(int k){ struct h*h=&H[k]; if(!h->open||BAD) return; i64 o=((f_fn64)F[OFF])(h->f), t=((f_fn64)F[TELL])(h->f); EXPECT(o==h->off&&t==o,"the offset of %c is %lld, tell %lld, expected %lld",'a'+k,(long long)o,(long long)t,(long long)h->off);
#if KERNEL
  i64 ko=lseek(((f_fn)F[DESC])(h->f),0,SEEK_CUR);
#else
  i64 ko=K[((f_fn)F[DESC])(h->f)&7].off;
#endif
  EXPECT(ko==h->off,"the position of the descriptor of %c is %lld, expected %lld",'a'+k,(long long)ko,(long long)h->off); }
static void check(void){ if(BAD) return; char b[MAXC]; int n, ex;
#if KERNEL
  int fd=open(PATH,O_RDONLY); ex=fd>=0; n=0; if(ex){ n=read(fd,b,MAXC); close(fd); }
#else
  n=KL; ex=KEX; memcpy(b,KC,MAXC); if(!ex) n=0;
#endif
  EXPECT(ex==MEX,"the file %s",ex?"was created":"does not exist"); EXPECT(!MEX||(n==ML&&!memcmp(b,MC,n)),"the file has %d bytes \"%.60s\", expected %d bytes \"%.60s\"",n,b,ML,MC); chkh(0); chkh(1); }
static int WANTERR; static void erris(int k,const char*w){ WANTERR=1; EXPECT(kind()==k,"%s sets the error %d instead of %d",w,kind(),k); }
static void do_open(int k,int mode,int acc,int create,const char*path){ int live=GLIVE, ko=KOPENS; int flt=FAULT; void*f=((open_fn)F[OPEN])(path,mode);
  if(acc<0){ EXPECT(!f,"open without READ or WRITE is not nil"); erris(EINVAL_,"open"); EXPECT(GLIVE==live,"open fails but leaves memory allocated"); return; }
  if(flt||path!=PATH||(!MEX&&!create)){ EXPECT(!f,"open of a file that cannot be opened is not nil"); erris(EIO_,"open"); EXPECT(GLIVE==live,"open fails but leaves memory allocated"); return; }
  EXPECT(f!=0,"open gives nil"); if(!f) return; if(!MEX){ MEX=1; ML=0; } H[k].f=f; H[k].open=1; H[k].acc=acc; H[k].off=0; }
static int apply(int o){ ((void(*)(void))F[ECLEAR])(); WANTERR=0; struct h*a=&H[0],*b=&H[1]; int flt=FAULT, sh=SHORT; static char buf[64];
  if(o<=O_BAD&&o!=O_NONE&&o!=O_C&&o!=O_BAD&&a->open) return 1; if(o==O2_RW&&b->open) return 1; if((o>=CL&&o<=RALL||o>=S0&&o<=RW_||o>=TL&&o<=FOP)&&o!=CL2&&o!=W2ND&&o!=R2ND&&!a->open) return 1; if((o==CL2||o==W2ND||o==R2ND)&&!b->open) return 1;
#define CANW(h) ((h)->acc!=O_RDONLY)
#define CANR(h) ((h)->acc!=O_WRONLY)
  switch(o){
  case O_R: do_open(0,FL[0],O_RDONLY,0,PATH); break; case O_W: do_open(0,FL[1],O_WRONLY,0,PATH); break; case O_RW: do_open(0,FL[2],O_RDWR,0,PATH); break;
  case O_RC: do_open(0,FL[0]|FL[3],O_RDONLY,1,PATH); break; case O_WC: do_open(0,FL[1]|FL[3],O_WRONLY,1,PATH); break; case O_RWC: do_open(0,FL[2]|FL[3],O_RDWR,1,PATH); break;
  case O_NONE: do_open(0,0,-1,0,PATH); break; case O_C: do_open(0,FL[3],-1,1,PATH); break; case O_BAD: do_open(0,FL[2]|FL[3],O_RDWR,1,NODIR); break; case O2_RW: do_open(1,FL[2],O_RDWR,0,PATH); break;
  case CL: case CL2: { struct h*h=o==CL?a:b; int live=GLIVE; int d=((f_fn)F[DESC])(h->f); EXPECT(((i32(*)(void*))F[CLOSE])(h->f)==0,"close reports an error"); EXPECT(GLIVE==live-1,"close does not free the file"); h->open=0;
#if KERNEL
    EXPECT(fcntl(d,F_GETFD)<0,"close leaves the descriptor open");
#else
    EXPECT(!K[d&7].used,"close leaves the descriptor open");
#endif
  } break;
  case W3: case W1: case W0: case WF: case WBIG: case W2ND: { struct h*h=o==W2ND?b:a; static char big[41]="0123456789abcdefghijklmnopqrstuvwxyzABCD"; const char*t=o==W3?"abc":o==W1?"X":o==W0?"Y":o==WF?"42-q":o==WBIG?big:"##"; int n=o==W0?0:strlen(t); i64 r=0; int hasr=1;
    if(h->off+n>200) return 1;
    if(o==W3||o==W2ND){ ((void(*)(void*,const char*))F[WRITES])(h->f,t); hasr=0; } else if(o==WF) r=((i64(*)(void*,i32,const char*))F[WRITEF])(h->f,42,"q"); else r=((i64(*)(void*,const char*,u64))F[WRITE])(h->f,t,n);
    if(!CANW(h)||flt){ EXPECT(!hasr||r<0,"a failing write returns %lld",(long long)r); erris(EIO_,"write"); } else { if(sh&&n>1) n=1; EXPECT(!hasr||r==n,"write returns %lld instead of %d",(long long)r,n); m_put(h,t,n); } } break;
  case RD3: case RD0: { int n=o==RD3?3:0; memset(buf,'?',64); void*r=((void*(*)(void*,void*,u64))F[READ])(a->f,buf,n); EXPECT(r==buf,"read does not return its buffer"); char w[64]; memset(w,'?',64); if(!CANR(a)||flt) erris(EIO_,"read"); else { int m=a->off<ML?ML-a->off:0; if(m>n) m=n; if(sh&&m>1) m=1; memcpy(w,MC+a->off,m); a->off+=m; } EXPECT(!memcmp(buf,w,64),"read gives \"%.8s\" instead of \"%.8s\"",buf,w); } break;
  case RC_: case R2ND: { struct h*h=o==RC_?a:b; u8 c=((u8(*)(void*))F[READC])(h->f); u8 w=0; if(!CANR(h)||flt) erris(EIO_,"readc"); else if(h->off<ML) w=MC[h->off++]; EXPECT(c==w,"readc gives %d instead of %d",c,w); } break;
  case SZ_: { i64 s=((f_fn64)F[SIZE])(a->f); if(flt) { EXPECT(s==-1,"size gives %lld although fstat failed",(long long)s); erris(EIO_,"size"); } else EXPECT(s==ML,"size is %lld instead of %d",(long long)s,ML); } break;
  case RALL: { int live=GLIVE; char*s=((char*(*)(void*))F[READALL])(a->f); if(flt){ EXPECT(!s,"read_all gives a string although fstat failed"); erris(EIO_,"read_all"); break; } EXPECT(s!=0,"read_all gives nil"); if(!s) break; int m=a->off<ML?ML-a->off:0; if(!CANR(a)){ m=0; if(ML) erris(EIO_,"read_all"); } EXPECT(((u64*)s)[-1]==m&&!memcmp(s,MC+(m?a->off:0),m)&&s[m]==0,"read_all gives \"%.40s\" (size %llu), expected %d bytes from %lld",s,(unsigned long long)((u64*)s)[-1],m,(long long)a->off); a->off+=m; ((void(*)(char*))F[SFREE])(s); EXPECT(GLIVE==live,"read_all leaves memory allocated"); } break;
  case S0: case S2: case S50: case SNEG: case SC1: case SCM1: case SE0: case SBADW: { i64 off=o==S2?2:o==S50?50:o==SNEG||o==SCM1?-1:o==SC1?1:0; int wh=o==SBADW?9:o==SC1||o==SCM1?FL[5]:o==SE0?FL[6]:FL[4]; i32 r=((seek_fn)F[SEEK])(a->f,off,wh); i64 want=o==SE0?ML:o==SC1||o==SCM1?a->off+off:off;
    if(o==SBADW||flt||want<0) WANTERR=1; if(o==SBADW){ EXPECT(r==EINVAL_,"seek with an invalid whence reports %d",r); FAULT=flt; } else if(flt||want<0){ EXPECT(r==EIO_,"a failing seek reports %d",r); } else { EXPECT(r==0,"seek reports the error %d",r); a->off=want; } } break;
  case RW_: { if(flt) return 1; i32 r=((i32(*)(void*))F[REWIND])(a->f); EXPECT(r==0,"rewind reports the error %d",r); a->off=0; } break;
  case NILS: { WANTERR=1; int n=NILPTR_=((seek_fn)F[SEEK])(0,0,0); EXPECT(n!=0&&n!=EIO_&&n!=EINVAL_,"seek(nil) reports %d",n); EXPECT(((i32(*)(void*))F[REWIND])(0)==n,"rewind(nil)"); EXPECT(((i32(*)(void*))F[CLOSE])(0)==n,"close(nil)"); ((void(*)(void))F[ECLEAR])(); EXPECT(((f_fn64)F[TELL])(0)==-1&&kind()==n,"tell(nil)"); ((void(*)(void))F[ECLEAR])(); ((u8(*)(void*))F[READC])(0); EXPECT(kind()==n,"readc(nil)"); EXPECT(((f_fn64)F[SIZE])(0)==-1,"size(nil)"); } break;
  case TL: break;
  case FOP: { if(b->open) return 1; int d=((f_fn)F[DESC])(a->f); void*f=((void*(*)(i32))F[FOPEN])(d); EXPECT(f!=0,"fopen gives nil"); if(f){ EXPECT(((f_fn)F[DESC])(f)==d&&((f_fn64)F[TELL])(f)==0,"fopen does not use its descriptor"); b->f=f; /* shares the position: only look at it */ } } break;
#if !KERNEL
  case FLT: if(flt||sh) return 1; FAULT=1; return 0;
  case SHT: if(flt||sh) return 1; SHORT=1; return 0;
#endif
  }
  FAULT=SHORT=0; if(!WANTERR&&!BAD) EXPECT(kind()==0,"an operation that succeeds sets the error %d",kind()); if(LAST) check(); return 0; }
static void fini(void){ FAULT=SHORT=0; for(int k=0;k<2;k++) if(H[k].open) ((i32(*)(void*))F[CLOSE])(H[k].f);
#if KERNEL
  unlink(PATH);
#endif
}
static u64 state(void){ u64 h=7; for(int k=0;k<2;k++) h=h*31+H[k].open*(H[k].acc*1000+H[k].off+1); for(int i=0;i<ML;i++) h=h*257+MC[i]; return h*8+MEX*4+FAULT*2+SHORT; }
'''

DDRV = r'''
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/socket.h>
static u64 EV,BADN,DIST; static void no(const char*f,...){ if(BADN++>8) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
struct de { u64 ino; i64 off; u16 reclen; u8 type; char name[]; };
struct ent { u64 ino; i64 off; u8 type; char name[256]; }; static struct ent E[3000]; static int NE;
static void list(const char*d){ NE=0; int fd=open(d,O_RDONLY|O_DIRECTORY); static char b[32768]; long n; while((n=syscall(217,fd,b,sizeof b))>0) for(long p=0;p<n;){ struct de*x=(void*)(b+p); E[NE].ino=x->ino; E[NE].off=x->off; E[NE].type=x->type; strcpy(E[NE++].name,x->name); p+=x->reclen; } close(fd); }
static int same(void*e,int i){ return ((u64(*)(void*))F[INO])(e)==E[i].ino&&((i32(*)(void*))F[TYPE])(e)==E[i].type&&((i64(*)(void*))F[DOFF])(e)==E[i].off&&!strcmp(((char*(*)(void*))F[NAME])(e),E[i].name); }
typedef void*(*p_fn)(void*); typedef i64 (*t_fn)(void*); typedef i32(*s_fn)(void*,i64);
static int DFAIL; static i64 fake_dents(u32 fd,void*b,u32 n){ if(DFAIL) return -5; return syscall(217,fd,b,n)<0?-errno:0; }
static void walk(const char*d,const char*what){ list(d); EV++; void*h=0; void*e; TRY(5,h=((p_fn)F[DOPEN])((void*)d)); if(SIG||!h){ no("directory::open of %s %s",what,SIG?"traps":"gives nil"); return; }
  EXPECTI: ; if(((t_fn)F[DTELL])(h)!=0) no("tell of a new directory is not 0");
  ((void(*)(void))F[ECLEAR])(); for(int i=0;i<=NE;i++){ e=0; TRY(5,e=((p_fn)F[DREAD])(h)); if(SIG){ no("read of entry %d of %s traps",i,what); return; } if(i==NE){ if(e) no("%s: there is an entry behind the last of %d",what,NE); TRY(5,e=((p_fn)F[DREAD])(h)); if(SIG||e) no("%s: reading again behind the end",what); if(((i32(*)(void))F[EKIND])()!=0) no("%s: reading up to the end sets an error",what); } else if(!e||!same(e,i)){ no("%s: entry %d of %d is %s instead of %.60s",what,i,NE,e?((char*(*)(void*))F[NAME])(e):"nil",E[i].name); return; } else if(((t_fn)F[DTELL])(h)!=E[i].off){ no("%s: tell behind entry %d is wrong",what,i); return; } EV++; }
  int fd=((i32(*)(void*))F[DFD])(h); if(fcntl(fd,F_GETFD)<0) no("%s: fd is not open",what); if(!(fcntl(fd,F_GETFD)&FD_CLOEXEC)) no("%s: descriptor is not close-on-exec",what);
  if(((i32(*)(void*))F[DCLOSE])(h)!=0||fcntl(fd,F_GETFD)>=0) no("%s: close",what); DIST++; }
/* every sequence of read / rewind / remember the position / go back to it */
static void seqs(const char*d,int depth){ list(d); int s[12]; long tot=1; for(int i=0;i<depth;i++) tot*=6;
  for(long v=0;v<tot;v++){ long x=v; void*h=((p_fn)F[DOPEN])((void*)d); if(!h){ no("open"); return; } int pos=0; i64 mem=0; int mpos=0; EV++;
    for(int k=0;k<depth;k++){ int o=x%6; x/=6; if(o<=2){ int n=o==0?1:o==1?7:NE; for(int i=0;i<n;i++){ void*e=((p_fn)F[DREAD])(h); if(pos>=NE?e!=0:!e||!same(e,pos)){ no("after %d operations of sequence %ld: entry %d of %d is %s",k,v,pos,NE,e?((char*(*)(void*))F[NAME])(e):"nil"); return; } if(pos<NE) pos++; } }
      else if(o==3){ if(((i32(*)(void*))F[DREWIND])(h)!=0) no("rewind reports an error"); pos=0; } else if(o==4){ mem=((t_fn)F[DTELL])(h); mpos=pos; } else { if(((s_fn)F[DSEEK])(h,mem)!=0) no("seek reports an error"); pos=mpos; if(((t_fn)F[DTELL])(h)!=mem) no("tell after seek"); } }
    ((i32(*)(void*))F[DCLOSE])(h); } }
static void stats(const char*p){ struct stat c; static u64 b[400]; u64 o[14]; for(int w=0;w<3;w++){ EV++; memset(b,0xaa,sizeof b); i32 r=0; int fd=-1; if(w==1){ fd=open(p,O_RDONLY|O_NONBLOCK); if(fd<0) continue; }
   TRY(5,r=w==1?((i32(*)(i32,void*))F[FSTAT])(fd,b):((i32(*)(const char*,void*))F[w==0?STAT:LSTAT])(p,b)); int cr=w==0?stat(p,&c):w==1?fstat(fd,&c):lstat(p,&c); if(fd>=0) close(fd); const char*nm=w==0?"stat":w==1?"fstat":"lstat";
   if(SIG||(r!=0)!=(cr!=0)||(cr&&r!=-errno)){ no("%s of %s returns %d",nm,p,r); continue; } if(cr) continue; ((void(*)(void*,u64*))F[STGET])(b,o); u64 e[]={c.st_dev,c.st_ino,c.st_nlink,c.st_mode,c.st_uid,c.st_gid,c.st_rdev,c.st_size,c.st_blksize,c.st_blocks,c.st_atime,c.st_mtime,c.st_ctime,c.st_mtim.tv_nsec};
   for(int i=0;i<14;i++) if(o[i]!=e[i]) no("%s of %s: field %d is %llu instead of %llu",nm,p,i,(unsigned long long)o[i],(unsigned long long)e[i]); DIST++; }
   u64 z=((u64(*)(void))F[STSIZE])(); if(z<sizeof c) no("a Stat has %llu bytes, the system writes %d",(unsigned long long)z,(int)sizeof c); }
static int RMAX; static i64 lim_read(i32 fd,void*b,u64 n){ if(RMAX&&n>RMAX) n=RMAX; i64 r=read(fd,b,n); return r<0?-errno:r; }
int main(int argc,char**argv){ char*S=argv[1]; int deep=atoi(argv[2]); traps(); csp_main(); char p[600], d[300], what[100];
  /* directories with every number of entries and several lengths of names, crossing the size of the read buffer */
  int LEN[]={1,8,30,100,255}; int n=0; for(int l=0;l<5;l++){ sprintf(d,"%s/d%d",S,l); mkdir(d,0755); for(n=0;n<=(deep?400:130);n++){ if(n<=20||n%7==0||n>120){ sprintf(what,"a directory of %d files with names of %d characters",n,LEN[l]); walk(d,what); } char nm[260]; memset(nm,'a'+n%26,LEN[l]+1); nm[LEN[l]]=0; char t[20]; int k=sprintf(t,"%d",n); if(LEN[l]>=k) memcpy(nm,t,k); else { nm[0]='!'+n; if(nm[0]=='/'||nm[0]=='.') nm[0]='Z'+0; } sprintf(p,"%s/%s",d,nm); if(n%5==3) mkdir(p,0755); else if(n%5==4) { if(symlink("x",p)){} } else { int fd=open(p,O_CREAT|O_WRONLY,0644); if(fd>=0) close(fd); } } }
  sprintf(d,"%s/d1",S); seqs(d,deep?6:5); sprintf(d,"%s/e",S); mkdir(d,0755); seqs(d,3);
  /* not directories */
  sprintf(p,"%s/nothing",S); ((void(*)(void))F[ECLEAR])(); void*h=(void*)1; TRY(5,h=((p_fn)F[DOPEN])(p)); if(SIG||h||((i32(*)(void))F[EKIND])()==0) no("open of a directory that does not exist"); sprintf(p,"%s/file",S); close(open(p,O_CREAT|O_WRONLY,0640)); ((void(*)(void))F[ECLEAR])(); TRY(5,h=((p_fn)F[DOPEN])(p)); if(SIG||h||((i32(*)(void))F[EKIND])()==0) no("open of a file as a directory"); if(((i32(*)(void*))F[DFD])(0)!=-1) no("fd(nil)"); if(((t_fn)F[DTELL])(0)!=-1) no("tell(nil)"); if(((s_fn)F[DSEEK])(0,0)==0||((i32(*)(void*))F[DREWIND])(0)==0) no("seek(nil) or rewind(nil) report no error"); EV+=5;
  { int fd=open(p,O_RDONLY); TRY(5,h=((p_fn)F[DFOPEN])((void*)(u64)fd)); if(SIG||h) no("fopen of a file as a directory"); close(fd); TRY(5,h=((p_fn)F[DFOPEN])((void*)(u64)fd)); if(SIG||h) no("fopen of a closed descriptor"); sprintf(d,"%s/d0",S); list(d); fd=open(d,O_RDONLY|O_DIRECTORY); TRY(5,h=((p_fn)F[DFOPEN])((void*)(u64)fd)); if(SIG||!h) no("fopen of a directory gives nil"); else { void*e; int i=0; for(;i<NE;i++){ e=((p_fn)F[DREAD])(h); if(!e||!same(e,i)){ no("fopen: entry %d",i); break; } } if(!(fcntl(fd,F_GETFD)&FD_CLOEXEC)) no("fopen does not set close-on-exec"); if(((i32(*)(void*))F[DFD])(h)!=fd) no("fopen: fd"); ((i32(*)(void*))F[DCLOSE])(h); } }
  /* Stat */
  char *q[]={"file","d0","nothing","link","dangling","fifo","big"}; sprintf(p,"%s/link",S); if(symlink("file",p)){} sprintf(p,"%s/dangling",S); if(symlink("nowhere",p)){} sprintf(p,"%s/fifo",S); mkfifo(p,0600); sprintf(p,"%s/big",S); { int fd=open(p,O_CREAT|O_WRONLY,0640); if(ftruncate(fd,5000000000LL)){} if(write(fd,"x",1)){} close(fd); } for(int i=0;i<7;i++){ sprintf(p,"%s/%s",S,q[i]); stats(p); } stats("/dev/null"); stats("/"); stats("/dev/zero");
  /* read_all and write_str of files of every size, with limits on the bytes per call */
  g_start(GIDX); g_patch(F[KREAD],lim_read); static char c[9000], c2[9000]; for(int i=0;i<9000;i++) c[i]='a'+i%23; sprintf(p,"%s/sz",S); int M[]={0,1,7,4096}; for(int z=0;z<(deep?8500:4400);z+=z<70?1:z>4080&&z<4110?1:97) for(int m=0;m<4;m++) for(int from=0;from<2;from++){ if(m==1&&z>600) continue; EV++; RMAX=m?M[m]:0; int fd=open(p,O_CREAT|O_TRUNC|O_WRONLY,0640); if(write(fd,c,z)!=z) no("driver"); close(fd); g_reset(); char*s=0; void*f=((void*(*)(const char*,u8))F[OPEN])(p,1); if(!f){ no("open"); break; } i64 skip=from?z/3:0; if(skip) ((i64(*)(void*,i64,u8))F[SEEKX])(f,skip,0);
     TRY(10,s=((char*(*)(void*))F[READALL])(f)); if(SIG||!s||((u64(*)(char*))F[SSIZE])(s)!=z-skip||memcmp(s,c+skip,z-skip)||s[z-skip]) { no("read_all of a file of %d bytes from %lld on, at most %d bytes per read, %s",z,(long long)skip,RMAX,SIG?"traps":!s?"gives nil":"gives something else"); break; } ((void(*)(char*))F[SFREE])(s); ((i32(*)(void*))F[CLOSE])(f); DIST++; }
  printf("TOTAL %llu %llu\n",(unsigned long long)EV,(unsigned long long)DIST); return 0; }
'''

PROP = dict(
    id="S10", title="Files and directories behave as their system objects do, faults included",
    statement="For every sequence of file::open (all modes), close, write, write_str, writef, read, readc, read_all, size, seek, tell, rewind and fopen on files that exist or not, also through two handles: data read and written, file size and existence are those POSIX semantics gives; a handle's offset (tell) always equals the position of its descriptor; failing system calls give the documented results (nil, a negative count, '\\0') and set error::current while nothing changes; short transfers are accounted for and read_all reads on to the end; nothing leaks on failure. directory::read yields every entry once, in order, with its inode, type and whole name, for any number of entries; tell/seek/rewind resume exactly there. Stat shows every field the system reports.",
    quantifier=dict(over=["histories", "fault_sequences", "inputs"], text="all sequences of 38 operations (including `next call fails` and `next transfer is short`) up to length 4 (thorough 5) from a missing and an open file on a model of the system calls, length 3 on the real ones; directories of every number of entries up to 20 and more, five name lengths; all directory operation sequences of length 5"),
    why_tests_cant="The tests read one file at most; wrong offsets, modes and errors need particular sequences, faults or large directories.",
    anchors=dict(files=["src/std/file.csp", "src/std/directory.csp", "src/std/io.csp", "src/std/syscall.csp"], mechanism="std::file and std::directory over std::syscall; Stat, DirEntry layouts"),
    technique="stateless model checking of the compiled library: all operation sequences with fault injection on a model of the system calls, and the same sequences on the real system calls to validate that model", level="exploration",
    level_note="seek relative to the end is explored with offset 0 only (the sign of other offsets is not documented). Out-of-memory while opening is not explored.")


def run(chk, repo):
    dfn = "".join("#define %s %d\n" % (n, i) for i, n in enumerate(NAMES))
    scratch = repo.workdir()
    try:
        for start in (0, 1):
            seq.explore(chk, repo, "model%d" % start, CSP, list(NAMES.values()), dfn + "#define KERNEL 0\n#define START %d\n#define SCRATCH \"\"\n" % start + MODEL, 5 if chk.thorough else 4)
            seq.explore(chk, repo, "real%d" % start, CSP, list(NAMES.values()), dfn + "#define KERNEL 1\n#define START %d\n#define SCRATCH \"%s\"\n" % (start, scratch) + MODEL, 4 if chk.thorough else 3)
        regs = list(DNAMES.values()) + ["f_seek"] + harness.GUARD_REGS
        d = harness.GUARD_C + "#define GIDX %d\n#define SEEKX %d\n" % (len(regs) - 2, len(DNAMES)) + "".join("#define %s %d\n" % (n, i) for i, n in enumerate(DNAMES)) + DDRV
        exe, wd, text = harness.build(repo, CSP, regs, d)
        rc, o, e = harness.run(exe, timeout=800, args=(scratch, "1" if chk.thorough else "0"))
        tot = None
        for line in o.decode(errors="replace").splitlines():
            if line.startswith("V "):
                chk.violation("dir:" + line[2:], line[2:], {"csp": text, "observed": line})
            elif line.startswith("TOTAL"):
                tot = [int(x) for x in line.split()[1:]]
        core.rmdir(wd)
        if tot is None:
            chk.violation("dir:died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text})
        else:
            chk.add("evaluations", tot[0])
            chk.add("distinct_nontrivial", tot[1])
            chk.sample({"directory_stat_and_size_runs": tot[0]})
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
    finally:
        core.rmdir(scratch)
    chk.cov["rule"] = "all sequences of operations up to the depth; states counts distinct (handles, contents, pending fault) states; distinct directory listings, Stats and file sizes are counted once each"
