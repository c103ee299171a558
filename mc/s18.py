"""S18 - constants, layouts and terminal functions: the interface to the system."""
import core
import harness

CONSTS = {
    "console": (
        "VINTR VQUIT VERASE VKILL VEOF VTIME VMIN VSWTC VSTART VSTOP VSUSP VEOL VREPRINT VDISCARD VWERASE VLNEXT VEOL2 IGNBRK BRKINT IGNPAR PARMRK INPCK ISTRIP "
        "INLCR IGNCR IGNNL IUCLC IXON IXANY IXOFF IMAXBEL IUTF8 OPOST OLCUC ONLCR ONRNL ONLRET OFILL OFDEL VTDLY VT0 VT1 B0 B50 B75 B110 B134 B150 B200 B300 "
        "B600 B1200 B1800 B2400 B4800 B9600 B19200 B38400 EXTA EXTB CSIZE CS5 CS6 CS7 CS8 CSTOPB CREAD PARENB PARODD HUPCL CLOCAL CBAUD ISIG ECHO ECHOE ECHOK "
        "ECHONL NOFLSH TOSTOP IEXTEN EXTPROC TCOOFF TCOON TCIOFF TCION TCIFLUSH TCOFLUSH TCIOFLUSH TCSANOW TCSADRIAN TCSAFLUSH "
    ),
    "system": (
        "AF_UNIX AF_LOCAL AF_INET AF_AX25 AF_IPX AF_APPLETALK AF_NETROM AF_BRIDGE AF_ATMPVC AF_X25 AF_INET6 AF_ROSE AF_DECnet AF_NETBEUI AF_SECURITY AF_KEY "
        "AF_NETLINK AF_PACKET AF_ASH AF_ECONET AF_ATMSVC AF_RDS AF_SNA AF_IRDA AF_PPPOX AF_WANPIPE AF_LLC AF_IB AF_MPLS AF_CAN AF_TIPC AF_BLUETOOTH AF_IUCV "
        "AF_RXRPC AF_ISDN AF_PHONET AF_IEEE802154 AF_CAIF AF_ALG AF_NFC AF_VSOCK AF_KCM AF_QIPCRTR AF_SMC AF_XDP AF_MAX SOCK_STREAM SOCK_DGRAM SOCK_RAW "
        "SOCK_RDM SOCK_SEQPACKET SOCK_NONBLOCK SOCK_CLOEXEC MSG_OOB MSG_PEEK MSG_DONTROUTE MSG_CTRUNC MSG_PROXY MSG_TRUNC MSG_DONTWAIT MSG_EOR MSG_WAITALL "
        "MSG_FIN MSG_SYN MSG_CONFIRM MSG_RST MSG_ERRQUEUE MSG_NOSIGNAL MSG_MORE MSG_WAITFORONE MSG_BATCH MSG_ZEROCOPY MSG_FASTOPEN MSG_CMSG_CLOEXEC SHUT_RD "
        "SHUT_WR SHUT_RDWR "
    ),
    "net": (
        "INADDR_ANY INADDR_BROADCAST INADDR_NONE INADDR_LOOPBACK INADDR_DUMMY INADDR_UNSPEC_GROUP INADDR_ALLHOSTS_GROUP INADDR_ALLRTRS_GROUP "
        "INADDR_ALLSNOOPERS_GROUP INADDR_MAX_LOCAL_GROUP "
    ),
    "memory": (
        "IPC_CREAT IPC_EXCL SHM_HUGETLB SHM_HUGE_1GB SHM_HUGE_2M SHM_NORESERVE SHM_REMAP SHM_RDONLY "
    ),
    "io": (
        "O_RDONLY O_WRONLY O_RDWR O_CREAT O_EXEC O_TTY_INIT O_SEARCH O_PATH O_DIRECTORY O_CLOEXEC F_OK R_OK W_OK X_OK F_ULOCK F_LOCK F_TLOCK F_TEST F_SETLEASE "
        "F_GETLEASE F_NOTIFY F_CANCELLK F_SETPIPE_SZ F_GETPIPE_SZ F_ADD_SEALS F_GET_SEALS F_SEAL_SEAL F_SEAL_SHRINK F_SEAL_GROW F_SEAL_WRITE "
        "F_SEAL_FUTURE_WRITE F_GET_RW_HINT F_SET_RW_HINT F_GET_FILE_RW_HINT F_SET_FILE_RW_HINT F_DUPFD F_GETFD F_SETFD F_GETFL F_SETFL FD_CLOEXEC "
        "RWF_WRITE_LIFE_NOT_SET RWH_WRITE_LIFE_NONE RWH_WRITE_LIFE_SHORT RWH_WRITE_LIFE_MEDIUM RWH_WRITE_LIFE_LONG RWH_WRITE_LIFE_EXTREME DN_ACCESS DN_MODIFY "
        "DN_CREATE DN_DELETE DN_RENAME DN_ATTRIB DN_MULTISHOT LOCK_SH LOCK_EX LOCK_NB LOCK_UN L_SET L_INCR L_XTND TCGETS TCSETS TCSETSW TCSETSF TCGETA TCSETA "
        "TCSETAW TCSETAF TCSBRK TCXONC TCFLSH TIOCEXCL TIOCNXCL TIOCSCTTY TIOCGPGRP TIOCSPGRP TIOCOUTQ TIOCSTI TIOCGWINSZ TIOCSWINSZ TIOCMGET TIOCMBIS TIOCMBIC "
        "TIOCMSET TIOCGSOFTCAR TIOCSSOFTCAR FIONREAD TIOCINQ TIOCLINUX TIOCCONS TIOCGSERIAL TIOCSSERIAL TIOCPKT FIONBIO TIOCNOTTY TIOCSETD TIOCGETD TCSBRKP "
        "TIOCSBRK TIOCCBRK TIOCGSID TIOCGRS485 TIOCSRS485 TCGETX TCSETX TCSETXF TCSETXW TIOCVHANGUP FIONCLEX FIOCLEX FIOASYNC TIOCSERCONFIG TIOCSERGWILD "
        "TIOCSERSWILD TIOCGLCKTRMIOS TIOCSLCKTRMIOS TIOCSERGSTRUCT TIOCSERGETLSR TIOCSERGETMULTI TIOCSERSETMULTI TIOCMIWAIT TIOCGICOUNT TIOCPKT_DATA "
        "TIOCPKT_FLUSHREAD TIOCPKT_FLUSHWRITE TIOCPKT_STOP TIOCPKT_START TIOCPKT_NOSTOP TIOCPKT_DOSTOP TIOCPKT_IOCTL TIOCSER_TEMT "
    ),
    "clock": (
        "REALTIME "
    ),
}
# names that differ from those of the C headers, and names the headers of this system lack
ALIAS = {"IGNNL": "ICRNL", "ONRNL": "OCRNL", "TCSADRIAN": "TCSADRAIN", "O_EXEC": "O_PATH", "O_SEARCH": "O_PATH", "O_TTY_INIT": "0", "F_CANCELLK": "1029", "REALTIME": "CLOCK_REALTIME", "SHM_HUGE_1GB": "(30<<26)", "SHM_HUGE_2M": "(21<<26)",
         "AF_MAX": "45", "DN_MULTISHOT": "(int)DN_MULTISHOT", "RWF_WRITE_LIFE_NOT_SET": "0"}
COLORS = {'RESET': '0', 'BOLD': '1', 'BLACK': '30', 'RED': '31', 'GREEN': '32', 'YELLOW': '33', 'BLUE': '34', 'MAGENTA': '35', 'CYAN': '36', 'WHITE': '37'}
ENUMS = {"Prot": dict(NONE="PROT_NONE", READ="PROT_READ", WRITE="PROT_WRITE", EXEC="PROT_EXEC", GROWSUP="PROT_GROWSUP", GROWSDOWN="PROT_GROWSDOWN"),
         "MMap": dict(SHARED="MAP_SHARED", SHARED_VALIDATE="MAP_SHARED_VALIDATE", PRIVATE="MAP_PRIVATE", ANONYMOUS="MAP_ANONYMOUS", FIXED="MAP_FIXED", GROWSDOWN="MAP_GROWSDOWN", MAYMOVE="MREMAP_MAYMOVE"),
         "MAdv": dict(NORMAL="MADV_NORMAL", RANDOM="MADV_RANDOM", SEQUENTIAL="MADV_SEQUENTIAL", WILLNEED="MADV_WILLNEED", DONTNEED="MADV_DONTNEED")}
# csp type -> (C type, {csp member: C member})
STRUCTS = {
    "Console": ("struct ktermios", dict(iflag="c_iflag", oflag="c_oflag", cflag="c_cflag", lflag="c_lflag", line="c_line", cc="c_cc")),
    "console::WindowSize": ("struct winsize", dict(row="ws_row", col="ws_col", xpixel="ws_xpixel", ypixel="ws_ypixel")),
    "PollFd": ("struct pollfd", dict(fd="fd", events="events", revents="revents")), "IOVec": ("struct iovec", dict(iov_base="iov_base", iov_len="iov_len")),
    "FLock": ("struct flock", dict(l_type="l_type", l_whence="l_whence", l_start="l_start", l_len="l_len", l_pid="l_pid")),
    "Stat": ("struct stat", dict(dev="st_dev", ino="st_ino", nlink="st_nlink", mode="st_mode", uid="st_uid", gid="st_gid", rdev="st_rdev", size="st_size", blksize="st_blksize", blocks="st_blocks", atime="st_atim.tv_sec", atimensec="st_atim.tv_nsec", mtime="st_mtim.tv_sec", mtimensec="st_mtim.tv_nsec", ctime="st_ctim.tv_sec", ctimensec="st_ctim.tv_nsec")),
    "UTSName": ("struct utsname", dict(sysname="sysname", nodename="nodename", release="release", version="version", machine="machine", domainname="domainname")),
    "SockAddr": ("struct sockaddr", dict(family="sa_family", data="sa_data")), "SockAddrIn": ("struct sockaddr_in", dict(family="sin_family", port="sin_port", addr="sin_addr", zero="sin_zero")), "Address": ("struct in_addr", dict(addr="s_addr")),
    "TimeVal": ("struct timeval", dict(tv_sec="tv_sec", tv_usec="tv_usec")), "TimeSpec": ("struct timespec", dict(tv_sec="tv_sec", tv_nsec="tv_nsec")),
    "sembuf": ("struct sembuf", dict(sem_num="sem_num", sem_op="sem_op", sem_flg="sem_flg")), "msgbuf": ("struct msgbuf", dict(mtype="mtype", mtext="mtext")), "fd_set": ("fd_set", dict(fds_bits="fds_bits")),
}
TYPES = dict(usize="size_t", dev_t="dev_t", ino_t="ino_t", mode_t="mode_t", nlink_t="nlink_t", uid_t="uid_t", gid_t="gid_t", blksize_t="blksize_t", blkcnt_t="blkcnt_t", ssize_t="ssize_t", key_t="key_t", pid_t="pid_t", sa_family_t="sa_family_t", in_port_t="in_port_t", socklen_t="socklen_t", IntPtr="intptr_t", UIntPtr="uintptr_t", Offset="off_t")

CSP = """import "console.csp"; import "system.csp"; import "net.csp"; import "memory.csp"; import "io.csp"; import "time.csp"; import "types.csp"; import "process.csp";
fn i_ptr(fd: i32, req: i32, p: &void): i32 = std::io::ioctl(fd, req, p);
fn i_int(fd: i32, req: i32, p: i64): i32 = std::io::ioctl(fd, req, p);
fn k_failed(): &void = std::memory::MMAP_FAILED;
fn k_std(): i32 = stdin! + stdout! * 10 + stderr! * 100;
fn k_std2(): i32 = std::stdin + std::stdout * 10 + std::stderr * 100;
fn k_eof(): i32 = std::io::EOF: i32;
fn e_kind(): i32 = std::error::current().kind: i32;
fn e_clear(): void { std::error::clear(); }
"""
NAMES = dict(IPTR="i_ptr", IINT="i_int", KFAIL="k_failed", KSTD="k_std", KSTD2="k_std2", KEOF="k_eof", EKIND="e_kind", ECLEAR="e_clear", IOCTL="std::syscall::ioctl", WRITE="std::syscall::write", CLEAR="std::console::clear", GOS="std::console::get_output_speed", GIS="std::console::get_input_speed",
             SOS="std::console::set_output_speed", SIS="std::console::set_input_speed", GATT="std::console::get_attribute", SATT="std::console::set_attribute", GWIN="std::console::get_window_size", SWIN="std::console::set_window_size",
             BRK="std::console::send_break", DRAIN="std::console::drain", FLUSH="std::console::flush", FLOW="std::console::flow", SID="std::console::get_sid")

DRV = r"""
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/select.h>
#include <sys/sem.h>
#include <sys/msg.h>
#include <poll.h>
#include <unistd.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <netinet/in.h>
#include <time.h>
#include <stddef.h>
#ifndef RWF_WRITE_LIFE_NOT_SET
#define RWF_WRITE_LIFE_NOT_SET 0
#endif
struct ktermios { unsigned c_iflag,c_oflag,c_cflag,c_lflag; unsigned char c_line,c_cc[32]; unsigned c_ispeed,c_ospeed; };
static u64 EV,BADN; static void no(const char*f,...){ if(BADN++>15) return; va_list a; va_start(a,f); printf("V "); vprintf(f,a); puts(""); va_end(a); fflush(stdout); }
static const struct { const char*n; i64 w; } CONST[]={ %(consts)s };
static const struct { const char*n,*w; } COLOR[]={ %(colors)s };
static char OUT[100]; static int ON; static i64 fake_write(i32 fd,const char*b,u64 n){ if(fd!=1||ON+n>90) return -9; memcpy(OUT+ON,b,n); ON+=n; OUT[ON]=0; return n; }
static i32 R_FD,R_REQ,R_N,RES; static u64 R_ARG; static void *STORE; static i32 STOREV;
static i32 fake_ioctl(i32 fd,i32 req,u64 arg){ R_N++; R_FD=fd; R_REQ=req; R_ARG=arg; if(req==TIOCGSID&&RES>=0) *(i32*)arg=STOREV; return RES; }
static void g_patch(void *f, void *g) { mprotect((void *)((u64)f & ~4095ULL), 8192, 7); u8 *c = f; c[0] = 0x48; c[1] = 0xb8; memcpy(c + 2, &g, 8); c[10] = 0xff; c[11] = 0xe0; }
static void did(const char*w,i32 r,i32 want,i32 fd,i32 req,u64 arg,u64 mask){ EV++; if(R_N!=1||R_FD!=fd||R_REQ!=req||((R_ARG^arg)&mask)) no("%s makes %d ioctl calls (last: %d, 0x%x, 0x%llx) instead of one of %d, 0x%x, 0x%llx",w,R_N,R_FD,R_REQ,(unsigned long long)R_ARG,fd,req,(unsigned long long)arg); if(r!=want) no("%s returns %d instead of %d (the system call gives %d)",w,r,want,RES); R_N=0; }
int main(void){ traps(); csp_main(); int k=CST;
  for(int i=0;i<N(CONST);i++){ i64 v=((i64(*)(void))F[k++])(); EV++; if(v!=CONST[i].w) no("%s is %lld instead of %lld",CONST[i].n,(long long)v,(long long)CONST[i].w); }
  for(int i=0;i<N(COLOR);i++){ char*v=((char*(*)(void))F[k++])(); EV++; if(strcmp(v,COLOR[i].w)) no("the color %s is not the escape sequence ESC%s",COLOR[i].n,COLOR[i].w+1); }
  if(((i64(*)(void))F[KFAIL])()!=-1) no("MMAP_FAILED is not -1"); if(((i32(*)(void))F[KSTD])()!=210||((i32(*)(void))F[KSTD2])()!=210) no("the standard streams have wrong numbers"); if(((i32(*)(void))F[KEOF])()!=0) no("io::EOF is not the character getc returns at the end"); EV+=4;
  g_patch(F[WRITE],fake_write); g_patch(F[IOCTL],fake_ioctl);
  ((void(*)(void))F[CLEAR])(); if(strcmp(OUT,"\x1b[1;1H\x1b[2J")) no("console::clear writes something else"); EV++;
  i32 FD[]={0,1,2,77,-1,2147483647}, RS[]={0,5,-1,-25,2147483647}; static u8 buf[64];
  for(int f=0;f<N(FD);f++) for(int r=0;r<N(RS);r++){ i32 fd=FD[f]; RES=RS[r]; i32 x; u64 all=~0ull;
    x=((i32(*)(i32,i32,void*))F[IPTR])(fd,0x5401+f,buf); did("ioctl",x,RES,fd,0x5401+f,(u64)buf,all); i64 IV[]={0,1,-1,1ll<<40,4294967295ll}; for(int i=0;i<5;i++){ x=((i32(*)(i32,i32,i64))F[IINT])(fd,0x541b,IV[i]); did("ioctl",x,RES,fd,0x541b,IV[i],all); }
    x=((i32(*)(i32,void*))F[GATT])(fd,buf); did("get_attribute",x,RES==0?0:-1,fd,TCGETS,(u64)buf,all);
    for(int a=-2;a<5;a++){ ((void(*)(void))F[ECLEAR])(); x=((i32(*)(i32,i32,void*))F[SATT])(fd,a,buf); if(a>=0&&a<=2) did("set_attribute",x,RES,fd,TCSETS+a,(u64)buf,all); else if(R_N||x!=-1||((i32(*)(void))F[EKIND])()!=22) no("set_attribute accepts the action %d",a); }
    x=((i32(*)(i32,void*))F[GWIN])(fd,buf); did("get_window_size",x,RES,fd,TIOCGWINSZ,(u64)buf,all); x=((i32(*)(i32,void*))F[SWIN])(fd,buf); did("set_window_size",x,RES,fd,TIOCSWINSZ,(u64)buf,all);
    x=((i32(*)(i32,i32))F[BRK])(fd,r); did("send_break",x,RES,fd,TCSBRK,0,all); x=((i32(*)(i32))F[DRAIN])(fd); did("drain",x,RES,fd,TCSBRK,1,all);
    for(int q=0;q<4;q++){ x=((i32(*)(i32,i32))F[FLUSH])(fd,q); did("flush",x,RES,fd,TCFLSH,q,0xffffffff); x=((i32(*)(i32,i32))F[FLOW])(fd,q); did("flow",x,RES,fd,TCXONC,q,0xffffffff); }
    STOREV=1234+f; x=((i32(*)(i32))F[SID])(fd); did("get_sid",x,RES<0?-1:STOREV,fd,TIOCGSID,0,0); }
  for(u64 c=0;c<0x20000;c+=0x1fff) for(u32 s=0;s<0x12000;s++){ struct ktermios t, w; memset(&t,c,sizeof t); t.c_cflag=c*77777; w=t; int ok=!(s&~010017u); if(!ok&&c) continue; ((void(*)(void))F[ECLEAR])(); EV++;
    i32 r=((i32(*)(void*,u32))F[SOS])(&t,s); if(ok) w.c_cflag=(w.c_cflag&~010017u)|s; if(r!=(ok?0:-1)||memcmp(&t,&w,sizeof t)||((i32(*)(void))F[EKIND])()!=(ok?0:22)) { no("set_output_speed of 0x%x to 0x%x is wrong",w.c_cflag,s); break; }
    if(ok&&(((u32(*)(void*))F[GOS])(&t)!=s||((u32(*)(void*))F[GIS])(&t)!=s)) no("the speed read back after setting 0x%x is another one",s);
    memset(&t,c,sizeof t); t.c_cflag=c*55555; w=t; ((void(*)(void))F[ECLEAR])(); r=((i32(*)(void*,u32))F[SIS])(&t,s); if(ok&&s) w.c_cflag=(w.c_cflag&~010017u)|s; if(r!=(ok?0:-1)||memcmp(&t,&w,sizeof t)) { no("set_input_speed of 0x%x to 0x%x is wrong",w.c_cflag,s); break; } }
  printf("TOTAL %llu\n",(unsigned long long)EV); return 0; }
"""

PROP = dict(
    id="S18", title="System constants, types and structures have the values and layouts of Linux",
    statement="Every constant of std::console, std::system, std::net, std::memory, std::io and std::clock that names a constant of the system (terminal modes and speeds, address families, socket and message flags, internet addresses, file and lock flags, ioctl requests, IPC and shared memory flags; enums Prot, MMap, MAdv) has its value; the simple types and the structures shared with the system (Console, WindowSize, Stat, PollFd, IOVec, FLock, UTSName, SockAddr, SockAddrIn, Address, TimeVal, TimeSpec, sembuf, msgbuf, fd_set) have its sizes and member offsets; colors are their escape sequences. The functions of std::console and io::ioctl make exactly the ioctl call of their purpose with their own arguments and return its result; speeds are set and read without touching other flags, and invalid speeds and actions are refused with an INVAL error.",
    quantifier=dict(over=["inputs", "configurations"], text="all 300 constants, all members of 15 structures, all terminal functions on all combinations of border descriptors and system call results, all 16-bit speeds"),
    why_tests_cant="No test names these constants; each is used by itself in a situation no test can produce.",
    anchors=dict(files=["src/std/console.csp", "src/std/system.csp", "src/std/net.csp", "src/std/memory.csp", "src/std/io.csp", "src/std/types.csp", "src/std/time.csp"], mechanism="constants, types and functions of these modules"),
    technique="exhaustive enumeration of the finite interface (constants, members, calls and call results) of the compiled library against the C headers of the system, ioctl being a recording stand-in", level="exploration",
    level_note="Complete for the listed names. Values come from the headers and the C compiler of the system; AF_MAX is taken as one more than the last family the module knows; names the headers lack (F_CANCELLK, SHM_HUGE_*) have the values of the kernel headers.")


def run(chk, repo):
    csp, regs, consts = CSP, list(NAMES.values()), []

    def fn(body, ret="i64"):
        nonlocal csp
        csp += "fn k%d(): %s = %s;\n" % (len(regs), ret, body)
        regs.append("k%d" % len(regs))
    for ns, l in CONSTS.items():
        for n in l.split():
            fn("(std::%s::%s: i64)" % (ns, n))
            u = "(u32)" if ns == "net" else ""
            consts.append('{"%s::%s",%s%s}' % (ns, n, u, ALIAS.get(n, n)))
    for e, m in ENUMS.items():
        for n, w in m.items():
            fn("(std::%s::%s: i64)" % (e, n))
            consts.append('{"%s::%s",%s}' % (e, n, w))
    for s, (c, m) in STRUCTS.items():
        fn("(sizeof (std::%s): i64)" % s)
        consts.append('{"the size of %s",%s}' % (s, "sizeof(%s)" % c))
        fn("(alignof (std::%s): i64)" % s)
        consts.append('{"the alignment of %s",_Alignof(%s)}' % (s, c))
        for a, b in m.items():
            csp += "fn k%d(): i64 { let x: std::%s; <- ((&x.%s): i64) - ((&x): i64); }\n" % (len(regs), s, a)
            regs.append("k%d" % len(regs))
            consts.append('{"the offset of %s.%s",offsetof(%s,%s)}' % (s, a, c, b))
            csp += "fn k%d(): i64 { let x: std::%s; <- (sizeof (typeof (x.%s))): i64; }\n" % (len(regs), s, a)
            regs.append("k%d" % len(regs))
            consts.append('{"the size of %s.%s",sizeof(((%s*)0)->%s)}' % (s, a, c, b))
    for t, c in TYPES.items():
        fn("(sizeof (std::%s): i64)" % t)
        consts.append('{"the size of %s",sizeof(%s)}' % (t, c))
        csp += "fn k%d(): i64 { let x = (-1): std::%s; <- if x < (0: std::%s) => 1 else 0; }\n" % (len(regs), t, t)
        regs.append("k%d" % len(regs))
        consts.append('{"the signedness of %s",(%s)-1<0}' % (t, c))
    cols = []
    for n, v in COLORS.items():
        fn("&std::io::color::%s[0]" % n, "&const char")
        cols.append('{"%s","\\x1b[%sm"}' % (n, v))
    d = "#define CST %d\n" % len(NAMES) + "".join("#define %s %d\n" % (n, i) for i, n in enumerate(NAMES)) + DRV.replace("%(consts)s", ",\n".join(consts)).replace("%(colors)s", ",".join(cols))
    try:
        exe, wd, text = harness.build(repo, csp, regs, d, cflags=["-D_GNU_SOURCE"])
    except harness.BuildFailure as b:
        chk.violation("build", "does not build (%s): %s" % (b.stage, core.plain(b.log).strip()[:600]), {"csp": b.src})
        return
    rc, o, e = harness.run(exe, timeout=120)
    tot = None
    for line in o.decode(errors="replace").splitlines():
        if line.startswith("V "):
            chk.violation("k:" + line[2:], line[2:], {"csp": text[:4000], "observed": line})
        elif line.startswith("TOTAL"):
            tot = int(line.split()[1])
    core.rmdir(wd)
    if tot is None:
        chk.violation("died", "the enumeration ended abnormally: %s %s" % (rc, (o + e)[-300:]), {"csp": text[:4000]})
    else:
        chk.add("evaluations", tot)
        chk.add("distinct_nontrivial", tot)
        chk.sample({"constants_and_members": len(consts), "evaluations": tot})
    chk.cov["rule"] = "one evaluation per constant, size, offset, and per call of a terminal function with its arguments and result"
