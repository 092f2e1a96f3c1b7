//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package syscall

import zzreal "syscall"

const AF_ALG = zzreal.AF_ALG
const AF_APPLETALK = zzreal.AF_APPLETALK
const AF_ASH = zzreal.AF_ASH
const AF_ATMPVC = zzreal.AF_ATMPVC
const AF_ATMSVC = zzreal.AF_ATMSVC
const AF_AX25 = zzreal.AF_AX25
const AF_BLUETOOTH = zzreal.AF_BLUETOOTH
const AF_BRIDGE = zzreal.AF_BRIDGE
const AF_CAIF = zzreal.AF_CAIF
const AF_CAN = zzreal.AF_CAN
const AF_DECnet = zzreal.AF_DECnet
const AF_ECONET = zzreal.AF_ECONET
const AF_FILE = zzreal.AF_FILE
const AF_IEEE802154 = zzreal.AF_IEEE802154
const AF_INET = zzreal.AF_INET
const AF_INET6 = zzreal.AF_INET6
const AF_IPX = zzreal.AF_IPX
const AF_IRDA = zzreal.AF_IRDA
const AF_ISDN = zzreal.AF_ISDN
const AF_IUCV = zzreal.AF_IUCV
const AF_KEY = zzreal.AF_KEY
const AF_LLC = zzreal.AF_LLC
const AF_LOCAL = zzreal.AF_LOCAL
const AF_MAX = zzreal.AF_MAX
const AF_NETBEUI = zzreal.AF_NETBEUI
const AF_NETLINK = zzreal.AF_NETLINK
const AF_NETROM = zzreal.AF_NETROM
const AF_PACKET = zzreal.AF_PACKET
const AF_PHONET = zzreal.AF_PHONET
const AF_PPPOX = zzreal.AF_PPPOX
const AF_RDS = zzreal.AF_RDS
const AF_ROSE = zzreal.AF_ROSE
const AF_ROUTE = zzreal.AF_ROUTE
const AF_RXRPC = zzreal.AF_RXRPC
const AF_SECURITY = zzreal.AF_SECURITY
const AF_SNA = zzreal.AF_SNA
const AF_TIPC = zzreal.AF_TIPC
const AF_UNIX = zzreal.AF_UNIX
const AF_UNSPEC = zzreal.AF_UNSPEC
const AF_WANPIPE = zzreal.AF_WANPIPE
const AF_X25 = zzreal.AF_X25
const ARPHRD_ADAPT = zzreal.ARPHRD_ADAPT
const ARPHRD_APPLETLK = zzreal.ARPHRD_APPLETLK
const ARPHRD_ARCNET = zzreal.ARPHRD_ARCNET
const ARPHRD_ASH = zzreal.ARPHRD_ASH
const ARPHRD_ATM = zzreal.ARPHRD_ATM
const ARPHRD_AX25 = zzreal.ARPHRD_AX25
const ARPHRD_BIF = zzreal.ARPHRD_BIF
const ARPHRD_CHAOS = zzreal.ARPHRD_CHAOS
const ARPHRD_CISCO = zzreal.ARPHRD_CISCO
const ARPHRD_CSLIP = zzreal.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = zzreal.ARPHRD_CSLIP6
const ARPHRD_DDCMP = zzreal.ARPHRD_DDCMP
const ARPHRD_DLCI = zzreal.ARPHRD_DLCI
const ARPHRD_ECONET = zzreal.ARPHRD_ECONET
const ARPHRD_EETHER = zzreal.ARPHRD_EETHER
const ARPHRD_ETHER = zzreal.ARPHRD_ETHER
const ARPHRD_EUI64 = zzreal.ARPHRD_EUI64
const ARPHRD_FCAL = zzreal.ARPHRD_FCAL
const ARPHRD_FCFABRIC = zzreal.ARPHRD_FCFABRIC
const ARPHRD_FCPL = zzreal.ARPHRD_FCPL
const ARPHRD_FCPP = zzreal.ARPHRD_FCPP
const ARPHRD_FDDI = zzreal.ARPHRD_FDDI
const ARPHRD_FRAD = zzreal.ARPHRD_FRAD
const ARPHRD_HDLC = zzreal.ARPHRD_HDLC
const ARPHRD_HIPPI = zzreal.ARPHRD_HIPPI
const ARPHRD_HWX25 = zzreal.ARPHRD_HWX25
const ARPHRD_IEEE1394 = zzreal.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = zzreal.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = zzreal.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = zzreal.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = zzreal.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = zzreal.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = zzreal.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = zzreal.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = zzreal.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = zzreal.ARPHRD_IPDDP
const ARPHRD_IPGRE = zzreal.ARPHRD_IPGRE
const ARPHRD_IRDA = zzreal.ARPHRD_IRDA
const ARPHRD_LAPB = zzreal.ARPHRD_LAPB
const ARPHRD_LOCALTLK = zzreal.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = zzreal.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = zzreal.ARPHRD_METRICOM
const ARPHRD_NETROM = zzreal.ARPHRD_NETROM
const ARPHRD_NONE = zzreal.ARPHRD_NONE
const ARPHRD_PIMREG = zzreal.ARPHRD_PIMREG
const ARPHRD_PPP = zzreal.ARPHRD_PPP
const ARPHRD_PRONET = zzreal.ARPHRD_PRONET
const ARPHRD_RAWHDLC = zzreal.ARPHRD_RAWHDLC
const ARPHRD_ROSE = zzreal.ARPHRD_ROSE
const ARPHRD_RSRVD = zzreal.ARPHRD_RSRVD
const ARPHRD_SIT = zzreal.ARPHRD_SIT
const ARPHRD_SKIP = zzreal.ARPHRD_SKIP
const ARPHRD_SLIP = zzreal.ARPHRD_SLIP
const ARPHRD_SLIP6 = zzreal.ARPHRD_SLIP6
const ARPHRD_TUNNEL = zzreal.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = zzreal.ARPHRD_TUNNEL6
const ARPHRD_VOID = zzreal.ARPHRD_VOID
const ARPHRD_X25 = zzreal.ARPHRD_X25
const B0 = zzreal.B0
const B1000000 = zzreal.B1000000
const B110 = zzreal.B110
const B115200 = zzreal.B115200
const B1152000 = zzreal.B1152000
const B1200 = zzreal.B1200
const B134 = zzreal.B134
const B150 = zzreal.B150
const B1500000 = zzreal.B1500000
const B1800 = zzreal.B1800
const B19200 = zzreal.B19200
const B200 = zzreal.B200
const B2000000 = zzreal.B2000000
const B230400 = zzreal.B230400
const B2400 = zzreal.B2400
const B2500000 = zzreal.B2500000
const B300 = zzreal.B300
const B3000000 = zzreal.B3000000
const B3500000 = zzreal.B3500000
const B38400 = zzreal.B38400
const B4000000 = zzreal.B4000000
const B460800 = zzreal.B460800
const B4800 = zzreal.B4800
const B50 = zzreal.B50
const B500000 = zzreal.B500000
const B57600 = zzreal.B57600
const B576000 = zzreal.B576000
const B600 = zzreal.B600
const B75 = zzreal.B75
const B921600 = zzreal.B921600
const B9600 = zzreal.B9600
const BPF_A = zzreal.BPF_A
const BPF_ABS = zzreal.BPF_ABS
const BPF_ADD = zzreal.BPF_ADD
const BPF_ALU = zzreal.BPF_ALU
const BPF_AND = zzreal.BPF_AND
const BPF_B = zzreal.BPF_B
const BPF_DIV = zzreal.BPF_DIV
const BPF_H = zzreal.BPF_H
const BPF_IMM = zzreal.BPF_IMM
const BPF_IND = zzreal.BPF_IND
const BPF_JA = zzreal.BPF_JA
const BPF_JEQ = zzreal.BPF_JEQ
const BPF_JGE = zzreal.BPF_JGE
const BPF_JGT = zzreal.BPF_JGT
const BPF_JMP = zzreal.BPF_JMP
const BPF_JSET = zzreal.BPF_JSET
const BPF_K = zzreal.BPF_K
const BPF_LD = zzreal.BPF_LD
const BPF_LDX = zzreal.BPF_LDX
const BPF_LEN = zzreal.BPF_LEN
const BPF_LSH = zzreal.BPF_LSH
const BPF_MAJOR_VERSION = zzreal.BPF_MAJOR_VERSION
const BPF_MAXINSNS = zzreal.BPF_MAXINSNS
const BPF_MEM = zzreal.BPF_MEM
const BPF_MEMWORDS = zzreal.BPF_MEMWORDS
const BPF_MINOR_VERSION = zzreal.BPF_MINOR_VERSION
const BPF_MISC = zzreal.BPF_MISC
const BPF_MSH = zzreal.BPF_MSH
const BPF_MUL = zzreal.BPF_MUL
const BPF_NEG = zzreal.BPF_NEG
const BPF_OR = zzreal.BPF_OR
const BPF_RET = zzreal.BPF_RET
const BPF_RSH = zzreal.BPF_RSH
const BPF_ST = zzreal.BPF_ST
const BPF_STX = zzreal.BPF_STX
const BPF_SUB = zzreal.BPF_SUB
const BPF_TAX = zzreal.BPF_TAX
const BPF_TXA = zzreal.BPF_TXA
const BPF_W = zzreal.BPF_W
const BPF_X = zzreal.BPF_X
const BRKINT = zzreal.BRKINT

var BytePtrFromString = zzreal.BytePtrFromString
var ByteSliceFromString = zzreal.ByteSliceFromString

const CLOCAL = zzreal.CLOCAL
const CLONE_CHILD_CLEARTID = zzreal.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = zzreal.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = zzreal.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = zzreal.CLONE_DETACHED
const CLONE_FILES = zzreal.CLONE_FILES
const CLONE_FS = zzreal.CLONE_FS
const CLONE_INTO_CGROUP = zzreal.CLONE_INTO_CGROUP
const CLONE_IO = zzreal.CLONE_IO
const CLONE_NEWCGROUP = zzreal.CLONE_NEWCGROUP
const CLONE_NEWIPC = zzreal.CLONE_NEWIPC
const CLONE_NEWNET = zzreal.CLONE_NEWNET
const CLONE_NEWNS = zzreal.CLONE_NEWNS
const CLONE_NEWPID = zzreal.CLONE_NEWPID
const CLONE_NEWTIME = zzreal.CLONE_NEWTIME
const CLONE_NEWUSER = zzreal.CLONE_NEWUSER
const CLONE_NEWUTS = zzreal.CLONE_NEWUTS
const CLONE_PARENT = zzreal.CLONE_PARENT
const CLONE_PARENT_SETTID = zzreal.CLONE_PARENT_SETTID
const CLONE_PIDFD = zzreal.CLONE_PIDFD
const CLONE_PTRACE = zzreal.CLONE_PTRACE
const CLONE_SETTLS = zzreal.CLONE_SETTLS
const CLONE_SIGHAND = zzreal.CLONE_SIGHAND
const CLONE_SYSVSEM = zzreal.CLONE_SYSVSEM
const CLONE_THREAD = zzreal.CLONE_THREAD
const CLONE_UNTRACED = zzreal.CLONE_UNTRACED
const CLONE_VFORK = zzreal.CLONE_VFORK
const CLONE_VM = zzreal.CLONE_VM
const CREAD = zzreal.CREAD
const CS5 = zzreal.CS5
const CS6 = zzreal.CS6
const CS7 = zzreal.CS7
const CS8 = zzreal.CS8
const CSIZE = zzreal.CSIZE
const CSTOPB = zzreal.CSTOPB

type Cmsghdr = zzreal.Cmsghdr
type Conn = zzreal.Conn
type Credential = zzreal.Credential

const DT_BLK = zzreal.DT_BLK
const DT_CHR = zzreal.DT_CHR
const DT_DIR = zzreal.DT_DIR
const DT_FIFO = zzreal.DT_FIFO
const DT_LNK = zzreal.DT_LNK
const DT_REG = zzreal.DT_REG
const DT_SOCK = zzreal.DT_SOCK
const DT_UNKNOWN = zzreal.DT_UNKNOWN
const DT_WHT = zzreal.DT_WHT

type Dirent = zzreal.Dirent

const E2BIG = zzreal.E2BIG
const EACCES = zzreal.EACCES
const EADDRINUSE = zzreal.EADDRINUSE
const EADDRNOTAVAIL = zzreal.EADDRNOTAVAIL
const EADV = zzreal.EADV
const EAFNOSUPPORT = zzreal.EAFNOSUPPORT
const EAGAIN = zzreal.EAGAIN
const EALREADY = zzreal.EALREADY
const EBADE = zzreal.EBADE
const EBADF = zzreal.EBADF
const EBADFD = zzreal.EBADFD
const EBADMSG = zzreal.EBADMSG
const EBADR = zzreal.EBADR
const EBADRQC = zzreal.EBADRQC
const EBADSLT = zzreal.EBADSLT
const EBFONT = zzreal.EBFONT
const EBUSY = zzreal.EBUSY
const ECANCELED = zzreal.ECANCELED
const ECHILD = zzreal.ECHILD
const ECHO = zzreal.ECHO
const ECHOCTL = zzreal.ECHOCTL
const ECHOE = zzreal.ECHOE
const ECHOK = zzreal.ECHOK
const ECHOKE = zzreal.ECHOKE
const ECHONL = zzreal.ECHONL
const ECHOPRT = zzreal.ECHOPRT
const ECHRNG = zzreal.ECHRNG
const ECOMM = zzreal.ECOMM
const ECONNABORTED = zzreal.ECONNABORTED
const ECONNREFUSED = zzreal.ECONNREFUSED
const ECONNRESET = zzreal.ECONNRESET
const EDEADLK = zzreal.EDEADLK
const EDEADLOCK = zzreal.EDEADLOCK
const EDESTADDRREQ = zzreal.EDESTADDRREQ
const EDOM = zzreal.EDOM
const EDOTDOT = zzreal.EDOTDOT
const EDQUOT = zzreal.EDQUOT
const EEXIST = zzreal.EEXIST
const EFAULT = zzreal.EFAULT
const EFBIG = zzreal.EFBIG
const EHOSTDOWN = zzreal.EHOSTDOWN
const EHOSTUNREACH = zzreal.EHOSTUNREACH
const EIDRM = zzreal.EIDRM
const EILSEQ = zzreal.EILSEQ
const EINPROGRESS = zzreal.EINPROGRESS
const EINTR = zzreal.EINTR
const EINVAL = zzreal.EINVAL
const EIO = zzreal.EIO
const EISCONN = zzreal.EISCONN
const EISDIR = zzreal.EISDIR
const EISNAM = zzreal.EISNAM
const EKEYEXPIRED = zzreal.EKEYEXPIRED
const EKEYREJECTED = zzreal.EKEYREJECTED
const EKEYREVOKED = zzreal.EKEYREVOKED
const EL2HLT = zzreal.EL2HLT
const EL2NSYNC = zzreal.EL2NSYNC
const EL3HLT = zzreal.EL3HLT
const EL3RST = zzreal.EL3RST
const ELIBACC = zzreal.ELIBACC
const ELIBBAD = zzreal.ELIBBAD
const ELIBEXEC = zzreal.ELIBEXEC
const ELIBMAX = zzreal.ELIBMAX
const ELIBSCN = zzreal.ELIBSCN
const ELNRNG = zzreal.ELNRNG
const ELOOP = zzreal.ELOOP
const EMEDIUMTYPE = zzreal.EMEDIUMTYPE
const EMFILE = zzreal.EMFILE
const EMLINK = zzreal.EMLINK
const EMSGSIZE = zzreal.EMSGSIZE
const EMULTIHOP = zzreal.EMULTIHOP
const ENAMETOOLONG = zzreal.ENAMETOOLONG
const ENAVAIL = zzreal.ENAVAIL
const ENETDOWN = zzreal.ENETDOWN
const ENETRESET = zzreal.ENETRESET
const ENETUNREACH = zzreal.ENETUNREACH
const ENFILE = zzreal.ENFILE
const ENOANO = zzreal.ENOANO
const ENOBUFS = zzreal.ENOBUFS
const ENOCSI = zzreal.ENOCSI
const ENODATA = zzreal.ENODATA
const ENODEV = zzreal.ENODEV
const ENOENT = zzreal.ENOENT
const ENOEXEC = zzreal.ENOEXEC
const ENOKEY = zzreal.ENOKEY
const ENOLCK = zzreal.ENOLCK
const ENOLINK = zzreal.ENOLINK
const ENOMEDIUM = zzreal.ENOMEDIUM
const ENOMEM = zzreal.ENOMEM
const ENOMSG = zzreal.ENOMSG
const ENONET = zzreal.ENONET
const ENOPKG = zzreal.ENOPKG
const ENOPROTOOPT = zzreal.ENOPROTOOPT
const ENOSPC = zzreal.ENOSPC
const ENOSR = zzreal.ENOSR
const ENOSTR = zzreal.ENOSTR
const ENOSYS = zzreal.ENOSYS
const ENOTBLK = zzreal.ENOTBLK
const ENOTCONN = zzreal.ENOTCONN
const ENOTDIR = zzreal.ENOTDIR
const ENOTEMPTY = zzreal.ENOTEMPTY
const ENOTNAM = zzreal.ENOTNAM
const ENOTRECOVERABLE = zzreal.ENOTRECOVERABLE
const ENOTSOCK = zzreal.ENOTSOCK
const ENOTSUP = zzreal.ENOTSUP
const ENOTTY = zzreal.ENOTTY
const ENOTUNIQ = zzreal.ENOTUNIQ
const ENXIO = zzreal.ENXIO
const EOPNOTSUPP = zzreal.EOPNOTSUPP
const EOVERFLOW = zzreal.EOVERFLOW
const EOWNERDEAD = zzreal.EOWNERDEAD
const EPERM = zzreal.EPERM
const EPFNOSUPPORT = zzreal.EPFNOSUPPORT
const EPIPE = zzreal.EPIPE
const EPOLLERR = zzreal.EPOLLERR
const EPOLLET = zzreal.EPOLLET
const EPOLLHUP = zzreal.EPOLLHUP
const EPOLLIN = zzreal.EPOLLIN
const EPOLLMSG = zzreal.EPOLLMSG
const EPOLLONESHOT = zzreal.EPOLLONESHOT
const EPOLLOUT = zzreal.EPOLLOUT
const EPOLLPRI = zzreal.EPOLLPRI
const EPOLLRDBAND = zzreal.EPOLLRDBAND
const EPOLLRDHUP = zzreal.EPOLLRDHUP
const EPOLLRDNORM = zzreal.EPOLLRDNORM
const EPOLLWRBAND = zzreal.EPOLLWRBAND
const EPOLLWRNORM = zzreal.EPOLLWRNORM
const EPOLL_CLOEXEC = zzreal.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = zzreal.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = zzreal.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = zzreal.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = zzreal.EPOLL_NONBLOCK
const EPROTO = zzreal.EPROTO
const EPROTONOSUPPORT = zzreal.EPROTONOSUPPORT
const EPROTOTYPE = zzreal.EPROTOTYPE
const ERANGE = zzreal.ERANGE
const EREMCHG = zzreal.EREMCHG
const EREMOTE = zzreal.EREMOTE
const EREMOTEIO = zzreal.EREMOTEIO
const ERESTART = zzreal.ERESTART
const ERFKILL = zzreal.ERFKILL
const EROFS = zzreal.EROFS
const ESHUTDOWN = zzreal.ESHUTDOWN
const ESOCKTNOSUPPORT = zzreal.ESOCKTNOSUPPORT
const ESPIPE = zzreal.ESPIPE
const ESRCH = zzreal.ESRCH
const ESRMNT = zzreal.ESRMNT
const ESTALE = zzreal.ESTALE
const ESTRPIPE = zzreal.ESTRPIPE
const ETH_P_1588 = zzreal.ETH_P_1588
const ETH_P_8021Q = zzreal.ETH_P_8021Q
const ETH_P_802_2 = zzreal.ETH_P_802_2
const ETH_P_802_3 = zzreal.ETH_P_802_3
const ETH_P_AARP = zzreal.ETH_P_AARP
const ETH_P_ALL = zzreal.ETH_P_ALL
const ETH_P_AOE = zzreal.ETH_P_AOE
const ETH_P_ARCNET = zzreal.ETH_P_ARCNET
const ETH_P_ARP = zzreal.ETH_P_ARP
const ETH_P_ATALK = zzreal.ETH_P_ATALK
const ETH_P_ATMFATE = zzreal.ETH_P_ATMFATE
const ETH_P_ATMMPOA = zzreal.ETH_P_ATMMPOA
const ETH_P_AX25 = zzreal.ETH_P_AX25
const ETH_P_BPQ = zzreal.ETH_P_BPQ
const ETH_P_CAIF = zzreal.ETH_P_CAIF
const ETH_P_CAN = zzreal.ETH_P_CAN
const ETH_P_CONTROL = zzreal.ETH_P_CONTROL
const ETH_P_CUST = zzreal.ETH_P_CUST
const ETH_P_DDCMP = zzreal.ETH_P_DDCMP
const ETH_P_DEC = zzreal.ETH_P_DEC
const ETH_P_DIAG = zzreal.ETH_P_DIAG
const ETH_P_DNA_DL = zzreal.ETH_P_DNA_DL
const ETH_P_DNA_RC = zzreal.ETH_P_DNA_RC
const ETH_P_DNA_RT = zzreal.ETH_P_DNA_RT
const ETH_P_DSA = zzreal.ETH_P_DSA
const ETH_P_ECONET = zzreal.ETH_P_ECONET
const ETH_P_EDSA = zzreal.ETH_P_EDSA
const ETH_P_FCOE = zzreal.ETH_P_FCOE
const ETH_P_FIP = zzreal.ETH_P_FIP
const ETH_P_HDLC = zzreal.ETH_P_HDLC
const ETH_P_IEEE802154 = zzreal.ETH_P_IEEE802154
const ETH_P_IEEEPUP = zzreal.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = zzreal.ETH_P_IEEEPUPAT
const ETH_P_IP = zzreal.ETH_P_IP
const ETH_P_IPV6 = zzreal.ETH_P_IPV6
const ETH_P_IPX = zzreal.ETH_P_IPX
const ETH_P_IRDA = zzreal.ETH_P_IRDA
const ETH_P_LAT = zzreal.ETH_P_LAT
const ETH_P_LINK_CTL = zzreal.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = zzreal.ETH_P_LOCALTALK
const ETH_P_LOOP = zzreal.ETH_P_LOOP
const ETH_P_MOBITEX = zzreal.ETH_P_MOBITEX
const ETH_P_MPLS_MC = zzreal.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = zzreal.ETH_P_MPLS_UC
const ETH_P_PAE = zzreal.ETH_P_PAE
const ETH_P_PAUSE = zzreal.ETH_P_PAUSE
const ETH_P_PHONET = zzreal.ETH_P_PHONET
const ETH_P_PPPTALK = zzreal.ETH_P_PPPTALK
const ETH_P_PPP_DISC = zzreal.ETH_P_PPP_DISC
const ETH_P_PPP_MP = zzreal.ETH_P_PPP_MP
const ETH_P_PPP_SES = zzreal.ETH_P_PPP_SES
const ETH_P_PUP = zzreal.ETH_P_PUP
const ETH_P_PUPAT = zzreal.ETH_P_PUPAT
const ETH_P_RARP = zzreal.ETH_P_RARP
const ETH_P_SCA = zzreal.ETH_P_SCA
const ETH_P_SLOW = zzreal.ETH_P_SLOW
const ETH_P_SNAP = zzreal.ETH_P_SNAP
const ETH_P_TEB = zzreal.ETH_P_TEB
const ETH_P_TIPC = zzreal.ETH_P_TIPC
const ETH_P_TRAILER = zzreal.ETH_P_TRAILER
const ETH_P_TR_802_2 = zzreal.ETH_P_TR_802_2
const ETH_P_WAN_PPP = zzreal.ETH_P_WAN_PPP
const ETH_P_WCCP = zzreal.ETH_P_WCCP
const ETH_P_X25 = zzreal.ETH_P_X25
const ETIME = zzreal.ETIME
const ETIMEDOUT = zzreal.ETIMEDOUT
const ETOOMANYREFS = zzreal.ETOOMANYREFS
const ETXTBSY = zzreal.ETXTBSY
const EUCLEAN = zzreal.EUCLEAN
const EUNATCH = zzreal.EUNATCH
const EUSERS = zzreal.EUSERS
const EWOULDBLOCK = zzreal.EWOULDBLOCK
const EXDEV = zzreal.EXDEV
const EXFULL = zzreal.EXFULL

type EpollEvent = zzreal.EpollEvent
type Errno = zzreal.Errno

const FD_CLOEXEC = zzreal.FD_CLOEXEC
const FD_SETSIZE = zzreal.FD_SETSIZE
const FLUSHO = zzreal.FLUSHO
const F_DUPFD = zzreal.F_DUPFD
const F_DUPFD_CLOEXEC = zzreal.F_DUPFD_CLOEXEC
const F_EXLCK = zzreal.F_EXLCK
const F_GETFD = zzreal.F_GETFD
const F_GETFL = zzreal.F_GETFL
const F_GETLEASE = zzreal.F_GETLEASE
const F_GETLK = zzreal.F_GETLK
const F_GETLK64 = zzreal.F_GETLK64
const F_GETOWN = zzreal.F_GETOWN
const F_GETOWN_EX = zzreal.F_GETOWN_EX
const F_GETPIPE_SZ = zzreal.F_GETPIPE_SZ
const F_GETSIG = zzreal.F_GETSIG
const F_LOCK = zzreal.F_LOCK
const F_NOTIFY = zzreal.F_NOTIFY
const F_OK = zzreal.F_OK
const F_RDLCK = zzreal.F_RDLCK
const F_SETFD = zzreal.F_SETFD
const F_SETFL = zzreal.F_SETFL
const F_SETLEASE = zzreal.F_SETLEASE
const F_SETLK = zzreal.F_SETLK
const F_SETLK64 = zzreal.F_SETLK64
const F_SETLKW = zzreal.F_SETLKW
const F_SETLKW64 = zzreal.F_SETLKW64
const F_SETOWN = zzreal.F_SETOWN
const F_SETOWN_EX = zzreal.F_SETOWN_EX
const F_SETPIPE_SZ = zzreal.F_SETPIPE_SZ
const F_SETSIG = zzreal.F_SETSIG
const F_SHLCK = zzreal.F_SHLCK
const F_TEST = zzreal.F_TEST
const F_TLOCK = zzreal.F_TLOCK
const F_ULOCK = zzreal.F_ULOCK
const F_UNLCK = zzreal.F_UNLCK
const F_WRLCK = zzreal.F_WRLCK

type FdSet = zzreal.FdSet
type Flock_t = zzreal.Flock_t

var ForkLock = zzreal.ForkLock

type Fsid = zzreal.Fsid

var Getpagesize = zzreal.Getpagesize

const HUPCL = zzreal.HUPCL
const ICANON = zzreal.ICANON
const ICMPV6_FILTER = zzreal.ICMPV6_FILTER

type ICMPv6Filter = zzreal.ICMPv6Filter

const ICRNL = zzreal.ICRNL
const IEXTEN = zzreal.IEXTEN
const IFA_ADDRESS = zzreal.IFA_ADDRESS
const IFA_ANYCAST = zzreal.IFA_ANYCAST
const IFA_BROADCAST = zzreal.IFA_BROADCAST
const IFA_CACHEINFO = zzreal.IFA_CACHEINFO
const IFA_F_DADFAILED = zzreal.IFA_F_DADFAILED
const IFA_F_DEPRECATED = zzreal.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = zzreal.IFA_F_HOMEADDRESS
const IFA_F_NODAD = zzreal.IFA_F_NODAD
const IFA_F_OPTIMISTIC = zzreal.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = zzreal.IFA_F_PERMANENT
const IFA_F_SECONDARY = zzreal.IFA_F_SECONDARY
const IFA_F_TEMPORARY = zzreal.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = zzreal.IFA_F_TENTATIVE
const IFA_LABEL = zzreal.IFA_LABEL
const IFA_LOCAL = zzreal.IFA_LOCAL
const IFA_MAX = zzreal.IFA_MAX
const IFA_MULTICAST = zzreal.IFA_MULTICAST
const IFA_UNSPEC = zzreal.IFA_UNSPEC
const IFF_ALLMULTI = zzreal.IFF_ALLMULTI
const IFF_AUTOMEDIA = zzreal.IFF_AUTOMEDIA
const IFF_BROADCAST = zzreal.IFF_BROADCAST
const IFF_DEBUG = zzreal.IFF_DEBUG
const IFF_DYNAMIC = zzreal.IFF_DYNAMIC
const IFF_LOOPBACK = zzreal.IFF_LOOPBACK
const IFF_MASTER = zzreal.IFF_MASTER
const IFF_MULTICAST = zzreal.IFF_MULTICAST
const IFF_NOARP = zzreal.IFF_NOARP
const IFF_NOTRAILERS = zzreal.IFF_NOTRAILERS
const IFF_NO_PI = zzreal.IFF_NO_PI
const IFF_ONE_QUEUE = zzreal.IFF_ONE_QUEUE
const IFF_POINTOPOINT = zzreal.IFF_POINTOPOINT
const IFF_PORTSEL = zzreal.IFF_PORTSEL
const IFF_PROMISC = zzreal.IFF_PROMISC
const IFF_RUNNING = zzreal.IFF_RUNNING
const IFF_SLAVE = zzreal.IFF_SLAVE
const IFF_TAP = zzreal.IFF_TAP
const IFF_TUN = zzreal.IFF_TUN
const IFF_TUN_EXCL = zzreal.IFF_TUN_EXCL
const IFF_UP = zzreal.IFF_UP
const IFF_VNET_HDR = zzreal.IFF_VNET_HDR
const IFLA_ADDRESS = zzreal.IFLA_ADDRESS
const IFLA_BROADCAST = zzreal.IFLA_BROADCAST
const IFLA_COST = zzreal.IFLA_COST
const IFLA_IFALIAS = zzreal.IFLA_IFALIAS
const IFLA_IFNAME = zzreal.IFLA_IFNAME
const IFLA_LINK = zzreal.IFLA_LINK
const IFLA_LINKINFO = zzreal.IFLA_LINKINFO
const IFLA_LINKMODE = zzreal.IFLA_LINKMODE
const IFLA_MAP = zzreal.IFLA_MAP
const IFLA_MASTER = zzreal.IFLA_MASTER
const IFLA_MAX = zzreal.IFLA_MAX
const IFLA_MTU = zzreal.IFLA_MTU
const IFLA_NET_NS_PID = zzreal.IFLA_NET_NS_PID
const IFLA_OPERSTATE = zzreal.IFLA_OPERSTATE
const IFLA_PRIORITY = zzreal.IFLA_PRIORITY
const IFLA_PROTINFO = zzreal.IFLA_PROTINFO
const IFLA_QDISC = zzreal.IFLA_QDISC
const IFLA_STATS = zzreal.IFLA_STATS
const IFLA_TXQLEN = zzreal.IFLA_TXQLEN
const IFLA_UNSPEC = zzreal.IFLA_UNSPEC
const IFLA_WEIGHT = zzreal.IFLA_WEIGHT
const IFLA_WIRELESS = zzreal.IFLA_WIRELESS
const IFNAMSIZ = zzreal.IFNAMSIZ
const IGNBRK = zzreal.IGNBRK
const IGNCR = zzreal.IGNCR
const IGNPAR = zzreal.IGNPAR
const IMAXBEL = zzreal.IMAXBEL
const INLCR = zzreal.INLCR
const INPCK = zzreal.INPCK
const IN_ACCESS = zzreal.IN_ACCESS
const IN_ALL_EVENTS = zzreal.IN_ALL_EVENTS
const IN_ATTRIB = zzreal.IN_ATTRIB
const IN_CLASSA_HOST = zzreal.IN_CLASSA_HOST
const IN_CLASSA_MAX = zzreal.IN_CLASSA_MAX
const IN_CLASSA_NET = zzreal.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = zzreal.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = zzreal.IN_CLASSB_HOST
const IN_CLASSB_MAX = zzreal.IN_CLASSB_MAX
const IN_CLASSB_NET = zzreal.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = zzreal.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = zzreal.IN_CLASSC_HOST
const IN_CLASSC_NET = zzreal.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = zzreal.IN_CLASSC_NSHIFT
const IN_CLOEXEC = zzreal.IN_CLOEXEC
const IN_CLOSE = zzreal.IN_CLOSE
const IN_CLOSE_NOWRITE = zzreal.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = zzreal.IN_CLOSE_WRITE
const IN_CREATE = zzreal.IN_CREATE
const IN_DELETE = zzreal.IN_DELETE
const IN_DELETE_SELF = zzreal.IN_DELETE_SELF
const IN_DONT_FOLLOW = zzreal.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = zzreal.IN_EXCL_UNLINK
const IN_IGNORED = zzreal.IN_IGNORED
const IN_ISDIR = zzreal.IN_ISDIR
const IN_LOOPBACKNET = zzreal.IN_LOOPBACKNET
const IN_MASK_ADD = zzreal.IN_MASK_ADD
const IN_MODIFY = zzreal.IN_MODIFY
const IN_MOVE = zzreal.IN_MOVE
const IN_MOVED_FROM = zzreal.IN_MOVED_FROM
const IN_MOVED_TO = zzreal.IN_MOVED_TO
const IN_MOVE_SELF = zzreal.IN_MOVE_SELF
const IN_NONBLOCK = zzreal.IN_NONBLOCK
const IN_ONESHOT = zzreal.IN_ONESHOT
const IN_ONLYDIR = zzreal.IN_ONLYDIR
const IN_OPEN = zzreal.IN_OPEN
const IN_Q_OVERFLOW = zzreal.IN_Q_OVERFLOW
const IN_UNMOUNT = zzreal.IN_UNMOUNT

type IPMreq = zzreal.IPMreq
type IPMreqn = zzreal.IPMreqn

const IPPROTO_AH = zzreal.IPPROTO_AH
const IPPROTO_COMP = zzreal.IPPROTO_COMP
const IPPROTO_DCCP = zzreal.IPPROTO_DCCP
const IPPROTO_DSTOPTS = zzreal.IPPROTO_DSTOPTS
const IPPROTO_EGP = zzreal.IPPROTO_EGP
const IPPROTO_ENCAP = zzreal.IPPROTO_ENCAP
const IPPROTO_ESP = zzreal.IPPROTO_ESP
const IPPROTO_FRAGMENT = zzreal.IPPROTO_FRAGMENT
const IPPROTO_GRE = zzreal.IPPROTO_GRE
const IPPROTO_HOPOPTS = zzreal.IPPROTO_HOPOPTS
const IPPROTO_ICMP = zzreal.IPPROTO_ICMP
const IPPROTO_ICMPV6 = zzreal.IPPROTO_ICMPV6
const IPPROTO_IDP = zzreal.IPPROTO_IDP
const IPPROTO_IGMP = zzreal.IPPROTO_IGMP
const IPPROTO_IP = zzreal.IPPROTO_IP
const IPPROTO_IPIP = zzreal.IPPROTO_IPIP
const IPPROTO_IPV6 = zzreal.IPPROTO_IPV6
const IPPROTO_MTP = zzreal.IPPROTO_MTP
const IPPROTO_NONE = zzreal.IPPROTO_NONE
const IPPROTO_PIM = zzreal.IPPROTO_PIM
const IPPROTO_PUP = zzreal.IPPROTO_PUP
const IPPROTO_RAW = zzreal.IPPROTO_RAW
const IPPROTO_ROUTING = zzreal.IPPROTO_ROUTING
const IPPROTO_RSVP = zzreal.IPPROTO_RSVP
const IPPROTO_SCTP = zzreal.IPPROTO_SCTP
const IPPROTO_TCP = zzreal.IPPROTO_TCP
const IPPROTO_TP = zzreal.IPPROTO_TP
const IPPROTO_UDP = zzreal.IPPROTO_UDP
const IPPROTO_UDPLITE = zzreal.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = zzreal.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = zzreal.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = zzreal.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = zzreal.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = zzreal.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = zzreal.IPV6_2292RTHDR
const IPV6_ADDRFORM = zzreal.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = zzreal.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = zzreal.IPV6_AUTHHDR
const IPV6_CHECKSUM = zzreal.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = zzreal.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = zzreal.IPV6_DSTOPTS
const IPV6_HOPLIMIT = zzreal.IPV6_HOPLIMIT
const IPV6_HOPOPTS = zzreal.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = zzreal.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = zzreal.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = zzreal.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = zzreal.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = zzreal.IPV6_LEAVE_GROUP
const IPV6_MTU = zzreal.IPV6_MTU
const IPV6_MTU_DISCOVER = zzreal.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = zzreal.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = zzreal.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = zzreal.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = zzreal.IPV6_NEXTHOP
const IPV6_PKTINFO = zzreal.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = zzreal.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = zzreal.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = zzreal.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = zzreal.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = zzreal.IPV6_RECVDSTOPTS
const IPV6_RECVERR = zzreal.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = zzreal.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = zzreal.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = zzreal.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = zzreal.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = zzreal.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = zzreal.IPV6_ROUTER_ALERT
const IPV6_RTHDR = zzreal.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = zzreal.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = zzreal.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = zzreal.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = zzreal.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = zzreal.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = zzreal.IPV6_RXHOPOPTS
const IPV6_TCLASS = zzreal.IPV6_TCLASS
const IPV6_UNICAST_HOPS = zzreal.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = zzreal.IPV6_V6ONLY
const IPV6_XFRM_POLICY = zzreal.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = zzreal.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = zzreal.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = zzreal.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = zzreal.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = zzreal.IP_DEFAULT_MULTICAST_TTL
const IP_DF = zzreal.IP_DF
const IP_DROP_MEMBERSHIP = zzreal.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = zzreal.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = zzreal.IP_FREEBIND
const IP_HDRINCL = zzreal.IP_HDRINCL
const IP_IPSEC_POLICY = zzreal.IP_IPSEC_POLICY
const IP_MAXPACKET = zzreal.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = zzreal.IP_MAX_MEMBERSHIPS
const IP_MF = zzreal.IP_MF
const IP_MINTTL = zzreal.IP_MINTTL
const IP_MSFILTER = zzreal.IP_MSFILTER
const IP_MSS = zzreal.IP_MSS
const IP_MTU = zzreal.IP_MTU
const IP_MTU_DISCOVER = zzreal.IP_MTU_DISCOVER
const IP_MULTICAST_IF = zzreal.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = zzreal.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = zzreal.IP_MULTICAST_TTL
const IP_OFFMASK = zzreal.IP_OFFMASK
const IP_OPTIONS = zzreal.IP_OPTIONS
const IP_ORIGDSTADDR = zzreal.IP_ORIGDSTADDR
const IP_PASSSEC = zzreal.IP_PASSSEC
const IP_PKTINFO = zzreal.IP_PKTINFO
const IP_PKTOPTIONS = zzreal.IP_PKTOPTIONS
const IP_PMTUDISC = zzreal.IP_PMTUDISC
const IP_PMTUDISC_DO = zzreal.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = zzreal.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = zzreal.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = zzreal.IP_PMTUDISC_WANT
const IP_RECVERR = zzreal.IP_RECVERR
const IP_RECVOPTS = zzreal.IP_RECVOPTS
const IP_RECVORIGDSTADDR = zzreal.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = zzreal.IP_RECVRETOPTS
const IP_RECVTOS = zzreal.IP_RECVTOS
const IP_RECVTTL = zzreal.IP_RECVTTL
const IP_RETOPTS = zzreal.IP_RETOPTS
const IP_RF = zzreal.IP_RF
const IP_ROUTER_ALERT = zzreal.IP_ROUTER_ALERT
const IP_TOS = zzreal.IP_TOS
const IP_TRANSPARENT = zzreal.IP_TRANSPARENT
const IP_TTL = zzreal.IP_TTL
const IP_UNBLOCK_SOURCE = zzreal.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = zzreal.IP_XFRM_POLICY

type IPv6MTUInfo = zzreal.IPv6MTUInfo
type IPv6Mreq = zzreal.IPv6Mreq

const ISIG = zzreal.ISIG
const ISTRIP = zzreal.ISTRIP
const IUCLC = zzreal.IUCLC
const IUTF8 = zzreal.IUTF8
const IXANY = zzreal.IXANY
const IXOFF = zzreal.IXOFF
const IXON = zzreal.IXON

type IfAddrmsg = zzreal.IfAddrmsg
type IfInfomsg = zzreal.IfInfomsg

const ImplementsGetwd = zzreal.ImplementsGetwd

type Inet4Pktinfo = zzreal.Inet4Pktinfo
type Inet6Pktinfo = zzreal.Inet6Pktinfo
type InotifyEvent = zzreal.InotifyEvent
type Iovec = zzreal.Iovec

const LINUX_REBOOT_CMD_CAD_OFF = zzreal.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = zzreal.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = zzreal.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = zzreal.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = zzreal.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = zzreal.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = zzreal.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = zzreal.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = zzreal.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = zzreal.LINUX_REBOOT_MAGIC2
const LOCK_EX = zzreal.LOCK_EX
const LOCK_NB = zzreal.LOCK_NB
const LOCK_SH = zzreal.LOCK_SH
const LOCK_UN = zzreal.LOCK_UN

type Linger = zzreal.Linger

const MADV_DOFORK = zzreal.MADV_DOFORK
const MADV_DONTFORK = zzreal.MADV_DONTFORK
const MADV_DONTNEED = zzreal.MADV_DONTNEED
const MADV_HUGEPAGE = zzreal.MADV_HUGEPAGE
const MADV_HWPOISON = zzreal.MADV_HWPOISON
const MADV_MERGEABLE = zzreal.MADV_MERGEABLE
const MADV_NOHUGEPAGE = zzreal.MADV_NOHUGEPAGE
const MADV_NORMAL = zzreal.MADV_NORMAL
const MADV_RANDOM = zzreal.MADV_RANDOM
const MADV_REMOVE = zzreal.MADV_REMOVE
const MADV_SEQUENTIAL = zzreal.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = zzreal.MADV_UNMERGEABLE
const MADV_WILLNEED = zzreal.MADV_WILLNEED
const MAP_32BIT = zzreal.MAP_32BIT
const MAP_ANON = zzreal.MAP_ANON
const MAP_ANONYMOUS = zzreal.MAP_ANONYMOUS
const MAP_DENYWRITE = zzreal.MAP_DENYWRITE
const MAP_EXECUTABLE = zzreal.MAP_EXECUTABLE
const MAP_FILE = zzreal.MAP_FILE
const MAP_FIXED = zzreal.MAP_FIXED
const MAP_GROWSDOWN = zzreal.MAP_GROWSDOWN
const MAP_HUGETLB = zzreal.MAP_HUGETLB
const MAP_LOCKED = zzreal.MAP_LOCKED
const MAP_NONBLOCK = zzreal.MAP_NONBLOCK
const MAP_NORESERVE = zzreal.MAP_NORESERVE
const MAP_POPULATE = zzreal.MAP_POPULATE
const MAP_PRIVATE = zzreal.MAP_PRIVATE
const MAP_SHARED = zzreal.MAP_SHARED
const MAP_STACK = zzreal.MAP_STACK
const MAP_TYPE = zzreal.MAP_TYPE
const MCL_CURRENT = zzreal.MCL_CURRENT
const MCL_FUTURE = zzreal.MCL_FUTURE
const MNT_DETACH = zzreal.MNT_DETACH
const MNT_EXPIRE = zzreal.MNT_EXPIRE
const MNT_FORCE = zzreal.MNT_FORCE
const MSG_CMSG_CLOEXEC = zzreal.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = zzreal.MSG_CONFIRM
const MSG_CTRUNC = zzreal.MSG_CTRUNC
const MSG_DONTROUTE = zzreal.MSG_DONTROUTE
const MSG_DONTWAIT = zzreal.MSG_DONTWAIT
const MSG_EOR = zzreal.MSG_EOR
const MSG_ERRQUEUE = zzreal.MSG_ERRQUEUE
const MSG_FASTOPEN = zzreal.MSG_FASTOPEN
const MSG_FIN = zzreal.MSG_FIN
const MSG_MORE = zzreal.MSG_MORE
const MSG_NOSIGNAL = zzreal.MSG_NOSIGNAL
const MSG_OOB = zzreal.MSG_OOB
const MSG_PEEK = zzreal.MSG_PEEK
const MSG_PROXY = zzreal.MSG_PROXY
const MSG_RST = zzreal.MSG_RST
const MSG_SYN = zzreal.MSG_SYN
const MSG_TRUNC = zzreal.MSG_TRUNC
const MSG_TRYHARD = zzreal.MSG_TRYHARD
const MSG_WAITALL = zzreal.MSG_WAITALL
const MSG_WAITFORONE = zzreal.MSG_WAITFORONE
const MS_ACTIVE = zzreal.MS_ACTIVE
const MS_ASYNC = zzreal.MS_ASYNC
const MS_BIND = zzreal.MS_BIND
const MS_DIRSYNC = zzreal.MS_DIRSYNC
const MS_INVALIDATE = zzreal.MS_INVALIDATE
const MS_I_VERSION = zzreal.MS_I_VERSION
const MS_KERNMOUNT = zzreal.MS_KERNMOUNT
const MS_MANDLOCK = zzreal.MS_MANDLOCK
const MS_MGC_MSK = zzreal.MS_MGC_MSK
const MS_MGC_VAL = zzreal.MS_MGC_VAL
const MS_MOVE = zzreal.MS_MOVE
const MS_NOATIME = zzreal.MS_NOATIME
const MS_NODEV = zzreal.MS_NODEV
const MS_NODIRATIME = zzreal.MS_NODIRATIME
const MS_NOEXEC = zzreal.MS_NOEXEC
const MS_NOSUID = zzreal.MS_NOSUID
const MS_NOUSER = zzreal.MS_NOUSER
const MS_POSIXACL = zzreal.MS_POSIXACL
const MS_PRIVATE = zzreal.MS_PRIVATE
const MS_RDONLY = zzreal.MS_RDONLY
const MS_REC = zzreal.MS_REC
const MS_RELATIME = zzreal.MS_RELATIME
const MS_REMOUNT = zzreal.MS_REMOUNT
const MS_RMT_MASK = zzreal.MS_RMT_MASK
const MS_SHARED = zzreal.MS_SHARED
const MS_SILENT = zzreal.MS_SILENT
const MS_SLAVE = zzreal.MS_SLAVE
const MS_STRICTATIME = zzreal.MS_STRICTATIME
const MS_SYNC = zzreal.MS_SYNC
const MS_SYNCHRONOUS = zzreal.MS_SYNCHRONOUS
const MS_UNBINDABLE = zzreal.MS_UNBINDABLE

type Msghdr = zzreal.Msghdr

const NAME_MAX = zzreal.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = zzreal.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = zzreal.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = zzreal.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = zzreal.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = zzreal.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = zzreal.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = zzreal.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = zzreal.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = zzreal.NETLINK_FIREWALL
const NETLINK_GENERIC = zzreal.NETLINK_GENERIC
const NETLINK_INET_DIAG = zzreal.NETLINK_INET_DIAG
const NETLINK_IP6_FW = zzreal.NETLINK_IP6_FW
const NETLINK_ISCSI = zzreal.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = zzreal.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = zzreal.NETLINK_NETFILTER
const NETLINK_NFLOG = zzreal.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = zzreal.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = zzreal.NETLINK_PKTINFO
const NETLINK_ROUTE = zzreal.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = zzreal.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = zzreal.NETLINK_SELINUX
const NETLINK_UNUSED = zzreal.NETLINK_UNUSED
const NETLINK_USERSOCK = zzreal.NETLINK_USERSOCK
const NETLINK_XFRM = zzreal.NETLINK_XFRM
const NLA_ALIGNTO = zzreal.NLA_ALIGNTO
const NLA_F_NESTED = zzreal.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = zzreal.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = zzreal.NLA_HDRLEN
const NLMSG_ALIGNTO = zzreal.NLMSG_ALIGNTO
const NLMSG_DONE = zzreal.NLMSG_DONE
const NLMSG_ERROR = zzreal.NLMSG_ERROR
const NLMSG_HDRLEN = zzreal.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = zzreal.NLMSG_MIN_TYPE
const NLMSG_NOOP = zzreal.NLMSG_NOOP
const NLMSG_OVERRUN = zzreal.NLMSG_OVERRUN
const NLM_F_ACK = zzreal.NLM_F_ACK
const NLM_F_APPEND = zzreal.NLM_F_APPEND
const NLM_F_ATOMIC = zzreal.NLM_F_ATOMIC
const NLM_F_CREATE = zzreal.NLM_F_CREATE
const NLM_F_DUMP = zzreal.NLM_F_DUMP
const NLM_F_ECHO = zzreal.NLM_F_ECHO
const NLM_F_EXCL = zzreal.NLM_F_EXCL
const NLM_F_MATCH = zzreal.NLM_F_MATCH
const NLM_F_MULTI = zzreal.NLM_F_MULTI
const NLM_F_REPLACE = zzreal.NLM_F_REPLACE
const NLM_F_REQUEST = zzreal.NLM_F_REQUEST
const NLM_F_ROOT = zzreal.NLM_F_ROOT
const NOFLSH = zzreal.NOFLSH

type NetlinkMessage = zzreal.NetlinkMessage
type NetlinkRouteAttr = zzreal.NetlinkRouteAttr
type NetlinkRouteRequest = zzreal.NetlinkRouteRequest
type NlAttr = zzreal.NlAttr
type NlMsgerr = zzreal.NlMsgerr
type NlMsghdr = zzreal.NlMsghdr

var NsecToTimespec = zzreal.NsecToTimespec
var NsecToTimeval = zzreal.NsecToTimeval

const OCRNL = zzreal.OCRNL
const OFDEL = zzreal.OFDEL
const OFILL = zzreal.OFILL
const OLCUC = zzreal.OLCUC
const ONLCR = zzreal.ONLCR
const ONLRET = zzreal.ONLRET
const ONOCR = zzreal.ONOCR
const OPOST = zzreal.OPOST
const O_ACCMODE = zzreal.O_ACCMODE
const O_APPEND = zzreal.O_APPEND
const O_ASYNC = zzreal.O_ASYNC
const O_CLOEXEC = zzreal.O_CLOEXEC
const O_CREAT = zzreal.O_CREAT
const O_DIRECT = zzreal.O_DIRECT
const O_DIRECTORY = zzreal.O_DIRECTORY
const O_DSYNC = zzreal.O_DSYNC
const O_EXCL = zzreal.O_EXCL
const O_FSYNC = zzreal.O_FSYNC
const O_LARGEFILE = zzreal.O_LARGEFILE
const O_NDELAY = zzreal.O_NDELAY
const O_NOATIME = zzreal.O_NOATIME
const O_NOCTTY = zzreal.O_NOCTTY
const O_NOFOLLOW = zzreal.O_NOFOLLOW
const O_NONBLOCK = zzreal.O_NONBLOCK
const O_RDONLY = zzreal.O_RDONLY
const O_RDWR = zzreal.O_RDWR
const O_RSYNC = zzreal.O_RSYNC
const O_SYNC = zzreal.O_SYNC
const O_TRUNC = zzreal.O_TRUNC
const O_WRONLY = zzreal.O_WRONLY
const PACKET_ADD_MEMBERSHIP = zzreal.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = zzreal.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = zzreal.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = zzreal.PACKET_FASTROUTE
const PACKET_HOST = zzreal.PACKET_HOST
const PACKET_LOOPBACK = zzreal.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = zzreal.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = zzreal.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = zzreal.PACKET_MR_PROMISC
const PACKET_MULTICAST = zzreal.PACKET_MULTICAST
const PACKET_OTHERHOST = zzreal.PACKET_OTHERHOST
const PACKET_OUTGOING = zzreal.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = zzreal.PACKET_RECV_OUTPUT
const PACKET_RX_RING = zzreal.PACKET_RX_RING
const PACKET_STATISTICS = zzreal.PACKET_STATISTICS
const PARENB = zzreal.PARENB
const PARMRK = zzreal.PARMRK
const PARODD = zzreal.PARODD
const PENDIN = zzreal.PENDIN
const PRIO_PGRP = zzreal.PRIO_PGRP
const PRIO_PROCESS = zzreal.PRIO_PROCESS
const PRIO_USER = zzreal.PRIO_USER
const PROT_EXEC = zzreal.PROT_EXEC
const PROT_GROWSDOWN = zzreal.PROT_GROWSDOWN
const PROT_GROWSUP = zzreal.PROT_GROWSUP
const PROT_NONE = zzreal.PROT_NONE
const PROT_READ = zzreal.PROT_READ
const PROT_WRITE = zzreal.PROT_WRITE
const PR_CAPBSET_DROP = zzreal.PR_CAPBSET_DROP
const PR_CAPBSET_READ = zzreal.PR_CAPBSET_READ
const PR_ENDIAN_BIG = zzreal.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = zzreal.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = zzreal.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = zzreal.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = zzreal.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = zzreal.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = zzreal.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = zzreal.PR_FP_EXC_DIV
const PR_FP_EXC_INV = zzreal.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = zzreal.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = zzreal.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = zzreal.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = zzreal.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = zzreal.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = zzreal.PR_FP_EXC_UND
const PR_GET_DUMPABLE = zzreal.PR_GET_DUMPABLE
const PR_GET_ENDIAN = zzreal.PR_GET_ENDIAN
const PR_GET_FPEMU = zzreal.PR_GET_FPEMU
const PR_GET_FPEXC = zzreal.PR_GET_FPEXC
const PR_GET_KEEPCAPS = zzreal.PR_GET_KEEPCAPS
const PR_GET_NAME = zzreal.PR_GET_NAME
const PR_GET_PDEATHSIG = zzreal.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = zzreal.PR_GET_SECCOMP
const PR_GET_SECUREBITS = zzreal.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = zzreal.PR_GET_TIMERSLACK
const PR_GET_TIMING = zzreal.PR_GET_TIMING
const PR_GET_TSC = zzreal.PR_GET_TSC
const PR_GET_UNALIGN = zzreal.PR_GET_UNALIGN
const PR_MCE_KILL = zzreal.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = zzreal.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = zzreal.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = zzreal.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = zzreal.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = zzreal.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = zzreal.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = zzreal.PR_SET_DUMPABLE
const PR_SET_ENDIAN = zzreal.PR_SET_ENDIAN
const PR_SET_FPEMU = zzreal.PR_SET_FPEMU
const PR_SET_FPEXC = zzreal.PR_SET_FPEXC
const PR_SET_KEEPCAPS = zzreal.PR_SET_KEEPCAPS
const PR_SET_NAME = zzreal.PR_SET_NAME
const PR_SET_PDEATHSIG = zzreal.PR_SET_PDEATHSIG
const PR_SET_PTRACER = zzreal.PR_SET_PTRACER
const PR_SET_SECCOMP = zzreal.PR_SET_SECCOMP
const PR_SET_SECUREBITS = zzreal.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = zzreal.PR_SET_TIMERSLACK
const PR_SET_TIMING = zzreal.PR_SET_TIMING
const PR_SET_TSC = zzreal.PR_SET_TSC
const PR_SET_UNALIGN = zzreal.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = zzreal.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = zzreal.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = zzreal.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = zzreal.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = zzreal.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = zzreal.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = zzreal.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = zzreal.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = zzreal.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = zzreal.PTRACE_ATTACH
const PTRACE_CONT = zzreal.PTRACE_CONT
const PTRACE_DETACH = zzreal.PTRACE_DETACH
const PTRACE_EVENT_CLONE = zzreal.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = zzreal.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = zzreal.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = zzreal.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = zzreal.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = zzreal.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = zzreal.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = zzreal.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = zzreal.PTRACE_GETFPXREGS
const PTRACE_GETREGS = zzreal.PTRACE_GETREGS
const PTRACE_GETREGSET = zzreal.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = zzreal.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = zzreal.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = zzreal.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = zzreal.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = zzreal.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = zzreal.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = zzreal.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = zzreal.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = zzreal.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = zzreal.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = zzreal.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = zzreal.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = zzreal.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = zzreal.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = zzreal.PTRACE_PEEKUSR
const PTRACE_POKEDATA = zzreal.PTRACE_POKEDATA
const PTRACE_POKETEXT = zzreal.PTRACE_POKETEXT
const PTRACE_POKEUSR = zzreal.PTRACE_POKEUSR
const PTRACE_SETFPREGS = zzreal.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = zzreal.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = zzreal.PTRACE_SETOPTIONS
const PTRACE_SETREGS = zzreal.PTRACE_SETREGS
const PTRACE_SETREGSET = zzreal.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = zzreal.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = zzreal.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = zzreal.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = zzreal.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = zzreal.PTRACE_SYSCALL
const PTRACE_SYSEMU = zzreal.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = zzreal.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = zzreal.PTRACE_TRACEME
const PathMax = zzreal.PathMax

type ProcAttr = zzreal.ProcAttr
type PtraceRegs = zzreal.PtraceRegs

const RLIMIT_AS = zzreal.RLIMIT_AS
const RLIMIT_CORE = zzreal.RLIMIT_CORE
const RLIMIT_CPU = zzreal.RLIMIT_CPU
const RLIMIT_DATA = zzreal.RLIMIT_DATA
const RLIMIT_FSIZE = zzreal.RLIMIT_FSIZE
const RLIMIT_NOFILE = zzreal.RLIMIT_NOFILE
const RLIMIT_STACK = zzreal.RLIMIT_STACK
const RLIM_INFINITY = zzreal.RLIM_INFINITY
const RTAX_ADVMSS = zzreal.RTAX_ADVMSS
const RTAX_CWND = zzreal.RTAX_CWND
const RTAX_FEATURES = zzreal.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = zzreal.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = zzreal.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = zzreal.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = zzreal.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = zzreal.RTAX_HOPLIMIT
const RTAX_INITCWND = zzreal.RTAX_INITCWND
const RTAX_INITRWND = zzreal.RTAX_INITRWND
const RTAX_LOCK = zzreal.RTAX_LOCK
const RTAX_MAX = zzreal.RTAX_MAX
const RTAX_MTU = zzreal.RTAX_MTU
const RTAX_REORDERING = zzreal.RTAX_REORDERING
const RTAX_RTO_MIN = zzreal.RTAX_RTO_MIN
const RTAX_RTT = zzreal.RTAX_RTT
const RTAX_RTTVAR = zzreal.RTAX_RTTVAR
const RTAX_SSTHRESH = zzreal.RTAX_SSTHRESH
const RTAX_UNSPEC = zzreal.RTAX_UNSPEC
const RTAX_WINDOW = zzreal.RTAX_WINDOW
const RTA_ALIGNTO = zzreal.RTA_ALIGNTO
const RTA_CACHEINFO = zzreal.RTA_CACHEINFO
const RTA_DST = zzreal.RTA_DST
const RTA_FLOW = zzreal.RTA_FLOW
const RTA_GATEWAY = zzreal.RTA_GATEWAY
const RTA_IIF = zzreal.RTA_IIF
const RTA_MAX = zzreal.RTA_MAX
const RTA_METRICS = zzreal.RTA_METRICS
const RTA_MULTIPATH = zzreal.RTA_MULTIPATH
const RTA_OIF = zzreal.RTA_OIF
const RTA_PREFSRC = zzreal.RTA_PREFSRC
const RTA_PRIORITY = zzreal.RTA_PRIORITY
const RTA_SRC = zzreal.RTA_SRC
const RTA_TABLE = zzreal.RTA_TABLE
const RTA_UNSPEC = zzreal.RTA_UNSPEC
const RTCF_DIRECTSRC = zzreal.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = zzreal.RTCF_DOREDIRECT
const RTCF_LOG = zzreal.RTCF_LOG
const RTCF_MASQ = zzreal.RTCF_MASQ
const RTCF_NAT = zzreal.RTCF_NAT
const RTCF_VALVE = zzreal.RTCF_VALVE
const RTF_ADDRCLASSMASK = zzreal.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = zzreal.RTF_ADDRCONF
const RTF_ALLONLINK = zzreal.RTF_ALLONLINK
const RTF_BROADCAST = zzreal.RTF_BROADCAST
const RTF_CACHE = zzreal.RTF_CACHE
const RTF_DEFAULT = zzreal.RTF_DEFAULT
const RTF_DYNAMIC = zzreal.RTF_DYNAMIC
const RTF_FLOW = zzreal.RTF_FLOW
const RTF_GATEWAY = zzreal.RTF_GATEWAY
const RTF_HOST = zzreal.RTF_HOST
const RTF_INTERFACE = zzreal.RTF_INTERFACE
const RTF_IRTT = zzreal.RTF_IRTT
const RTF_LINKRT = zzreal.RTF_LINKRT
const RTF_LOCAL = zzreal.RTF_LOCAL
const RTF_MODIFIED = zzreal.RTF_MODIFIED
const RTF_MSS = zzreal.RTF_MSS
const RTF_MTU = zzreal.RTF_MTU
const RTF_MULTICAST = zzreal.RTF_MULTICAST
const RTF_NAT = zzreal.RTF_NAT
const RTF_NOFORWARD = zzreal.RTF_NOFORWARD
const RTF_NONEXTHOP = zzreal.RTF_NONEXTHOP
const RTF_NOPMTUDISC = zzreal.RTF_NOPMTUDISC
const RTF_POLICY = zzreal.RTF_POLICY
const RTF_REINSTATE = zzreal.RTF_REINSTATE
const RTF_REJECT = zzreal.RTF_REJECT
const RTF_STATIC = zzreal.RTF_STATIC
const RTF_THROW = zzreal.RTF_THROW
const RTF_UP = zzreal.RTF_UP
const RTF_WINDOW = zzreal.RTF_WINDOW
const RTF_XRESOLVE = zzreal.RTF_XRESOLVE
const RTM_BASE = zzreal.RTM_BASE
const RTM_DELACTION = zzreal.RTM_DELACTION
const RTM_DELADDR = zzreal.RTM_DELADDR
const RTM_DELADDRLABEL = zzreal.RTM_DELADDRLABEL
const RTM_DELLINK = zzreal.RTM_DELLINK
const RTM_DELNEIGH = zzreal.RTM_DELNEIGH
const RTM_DELQDISC = zzreal.RTM_DELQDISC
const RTM_DELROUTE = zzreal.RTM_DELROUTE
const RTM_DELRULE = zzreal.RTM_DELRULE
const RTM_DELTCLASS = zzreal.RTM_DELTCLASS
const RTM_DELTFILTER = zzreal.RTM_DELTFILTER
const RTM_F_CLONED = zzreal.RTM_F_CLONED
const RTM_F_EQUALIZE = zzreal.RTM_F_EQUALIZE
const RTM_F_NOTIFY = zzreal.RTM_F_NOTIFY
const RTM_F_PREFIX = zzreal.RTM_F_PREFIX
const RTM_GETACTION = zzreal.RTM_GETACTION
const RTM_GETADDR = zzreal.RTM_GETADDR
const RTM_GETADDRLABEL = zzreal.RTM_GETADDRLABEL
const RTM_GETANYCAST = zzreal.RTM_GETANYCAST
const RTM_GETDCB = zzreal.RTM_GETDCB
const RTM_GETLINK = zzreal.RTM_GETLINK
const RTM_GETMULTICAST = zzreal.RTM_GETMULTICAST
const RTM_GETNEIGH = zzreal.RTM_GETNEIGH
const RTM_GETNEIGHTBL = zzreal.RTM_GETNEIGHTBL
const RTM_GETQDISC = zzreal.RTM_GETQDISC
const RTM_GETROUTE = zzreal.RTM_GETROUTE
const RTM_GETRULE = zzreal.RTM_GETRULE
const RTM_GETTCLASS = zzreal.RTM_GETTCLASS
const RTM_GETTFILTER = zzreal.RTM_GETTFILTER
const RTM_MAX = zzreal.RTM_MAX
const RTM_NEWACTION = zzreal.RTM_NEWACTION
const RTM_NEWADDR = zzreal.RTM_NEWADDR
const RTM_NEWADDRLABEL = zzreal.RTM_NEWADDRLABEL
const RTM_NEWLINK = zzreal.RTM_NEWLINK
const RTM_NEWNDUSEROPT = zzreal.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = zzreal.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = zzreal.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = zzreal.RTM_NEWPREFIX
const RTM_NEWQDISC = zzreal.RTM_NEWQDISC
const RTM_NEWROUTE = zzreal.RTM_NEWROUTE
const RTM_NEWRULE = zzreal.RTM_NEWRULE
const RTM_NEWTCLASS = zzreal.RTM_NEWTCLASS
const RTM_NEWTFILTER = zzreal.RTM_NEWTFILTER
const RTM_NR_FAMILIES = zzreal.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = zzreal.RTM_NR_MSGTYPES
const RTM_SETDCB = zzreal.RTM_SETDCB
const RTM_SETLINK = zzreal.RTM_SETLINK
const RTM_SETNEIGHTBL = zzreal.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = zzreal.RTNH_ALIGNTO
const RTNH_F_DEAD = zzreal.RTNH_F_DEAD
const RTNH_F_ONLINK = zzreal.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = zzreal.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = zzreal.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = zzreal.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = zzreal.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = zzreal.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = zzreal.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = zzreal.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = zzreal.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = zzreal.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = zzreal.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = zzreal.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = zzreal.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = zzreal.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = zzreal.RTNLGRP_NEIGH
const RTNLGRP_NONE = zzreal.RTNLGRP_NONE
const RTNLGRP_NOTIFY = zzreal.RTNLGRP_NOTIFY
const RTNLGRP_TC = zzreal.RTNLGRP_TC
const RTN_ANYCAST = zzreal.RTN_ANYCAST
const RTN_BLACKHOLE = zzreal.RTN_BLACKHOLE
const RTN_BROADCAST = zzreal.RTN_BROADCAST
const RTN_LOCAL = zzreal.RTN_LOCAL
const RTN_MAX = zzreal.RTN_MAX
const RTN_MULTICAST = zzreal.RTN_MULTICAST
const RTN_NAT = zzreal.RTN_NAT
const RTN_PROHIBIT = zzreal.RTN_PROHIBIT
const RTN_THROW = zzreal.RTN_THROW
const RTN_UNICAST = zzreal.RTN_UNICAST
const RTN_UNREACHABLE = zzreal.RTN_UNREACHABLE
const RTN_UNSPEC = zzreal.RTN_UNSPEC
const RTN_XRESOLVE = zzreal.RTN_XRESOLVE
const RTPROT_BIRD = zzreal.RTPROT_BIRD
const RTPROT_BOOT = zzreal.RTPROT_BOOT
const RTPROT_DHCP = zzreal.RTPROT_DHCP
const RTPROT_DNROUTED = zzreal.RTPROT_DNROUTED
const RTPROT_GATED = zzreal.RTPROT_GATED
const RTPROT_KERNEL = zzreal.RTPROT_KERNEL
const RTPROT_MRT = zzreal.RTPROT_MRT
const RTPROT_NTK = zzreal.RTPROT_NTK
const RTPROT_RA = zzreal.RTPROT_RA
const RTPROT_REDIRECT = zzreal.RTPROT_REDIRECT
const RTPROT_STATIC = zzreal.RTPROT_STATIC
const RTPROT_UNSPEC = zzreal.RTPROT_UNSPEC
const RTPROT_XORP = zzreal.RTPROT_XORP
const RTPROT_ZEBRA = zzreal.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = zzreal.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = zzreal.RT_CLASS_LOCAL
const RT_CLASS_MAIN = zzreal.RT_CLASS_MAIN
const RT_CLASS_MAX = zzreal.RT_CLASS_MAX
const RT_CLASS_UNSPEC = zzreal.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = zzreal.RT_SCOPE_HOST
const RT_SCOPE_LINK = zzreal.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = zzreal.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = zzreal.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = zzreal.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = zzreal.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = zzreal.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = zzreal.RT_TABLE_LOCAL
const RT_TABLE_MAIN = zzreal.RT_TABLE_MAIN
const RT_TABLE_MAX = zzreal.RT_TABLE_MAX
const RT_TABLE_UNSPEC = zzreal.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = zzreal.RUSAGE_CHILDREN
const RUSAGE_SELF = zzreal.RUSAGE_SELF
const RUSAGE_THREAD = zzreal.RUSAGE_THREAD

type RawConn = zzreal.RawConn
type RawSockaddr = zzreal.RawSockaddr
type RawSockaddrAny = zzreal.RawSockaddrAny
type RawSockaddrInet4 = zzreal.RawSockaddrInet4
type RawSockaddrInet6 = zzreal.RawSockaddrInet6
type RawSockaddrLinklayer = zzreal.RawSockaddrLinklayer
type RawSockaddrNetlink = zzreal.RawSockaddrNetlink
type RawSockaddrUnix = zzreal.RawSockaddrUnix
type Rlimit = zzreal.Rlimit
type RtAttr = zzreal.RtAttr
type RtGenmsg = zzreal.RtGenmsg
type RtMsg = zzreal.RtMsg
type RtNexthop = zzreal.RtNexthop
type Rusage = zzreal.Rusage

const SCM_CREDENTIALS = zzreal.SCM_CREDENTIALS
const SCM_RIGHTS = zzreal.SCM_RIGHTS
const SCM_TIMESTAMP = zzreal.SCM_TIMESTAMP
const SCM_TIMESTAMPING = zzreal.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = zzreal.SCM_TIMESTAMPNS
const SHUT_RD = zzreal.SHUT_RD
const SHUT_RDWR = zzreal.SHUT_RDWR
const SHUT_WR = zzreal.SHUT_WR
const SIGABRT = zzreal.SIGABRT
const SIGALRM = zzreal.SIGALRM
const SIGBUS = zzreal.SIGBUS
const SIGCHLD = zzreal.SIGCHLD
const SIGCLD = zzreal.SIGCLD
const SIGCONT = zzreal.SIGCONT
const SIGFPE = zzreal.SIGFPE
const SIGHUP = zzreal.SIGHUP
const SIGILL = zzreal.SIGILL
const SIGINT = zzreal.SIGINT
const SIGIO = zzreal.SIGIO
const SIGIOT = zzreal.SIGIOT
const SIGKILL = zzreal.SIGKILL
const SIGPIPE = zzreal.SIGPIPE
const SIGPOLL = zzreal.SIGPOLL
const SIGPROF = zzreal.SIGPROF
const SIGPWR = zzreal.SIGPWR
const SIGQUIT = zzreal.SIGQUIT
const SIGSEGV = zzreal.SIGSEGV
const SIGSTKFLT = zzreal.SIGSTKFLT
const SIGSTOP = zzreal.SIGSTOP
const SIGSYS = zzreal.SIGSYS
const SIGTERM = zzreal.SIGTERM
const SIGTRAP = zzreal.SIGTRAP
const SIGTSTP = zzreal.SIGTSTP
const SIGTTIN = zzreal.SIGTTIN
const SIGTTOU = zzreal.SIGTTOU
const SIGUNUSED = zzreal.SIGUNUSED
const SIGURG = zzreal.SIGURG
const SIGUSR1 = zzreal.SIGUSR1
const SIGUSR2 = zzreal.SIGUSR2
const SIGVTALRM = zzreal.SIGVTALRM
const SIGWINCH = zzreal.SIGWINCH
const SIGXCPU = zzreal.SIGXCPU
const SIGXFSZ = zzreal.SIGXFSZ
const SIOCADDDLCI = zzreal.SIOCADDDLCI
const SIOCADDMULTI = zzreal.SIOCADDMULTI
const SIOCADDRT = zzreal.SIOCADDRT
const SIOCATMARK = zzreal.SIOCATMARK
const SIOCDARP = zzreal.SIOCDARP
const SIOCDELDLCI = zzreal.SIOCDELDLCI
const SIOCDELMULTI = zzreal.SIOCDELMULTI
const SIOCDELRT = zzreal.SIOCDELRT
const SIOCDEVPRIVATE = zzreal.SIOCDEVPRIVATE
const SIOCDIFADDR = zzreal.SIOCDIFADDR
const SIOCDRARP = zzreal.SIOCDRARP
const SIOCGARP = zzreal.SIOCGARP
const SIOCGIFADDR = zzreal.SIOCGIFADDR
const SIOCGIFBR = zzreal.SIOCGIFBR
const SIOCGIFBRDADDR = zzreal.SIOCGIFBRDADDR
const SIOCGIFCONF = zzreal.SIOCGIFCONF
const SIOCGIFCOUNT = zzreal.SIOCGIFCOUNT
const SIOCGIFDSTADDR = zzreal.SIOCGIFDSTADDR
const SIOCGIFENCAP = zzreal.SIOCGIFENCAP
const SIOCGIFFLAGS = zzreal.SIOCGIFFLAGS
const SIOCGIFHWADDR = zzreal.SIOCGIFHWADDR
const SIOCGIFINDEX = zzreal.SIOCGIFINDEX
const SIOCGIFMAP = zzreal.SIOCGIFMAP
const SIOCGIFMEM = zzreal.SIOCGIFMEM
const SIOCGIFMETRIC = zzreal.SIOCGIFMETRIC
const SIOCGIFMTU = zzreal.SIOCGIFMTU
const SIOCGIFNAME = zzreal.SIOCGIFNAME
const SIOCGIFNETMASK = zzreal.SIOCGIFNETMASK
const SIOCGIFPFLAGS = zzreal.SIOCGIFPFLAGS
const SIOCGIFSLAVE = zzreal.SIOCGIFSLAVE
const SIOCGIFTXQLEN = zzreal.SIOCGIFTXQLEN
const SIOCGPGRP = zzreal.SIOCGPGRP
const SIOCGRARP = zzreal.SIOCGRARP
const SIOCGSTAMP = zzreal.SIOCGSTAMP
const SIOCGSTAMPNS = zzreal.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = zzreal.SIOCPROTOPRIVATE
const SIOCRTMSG = zzreal.SIOCRTMSG
const SIOCSARP = zzreal.SIOCSARP
const SIOCSIFADDR = zzreal.SIOCSIFADDR
const SIOCSIFBR = zzreal.SIOCSIFBR
const SIOCSIFBRDADDR = zzreal.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = zzreal.SIOCSIFDSTADDR
const SIOCSIFENCAP = zzreal.SIOCSIFENCAP
const SIOCSIFFLAGS = zzreal.SIOCSIFFLAGS
const SIOCSIFHWADDR = zzreal.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = zzreal.SIOCSIFHWBROADCAST
const SIOCSIFLINK = zzreal.SIOCSIFLINK
const SIOCSIFMAP = zzreal.SIOCSIFMAP
const SIOCSIFMEM = zzreal.SIOCSIFMEM
const SIOCSIFMETRIC = zzreal.SIOCSIFMETRIC
const SIOCSIFMTU = zzreal.SIOCSIFMTU
const SIOCSIFNAME = zzreal.SIOCSIFNAME
const SIOCSIFNETMASK = zzreal.SIOCSIFNETMASK
const SIOCSIFPFLAGS = zzreal.SIOCSIFPFLAGS
const SIOCSIFSLAVE = zzreal.SIOCSIFSLAVE
const SIOCSIFTXQLEN = zzreal.SIOCSIFTXQLEN
const SIOCSPGRP = zzreal.SIOCSPGRP
const SIOCSRARP = zzreal.SIOCSRARP
const SOCK_CLOEXEC = zzreal.SOCK_CLOEXEC
const SOCK_DCCP = zzreal.SOCK_DCCP
const SOCK_DGRAM = zzreal.SOCK_DGRAM
const SOCK_NONBLOCK = zzreal.SOCK_NONBLOCK
const SOCK_PACKET = zzreal.SOCK_PACKET
const SOCK_RAW = zzreal.SOCK_RAW
const SOCK_RDM = zzreal.SOCK_RDM
const SOCK_SEQPACKET = zzreal.SOCK_SEQPACKET
const SOCK_STREAM = zzreal.SOCK_STREAM
const SOL_AAL = zzreal.SOL_AAL
const SOL_ATM = zzreal.SOL_ATM
const SOL_DECNET = zzreal.SOL_DECNET
const SOL_ICMPV6 = zzreal.SOL_ICMPV6
const SOL_IP = zzreal.SOL_IP
const SOL_IPV6 = zzreal.SOL_IPV6
const SOL_IRDA = zzreal.SOL_IRDA
const SOL_PACKET = zzreal.SOL_PACKET
const SOL_RAW = zzreal.SOL_RAW
const SOL_SOCKET = zzreal.SOL_SOCKET
const SOL_TCP = zzreal.SOL_TCP
const SOL_X25 = zzreal.SOL_X25
const SOMAXCONN = zzreal.SOMAXCONN
const SO_ACCEPTCONN = zzreal.SO_ACCEPTCONN
const SO_ATTACH_FILTER = zzreal.SO_ATTACH_FILTER
const SO_BINDTODEVICE = zzreal.SO_BINDTODEVICE
const SO_BROADCAST = zzreal.SO_BROADCAST
const SO_BSDCOMPAT = zzreal.SO_BSDCOMPAT
const SO_DEBUG = zzreal.SO_DEBUG
const SO_DETACH_FILTER = zzreal.SO_DETACH_FILTER
const SO_DOMAIN = zzreal.SO_DOMAIN
const SO_DONTROUTE = zzreal.SO_DONTROUTE
const SO_ERROR = zzreal.SO_ERROR
const SO_KEEPALIVE = zzreal.SO_KEEPALIVE
const SO_LINGER = zzreal.SO_LINGER
const SO_MARK = zzreal.SO_MARK
const SO_NO_CHECK = zzreal.SO_NO_CHECK
const SO_OOBINLINE = zzreal.SO_OOBINLINE
const SO_PASSCRED = zzreal.SO_PASSCRED
const SO_PASSSEC = zzreal.SO_PASSSEC
const SO_PEERCRED = zzreal.SO_PEERCRED
const SO_PEERNAME = zzreal.SO_PEERNAME
const SO_PEERSEC = zzreal.SO_PEERSEC
const SO_PRIORITY = zzreal.SO_PRIORITY
const SO_PROTOCOL = zzreal.SO_PROTOCOL
const SO_RCVBUF = zzreal.SO_RCVBUF
const SO_RCVBUFFORCE = zzreal.SO_RCVBUFFORCE
const SO_RCVLOWAT = zzreal.SO_RCVLOWAT
const SO_RCVTIMEO = zzreal.SO_RCVTIMEO
const SO_REUSEADDR = zzreal.SO_REUSEADDR
const SO_RXQ_OVFL = zzreal.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = zzreal.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = zzreal.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = zzreal.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = zzreal.SO_SNDBUF
const SO_SNDBUFFORCE = zzreal.SO_SNDBUFFORCE
const SO_SNDLOWAT = zzreal.SO_SNDLOWAT
const SO_SNDTIMEO = zzreal.SO_SNDTIMEO
const SO_TIMESTAMP = zzreal.SO_TIMESTAMP
const SO_TIMESTAMPING = zzreal.SO_TIMESTAMPING
const SO_TIMESTAMPNS = zzreal.SO_TIMESTAMPNS
const SO_TYPE = zzreal.SO_TYPE
const SYS_ACCEPT = zzreal.SYS_ACCEPT
const SYS_ACCEPT4 = zzreal.SYS_ACCEPT4
const SYS_ACCESS = zzreal.SYS_ACCESS
const SYS_ACCT = zzreal.SYS_ACCT
const SYS_ADD_KEY = zzreal.SYS_ADD_KEY
const SYS_ADJTIMEX = zzreal.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = zzreal.SYS_AFS_SYSCALL
const SYS_ALARM = zzreal.SYS_ALARM
const SYS_ARCH_PRCTL = zzreal.SYS_ARCH_PRCTL
const SYS_BIND = zzreal.SYS_BIND
const SYS_BRK = zzreal.SYS_BRK
const SYS_CAPGET = zzreal.SYS_CAPGET
const SYS_CAPSET = zzreal.SYS_CAPSET
const SYS_CHDIR = zzreal.SYS_CHDIR
const SYS_CHMOD = zzreal.SYS_CHMOD
const SYS_CHOWN = zzreal.SYS_CHOWN
const SYS_CHROOT = zzreal.SYS_CHROOT
const SYS_CLOCK_GETRES = zzreal.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = zzreal.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = zzreal.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = zzreal.SYS_CLOCK_SETTIME
const SYS_CLONE = zzreal.SYS_CLONE
const SYS_CLOSE = zzreal.SYS_CLOSE
const SYS_CONNECT = zzreal.SYS_CONNECT
const SYS_CREAT = zzreal.SYS_CREAT
const SYS_CREATE_MODULE = zzreal.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = zzreal.SYS_DELETE_MODULE
const SYS_DUP = zzreal.SYS_DUP
const SYS_DUP2 = zzreal.SYS_DUP2
const SYS_DUP3 = zzreal.SYS_DUP3
const SYS_EPOLL_CREATE = zzreal.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = zzreal.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = zzreal.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = zzreal.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = zzreal.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = zzreal.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = zzreal.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = zzreal.SYS_EVENTFD
const SYS_EVENTFD2 = zzreal.SYS_EVENTFD2
const SYS_EXECVE = zzreal.SYS_EXECVE
const SYS_EXIT = zzreal.SYS_EXIT
const SYS_EXIT_GROUP = zzreal.SYS_EXIT_GROUP
const SYS_FACCESSAT = zzreal.SYS_FACCESSAT
const SYS_FADVISE64 = zzreal.SYS_FADVISE64
const SYS_FALLOCATE = zzreal.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = zzreal.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = zzreal.SYS_FANOTIFY_MARK
const SYS_FCHDIR = zzreal.SYS_FCHDIR
const SYS_FCHMOD = zzreal.SYS_FCHMOD
const SYS_FCHMODAT = zzreal.SYS_FCHMODAT
const SYS_FCHOWN = zzreal.SYS_FCHOWN
const SYS_FCHOWNAT = zzreal.SYS_FCHOWNAT
const SYS_FCNTL = zzreal.SYS_FCNTL
const SYS_FDATASYNC = zzreal.SYS_FDATASYNC
const SYS_FGETXATTR = zzreal.SYS_FGETXATTR
const SYS_FLISTXATTR = zzreal.SYS_FLISTXATTR
const SYS_FLOCK = zzreal.SYS_FLOCK
const SYS_FORK = zzreal.SYS_FORK
const SYS_FREMOVEXATTR = zzreal.SYS_FREMOVEXATTR
const SYS_FSETXATTR = zzreal.SYS_FSETXATTR
const SYS_FSTAT = zzreal.SYS_FSTAT
const SYS_FSTATFS = zzreal.SYS_FSTATFS
const SYS_FSYNC = zzreal.SYS_FSYNC
const SYS_FTRUNCATE = zzreal.SYS_FTRUNCATE
const SYS_FUTEX = zzreal.SYS_FUTEX
const SYS_FUTIMESAT = zzreal.SYS_FUTIMESAT
const SYS_GETCWD = zzreal.SYS_GETCWD
const SYS_GETDENTS = zzreal.SYS_GETDENTS
const SYS_GETDENTS64 = zzreal.SYS_GETDENTS64
const SYS_GETEGID = zzreal.SYS_GETEGID
const SYS_GETEUID = zzreal.SYS_GETEUID
const SYS_GETGID = zzreal.SYS_GETGID
const SYS_GETGROUPS = zzreal.SYS_GETGROUPS
const SYS_GETITIMER = zzreal.SYS_GETITIMER
const SYS_GETPEERNAME = zzreal.SYS_GETPEERNAME
const SYS_GETPGID = zzreal.SYS_GETPGID
const SYS_GETPGRP = zzreal.SYS_GETPGRP
const SYS_GETPID = zzreal.SYS_GETPID
const SYS_GETPMSG = zzreal.SYS_GETPMSG
const SYS_GETPPID = zzreal.SYS_GETPPID
const SYS_GETPRIORITY = zzreal.SYS_GETPRIORITY
const SYS_GETRESGID = zzreal.SYS_GETRESGID
const SYS_GETRESUID = zzreal.SYS_GETRESUID
const SYS_GETRLIMIT = zzreal.SYS_GETRLIMIT
const SYS_GETRUSAGE = zzreal.SYS_GETRUSAGE
const SYS_GETSID = zzreal.SYS_GETSID
const SYS_GETSOCKNAME = zzreal.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = zzreal.SYS_GETSOCKOPT
const SYS_GETTID = zzreal.SYS_GETTID
const SYS_GETTIMEOFDAY = zzreal.SYS_GETTIMEOFDAY
const SYS_GETUID = zzreal.SYS_GETUID
const SYS_GETXATTR = zzreal.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = zzreal.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = zzreal.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = zzreal.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = zzreal.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = zzreal.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = zzreal.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = zzreal.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = zzreal.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = zzreal.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = zzreal.SYS_IOCTL
const SYS_IOPERM = zzreal.SYS_IOPERM
const SYS_IOPL = zzreal.SYS_IOPL
const SYS_IOPRIO_GET = zzreal.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = zzreal.SYS_IOPRIO_SET
const SYS_IO_CANCEL = zzreal.SYS_IO_CANCEL
const SYS_IO_DESTROY = zzreal.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = zzreal.SYS_IO_GETEVENTS
const SYS_IO_SETUP = zzreal.SYS_IO_SETUP
const SYS_IO_SUBMIT = zzreal.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = zzreal.SYS_KEXEC_LOAD
const SYS_KEYCTL = zzreal.SYS_KEYCTL
const SYS_KILL = zzreal.SYS_KILL
const SYS_LCHOWN = zzreal.SYS_LCHOWN
const SYS_LGETXATTR = zzreal.SYS_LGETXATTR
const SYS_LINK = zzreal.SYS_LINK
const SYS_LINKAT = zzreal.SYS_LINKAT
const SYS_LISTEN = zzreal.SYS_LISTEN
const SYS_LISTXATTR = zzreal.SYS_LISTXATTR
const SYS_LLISTXATTR = zzreal.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = zzreal.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = zzreal.SYS_LREMOVEXATTR
const SYS_LSEEK = zzreal.SYS_LSEEK
const SYS_LSETXATTR = zzreal.SYS_LSETXATTR
const SYS_LSTAT = zzreal.SYS_LSTAT
const SYS_MADVISE = zzreal.SYS_MADVISE
const SYS_MBIND = zzreal.SYS_MBIND
const SYS_MIGRATE_PAGES = zzreal.SYS_MIGRATE_PAGES
const SYS_MINCORE = zzreal.SYS_MINCORE
const SYS_MKDIR = zzreal.SYS_MKDIR
const SYS_MKDIRAT = zzreal.SYS_MKDIRAT
const SYS_MKNOD = zzreal.SYS_MKNOD
const SYS_MKNODAT = zzreal.SYS_MKNODAT
const SYS_MLOCK = zzreal.SYS_MLOCK
const SYS_MLOCKALL = zzreal.SYS_MLOCKALL
const SYS_MMAP = zzreal.SYS_MMAP
const SYS_MODIFY_LDT = zzreal.SYS_MODIFY_LDT
const SYS_MOUNT = zzreal.SYS_MOUNT
const SYS_MOVE_PAGES = zzreal.SYS_MOVE_PAGES
const SYS_MPROTECT = zzreal.SYS_MPROTECT
const SYS_MQ_GETSETATTR = zzreal.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = zzreal.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = zzreal.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = zzreal.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = zzreal.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = zzreal.SYS_MQ_UNLINK
const SYS_MREMAP = zzreal.SYS_MREMAP
const SYS_MSGCTL = zzreal.SYS_MSGCTL
const SYS_MSGGET = zzreal.SYS_MSGGET
const SYS_MSGRCV = zzreal.SYS_MSGRCV
const SYS_MSGSND = zzreal.SYS_MSGSND
const SYS_MSYNC = zzreal.SYS_MSYNC
const SYS_MUNLOCK = zzreal.SYS_MUNLOCK
const SYS_MUNLOCKALL = zzreal.SYS_MUNLOCKALL
const SYS_MUNMAP = zzreal.SYS_MUNMAP
const SYS_NANOSLEEP = zzreal.SYS_NANOSLEEP
const SYS_NEWFSTATAT = zzreal.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = zzreal.SYS_NFSSERVCTL
const SYS_OPEN = zzreal.SYS_OPEN
const SYS_OPENAT = zzreal.SYS_OPENAT
const SYS_PAUSE = zzreal.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = zzreal.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = zzreal.SYS_PERSONALITY
const SYS_PIPE = zzreal.SYS_PIPE
const SYS_PIPE2 = zzreal.SYS_PIPE2
const SYS_PIVOT_ROOT = zzreal.SYS_PIVOT_ROOT
const SYS_POLL = zzreal.SYS_POLL
const SYS_PPOLL = zzreal.SYS_PPOLL
const SYS_PRCTL = zzreal.SYS_PRCTL
const SYS_PREAD64 = zzreal.SYS_PREAD64
const SYS_PREADV = zzreal.SYS_PREADV
const SYS_PRLIMIT64 = zzreal.SYS_PRLIMIT64
const SYS_PSELECT6 = zzreal.SYS_PSELECT6
const SYS_PTRACE = zzreal.SYS_PTRACE
const SYS_PUTPMSG = zzreal.SYS_PUTPMSG
const SYS_PWRITE64 = zzreal.SYS_PWRITE64
const SYS_PWRITEV = zzreal.SYS_PWRITEV
const SYS_QUERY_MODULE = zzreal.SYS_QUERY_MODULE
const SYS_QUOTACTL = zzreal.SYS_QUOTACTL
const SYS_READ = zzreal.SYS_READ
const SYS_READAHEAD = zzreal.SYS_READAHEAD
const SYS_READLINK = zzreal.SYS_READLINK
const SYS_READLINKAT = zzreal.SYS_READLINKAT
const SYS_READV = zzreal.SYS_READV
const SYS_REBOOT = zzreal.SYS_REBOOT
const SYS_RECVFROM = zzreal.SYS_RECVFROM
const SYS_RECVMMSG = zzreal.SYS_RECVMMSG
const SYS_RECVMSG = zzreal.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = zzreal.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = zzreal.SYS_REMOVEXATTR
const SYS_RENAME = zzreal.SYS_RENAME
const SYS_RENAMEAT = zzreal.SYS_RENAMEAT
const SYS_REQUEST_KEY = zzreal.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = zzreal.SYS_RESTART_SYSCALL
const SYS_RMDIR = zzreal.SYS_RMDIR
const SYS_RT_SIGACTION = zzreal.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = zzreal.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = zzreal.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = zzreal.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = zzreal.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = zzreal.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = zzreal.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = zzreal.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = zzreal.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = zzreal.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = zzreal.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = zzreal.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = zzreal.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = zzreal.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = zzreal.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = zzreal.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = zzreal.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = zzreal.SYS_SCHED_YIELD
const SYS_SECURITY = zzreal.SYS_SECURITY
const SYS_SELECT = zzreal.SYS_SELECT
const SYS_SEMCTL = zzreal.SYS_SEMCTL
const SYS_SEMGET = zzreal.SYS_SEMGET
const SYS_SEMOP = zzreal.SYS_SEMOP
const SYS_SEMTIMEDOP = zzreal.SYS_SEMTIMEDOP
const SYS_SENDFILE = zzreal.SYS_SENDFILE
const SYS_SENDMSG = zzreal.SYS_SENDMSG
const SYS_SENDTO = zzreal.SYS_SENDTO
const SYS_SETDOMAINNAME = zzreal.SYS_SETDOMAINNAME
const SYS_SETFSGID = zzreal.SYS_SETFSGID
const SYS_SETFSUID = zzreal.SYS_SETFSUID
const SYS_SETGID = zzreal.SYS_SETGID
const SYS_SETGROUPS = zzreal.SYS_SETGROUPS
const SYS_SETHOSTNAME = zzreal.SYS_SETHOSTNAME
const SYS_SETITIMER = zzreal.SYS_SETITIMER
const SYS_SETPGID = zzreal.SYS_SETPGID
const SYS_SETPRIORITY = zzreal.SYS_SETPRIORITY
const SYS_SETREGID = zzreal.SYS_SETREGID
const SYS_SETRESGID = zzreal.SYS_SETRESGID
const SYS_SETRESUID = zzreal.SYS_SETRESUID
const SYS_SETREUID = zzreal.SYS_SETREUID
const SYS_SETRLIMIT = zzreal.SYS_SETRLIMIT
const SYS_SETSID = zzreal.SYS_SETSID
const SYS_SETSOCKOPT = zzreal.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = zzreal.SYS_SETTIMEOFDAY
const SYS_SETUID = zzreal.SYS_SETUID
const SYS_SETXATTR = zzreal.SYS_SETXATTR
const SYS_SET_MEMPOLICY = zzreal.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = zzreal.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = zzreal.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = zzreal.SYS_SET_TID_ADDRESS
const SYS_SHMAT = zzreal.SYS_SHMAT
const SYS_SHMCTL = zzreal.SYS_SHMCTL
const SYS_SHMDT = zzreal.SYS_SHMDT
const SYS_SHMGET = zzreal.SYS_SHMGET
const SYS_SHUTDOWN = zzreal.SYS_SHUTDOWN
const SYS_SIGALTSTACK = zzreal.SYS_SIGALTSTACK
const SYS_SIGNALFD = zzreal.SYS_SIGNALFD
const SYS_SIGNALFD4 = zzreal.SYS_SIGNALFD4
const SYS_SOCKET = zzreal.SYS_SOCKET
const SYS_SOCKETPAIR = zzreal.SYS_SOCKETPAIR
const SYS_SPLICE = zzreal.SYS_SPLICE
const SYS_STAT = zzreal.SYS_STAT
const SYS_STATFS = zzreal.SYS_STATFS
const SYS_SWAPOFF = zzreal.SYS_SWAPOFF
const SYS_SWAPON = zzreal.SYS_SWAPON
const SYS_SYMLINK = zzreal.SYS_SYMLINK
const SYS_SYMLINKAT = zzreal.SYS_SYMLINKAT
const SYS_SYNC = zzreal.SYS_SYNC
const SYS_SYNC_FILE_RANGE = zzreal.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = zzreal.SYS_SYSFS
const SYS_SYSINFO = zzreal.SYS_SYSINFO
const SYS_SYSLOG = zzreal.SYS_SYSLOG
const SYS_TEE = zzreal.SYS_TEE
const SYS_TGKILL = zzreal.SYS_TGKILL
const SYS_TIME = zzreal.SYS_TIME
const SYS_TIMERFD_CREATE = zzreal.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = zzreal.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = zzreal.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = zzreal.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = zzreal.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = zzreal.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = zzreal.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = zzreal.SYS_TIMER_SETTIME
const SYS_TIMES = zzreal.SYS_TIMES
const SYS_TKILL = zzreal.SYS_TKILL
const SYS_TRUNCATE = zzreal.SYS_TRUNCATE
const SYS_TUXCALL = zzreal.SYS_TUXCALL
const SYS_UMASK = zzreal.SYS_UMASK
const SYS_UMOUNT2 = zzreal.SYS_UMOUNT2
const SYS_UNAME = zzreal.SYS_UNAME
const SYS_UNLINK = zzreal.SYS_UNLINK
const SYS_UNLINKAT = zzreal.SYS_UNLINKAT
const SYS_UNSHARE = zzreal.SYS_UNSHARE
const SYS_USELIB = zzreal.SYS_USELIB
const SYS_USTAT = zzreal.SYS_USTAT
const SYS_UTIME = zzreal.SYS_UTIME
const SYS_UTIMENSAT = zzreal.SYS_UTIMENSAT
const SYS_UTIMES = zzreal.SYS_UTIMES
const SYS_VFORK = zzreal.SYS_VFORK
const SYS_VHANGUP = zzreal.SYS_VHANGUP
const SYS_VMSPLICE = zzreal.SYS_VMSPLICE
const SYS_VSERVER = zzreal.SYS_VSERVER
const SYS_WAIT4 = zzreal.SYS_WAIT4
const SYS_WAITID = zzreal.SYS_WAITID
const SYS_WRITE = zzreal.SYS_WRITE
const SYS_WRITEV = zzreal.SYS_WRITEV
const SYS__SYSCTL = zzreal.SYS__SYSCTL
const S_BLKSIZE = zzreal.S_BLKSIZE
const S_IEXEC = zzreal.S_IEXEC
const S_IFBLK = zzreal.S_IFBLK
const S_IFCHR = zzreal.S_IFCHR
const S_IFDIR = zzreal.S_IFDIR
const S_IFIFO = zzreal.S_IFIFO
const S_IFLNK = zzreal.S_IFLNK
const S_IFMT = zzreal.S_IFMT
const S_IFREG = zzreal.S_IFREG
const S_IFSOCK = zzreal.S_IFSOCK
const S_IREAD = zzreal.S_IREAD
const S_IRGRP = zzreal.S_IRGRP
const S_IROTH = zzreal.S_IROTH
const S_IRUSR = zzreal.S_IRUSR
const S_IRWXG = zzreal.S_IRWXG
const S_IRWXO = zzreal.S_IRWXO
const S_IRWXU = zzreal.S_IRWXU
const S_ISGID = zzreal.S_ISGID
const S_ISUID = zzreal.S_ISUID
const S_ISVTX = zzreal.S_ISVTX
const S_IWGRP = zzreal.S_IWGRP
const S_IWOTH = zzreal.S_IWOTH
const S_IWRITE = zzreal.S_IWRITE
const S_IWUSR = zzreal.S_IWUSR
const S_IXGRP = zzreal.S_IXGRP
const S_IXOTH = zzreal.S_IXOTH
const S_IXUSR = zzreal.S_IXUSR

type Signal = zzreal.Signal

const SizeofCmsghdr = zzreal.SizeofCmsghdr
const SizeofICMPv6Filter = zzreal.SizeofICMPv6Filter
const SizeofIPMreq = zzreal.SizeofIPMreq
const SizeofIPMreqn = zzreal.SizeofIPMreqn
const SizeofIPv6MTUInfo = zzreal.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = zzreal.SizeofIPv6Mreq
const SizeofIfAddrmsg = zzreal.SizeofIfAddrmsg
const SizeofIfInfomsg = zzreal.SizeofIfInfomsg
const SizeofInet4Pktinfo = zzreal.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = zzreal.SizeofInet6Pktinfo
const SizeofInotifyEvent = zzreal.SizeofInotifyEvent
const SizeofLinger = zzreal.SizeofLinger
const SizeofMsghdr = zzreal.SizeofMsghdr
const SizeofNlAttr = zzreal.SizeofNlAttr
const SizeofNlMsgerr = zzreal.SizeofNlMsgerr
const SizeofNlMsghdr = zzreal.SizeofNlMsghdr
const SizeofRtAttr = zzreal.SizeofRtAttr
const SizeofRtGenmsg = zzreal.SizeofRtGenmsg
const SizeofRtMsg = zzreal.SizeofRtMsg
const SizeofRtNexthop = zzreal.SizeofRtNexthop
const SizeofSockFilter = zzreal.SizeofSockFilter
const SizeofSockFprog = zzreal.SizeofSockFprog
const SizeofSockaddrAny = zzreal.SizeofSockaddrAny
const SizeofSockaddrInet4 = zzreal.SizeofSockaddrInet4
const SizeofSockaddrInet6 = zzreal.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = zzreal.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = zzreal.SizeofSockaddrNetlink
const SizeofSockaddrUnix = zzreal.SizeofSockaddrUnix
const SizeofTCPInfo = zzreal.SizeofTCPInfo
const SizeofUcred = zzreal.SizeofUcred

type SockFilter = zzreal.SockFilter
type SockFprog = zzreal.SockFprog
type Sockaddr = zzreal.Sockaddr
type SockaddrInet4 = zzreal.SockaddrInet4
type SockaddrInet6 = zzreal.SockaddrInet6
type SockaddrLinklayer = zzreal.SockaddrLinklayer
type SockaddrNetlink = zzreal.SockaddrNetlink
type SockaddrUnix = zzreal.SockaddrUnix
type SocketControlMessage = zzreal.SocketControlMessage

var SocketDisableIPv6 = zzreal.SocketDisableIPv6

type Stat_t = zzreal.Stat_t
type Statfs_t = zzreal.Statfs_t

var Stderr = zzreal.Stderr
var Stdin = zzreal.Stdin
var Stdout = zzreal.Stdout

type SysProcAttr = zzreal.SysProcAttr
type SysProcIDMap = zzreal.SysProcIDMap
type Sysinfo_t = zzreal.Sysinfo_t

const TCGETS = zzreal.TCGETS
const TCIFLUSH = zzreal.TCIFLUSH
const TCIOFLUSH = zzreal.TCIOFLUSH
const TCOFLUSH = zzreal.TCOFLUSH

type TCPInfo = zzreal.TCPInfo

const TCP_CONGESTION = zzreal.TCP_CONGESTION
const TCP_CORK = zzreal.TCP_CORK
const TCP_DEFER_ACCEPT = zzreal.TCP_DEFER_ACCEPT
const TCP_INFO = zzreal.TCP_INFO
const TCP_KEEPCNT = zzreal.TCP_KEEPCNT
const TCP_KEEPIDLE = zzreal.TCP_KEEPIDLE
const TCP_KEEPINTVL = zzreal.TCP_KEEPINTVL
const TCP_LINGER2 = zzreal.TCP_LINGER2
const TCP_MAXSEG = zzreal.TCP_MAXSEG
const TCP_MAXWIN = zzreal.TCP_MAXWIN
const TCP_MAX_WINSHIFT = zzreal.TCP_MAX_WINSHIFT
const TCP_MD5SIG = zzreal.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = zzreal.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = zzreal.TCP_MSS
const TCP_NODELAY = zzreal.TCP_NODELAY
const TCP_QUICKACK = zzreal.TCP_QUICKACK
const TCP_SYNCNT = zzreal.TCP_SYNCNT
const TCP_WINDOW_CLAMP = zzreal.TCP_WINDOW_CLAMP
const TCSETS = zzreal.TCSETS
const TIOCCBRK = zzreal.TIOCCBRK
const TIOCCONS = zzreal.TIOCCONS
const TIOCEXCL = zzreal.TIOCEXCL
const TIOCGDEV = zzreal.TIOCGDEV
const TIOCGETD = zzreal.TIOCGETD
const TIOCGICOUNT = zzreal.TIOCGICOUNT
const TIOCGLCKTRMIOS = zzreal.TIOCGLCKTRMIOS
const TIOCGPGRP = zzreal.TIOCGPGRP
const TIOCGPTN = zzreal.TIOCGPTN
const TIOCGRS485 = zzreal.TIOCGRS485
const TIOCGSERIAL = zzreal.TIOCGSERIAL
const TIOCGSID = zzreal.TIOCGSID
const TIOCGSOFTCAR = zzreal.TIOCGSOFTCAR
const TIOCGWINSZ = zzreal.TIOCGWINSZ
const TIOCINQ = zzreal.TIOCINQ
const TIOCLINUX = zzreal.TIOCLINUX
const TIOCMBIC = zzreal.TIOCMBIC
const TIOCMBIS = zzreal.TIOCMBIS
const TIOCMGET = zzreal.TIOCMGET
const TIOCMIWAIT = zzreal.TIOCMIWAIT
const TIOCMSET = zzreal.TIOCMSET
const TIOCM_CAR = zzreal.TIOCM_CAR
const TIOCM_CD = zzreal.TIOCM_CD
const TIOCM_CTS = zzreal.TIOCM_CTS
const TIOCM_DSR = zzreal.TIOCM_DSR
const TIOCM_DTR = zzreal.TIOCM_DTR
const TIOCM_LE = zzreal.TIOCM_LE
const TIOCM_RI = zzreal.TIOCM_RI
const TIOCM_RNG = zzreal.TIOCM_RNG
const TIOCM_RTS = zzreal.TIOCM_RTS
const TIOCM_SR = zzreal.TIOCM_SR
const TIOCM_ST = zzreal.TIOCM_ST
const TIOCNOTTY = zzreal.TIOCNOTTY
const TIOCNXCL = zzreal.TIOCNXCL
const TIOCOUTQ = zzreal.TIOCOUTQ
const TIOCPKT = zzreal.TIOCPKT
const TIOCPKT_DATA = zzreal.TIOCPKT_DATA
const TIOCPKT_DOSTOP = zzreal.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = zzreal.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = zzreal.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = zzreal.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = zzreal.TIOCPKT_NOSTOP
const TIOCPKT_START = zzreal.TIOCPKT_START
const TIOCPKT_STOP = zzreal.TIOCPKT_STOP
const TIOCSBRK = zzreal.TIOCSBRK
const TIOCSCTTY = zzreal.TIOCSCTTY
const TIOCSERCONFIG = zzreal.TIOCSERCONFIG
const TIOCSERGETLSR = zzreal.TIOCSERGETLSR
const TIOCSERGETMULTI = zzreal.TIOCSERGETMULTI
const TIOCSERGSTRUCT = zzreal.TIOCSERGSTRUCT
const TIOCSERGWILD = zzreal.TIOCSERGWILD
const TIOCSERSETMULTI = zzreal.TIOCSERSETMULTI
const TIOCSERSWILD = zzreal.TIOCSERSWILD
const TIOCSER_TEMT = zzreal.TIOCSER_TEMT
const TIOCSETD = zzreal.TIOCSETD
const TIOCSIG = zzreal.TIOCSIG
const TIOCSLCKTRMIOS = zzreal.TIOCSLCKTRMIOS
const TIOCSPGRP = zzreal.TIOCSPGRP
const TIOCSPTLCK = zzreal.TIOCSPTLCK
const TIOCSRS485 = zzreal.TIOCSRS485
const TIOCSSERIAL = zzreal.TIOCSSERIAL
const TIOCSSOFTCAR = zzreal.TIOCSSOFTCAR
const TIOCSTI = zzreal.TIOCSTI
const TIOCSWINSZ = zzreal.TIOCSWINSZ
const TOSTOP = zzreal.TOSTOP
const TUNATTACHFILTER = zzreal.TUNATTACHFILTER
const TUNDETACHFILTER = zzreal.TUNDETACHFILTER
const TUNGETFEATURES = zzreal.TUNGETFEATURES
const TUNGETIFF = zzreal.TUNGETIFF
const TUNGETSNDBUF = zzreal.TUNGETSNDBUF
const TUNGETVNETHDRSZ = zzreal.TUNGETVNETHDRSZ
const TUNSETDEBUG = zzreal.TUNSETDEBUG
const TUNSETGROUP = zzreal.TUNSETGROUP
const TUNSETIFF = zzreal.TUNSETIFF
const TUNSETLINK = zzreal.TUNSETLINK
const TUNSETNOCSUM = zzreal.TUNSETNOCSUM
const TUNSETOFFLOAD = zzreal.TUNSETOFFLOAD
const TUNSETOWNER = zzreal.TUNSETOWNER
const TUNSETPERSIST = zzreal.TUNSETPERSIST
const TUNSETSNDBUF = zzreal.TUNSETSNDBUF
const TUNSETTXFILTER = zzreal.TUNSETTXFILTER
const TUNSETVNETHDRSZ = zzreal.TUNSETVNETHDRSZ

type Termios = zzreal.Termios
type Time_t = zzreal.Time_t
type Timespec = zzreal.Timespec

var TimespecToNsec = zzreal.TimespecToNsec

type Timeval = zzreal.Timeval

var TimevalToNsec = zzreal.TimevalToNsec

type Timex = zzreal.Timex
type Tms = zzreal.Tms
type Ucred = zzreal.Ucred
type Ustat_t = zzreal.Ustat_t
type Utimbuf = zzreal.Utimbuf
type Utsname = zzreal.Utsname

const VDISCARD = zzreal.VDISCARD
const VEOF = zzreal.VEOF
const VEOL = zzreal.VEOL
const VEOL2 = zzreal.VEOL2
const VERASE = zzreal.VERASE
const VINTR = zzreal.VINTR
const VKILL = zzreal.VKILL
const VLNEXT = zzreal.VLNEXT
const VMIN = zzreal.VMIN
const VQUIT = zzreal.VQUIT
const VREPRINT = zzreal.VREPRINT
const VSTART = zzreal.VSTART
const VSTOP = zzreal.VSTOP
const VSUSP = zzreal.VSUSP
const VSWTC = zzreal.VSWTC
const VTIME = zzreal.VTIME
const VWERASE = zzreal.VWERASE
const WALL = zzreal.WALL
const WCLONE = zzreal.WCLONE
const WCONTINUED = zzreal.WCONTINUED
const WEXITED = zzreal.WEXITED
const WNOHANG = zzreal.WNOHANG
const WNOTHREAD = zzreal.WNOTHREAD
const WNOWAIT = zzreal.WNOWAIT
const WORDSIZE = zzreal.WORDSIZE
const WSTOPPED = zzreal.WSTOPPED
const WUNTRACED = zzreal.WUNTRACED

type WaitStatus = zzreal.WaitStatus

const XCASE = zzreal.XCASE
