// Package syscall keeps the constants and types of the real one; what it does goes to the simulation.
package syscall

import (
	rs "syscall"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

type (
	Errno       = rs.Errno
	Signal      = rs.Signal
	WaitStatus  = rs.WaitStatus
	SysProcAttr = rs.SysProcAttr
	Stat_t      = rs.Stat_t
	Rusage      = rs.Rusage
)

const (
	EPOLLERR        = rs.EPOLLERR
	EPOLLET         = rs.EPOLLET
	EPOLLHUP        = rs.EPOLLHUP
	EPOLLIN         = rs.EPOLLIN
	EPOLLMSG        = rs.EPOLLMSG
	EPOLLONESHOT    = rs.EPOLLONESHOT
	EPOLLOUT        = rs.EPOLLOUT
	EPOLLPRI        = rs.EPOLLPRI
	EPOLLRDBAND     = rs.EPOLLRDBAND
	EPOLLRDHUP      = rs.EPOLLRDHUP
	EPOLLRDNORM     = rs.EPOLLRDNORM
	EPOLLWRBAND     = rs.EPOLLWRBAND
	EPOLLWRNORM     = rs.EPOLLWRNORM
	O_ACCMODE       = rs.O_ACCMODE
	O_APPEND        = rs.O_APPEND
	O_ASYNC         = rs.O_ASYNC
	O_CLOEXEC       = rs.O_CLOEXEC
	O_CREAT         = rs.O_CREAT
	O_DIRECT        = rs.O_DIRECT
	O_DIRECTORY     = rs.O_DIRECTORY
	O_DSYNC         = rs.O_DSYNC
	O_EXCL          = rs.O_EXCL
	O_FSYNC         = rs.O_FSYNC
	O_LARGEFILE     = rs.O_LARGEFILE
	O_NDELAY        = rs.O_NDELAY
	O_NOATIME       = rs.O_NOATIME
	O_NOCTTY        = rs.O_NOCTTY
	O_NOFOLLOW      = rs.O_NOFOLLOW
	O_NONBLOCK      = rs.O_NONBLOCK
	O_RDONLY        = rs.O_RDONLY
	O_RDWR          = rs.O_RDWR
	O_RSYNC         = rs.O_RSYNC
	O_SYNC          = rs.O_SYNC
	O_TRUNC         = rs.O_TRUNC
	O_WRONLY        = rs.O_WRONLY
	S_IEXEC         = rs.S_IEXEC
	S_IFBLK         = rs.S_IFBLK
	S_IFCHR         = rs.S_IFCHR
	S_IFDIR         = rs.S_IFDIR
	S_IFIFO         = rs.S_IFIFO
	S_IFLNK         = rs.S_IFLNK
	S_IFMT          = rs.S_IFMT
	S_IFREG         = rs.S_IFREG
	S_IFSOCK        = rs.S_IFSOCK
	S_IREAD         = rs.S_IREAD
	S_IRGRP         = rs.S_IRGRP
	S_IROTH         = rs.S_IROTH
	S_IRUSR         = rs.S_IRUSR
	S_IRWXG         = rs.S_IRWXG
	S_IRWXO         = rs.S_IRWXO
	S_IRWXU         = rs.S_IRWXU
	S_ISGID         = rs.S_ISGID
	S_ISUID         = rs.S_ISUID
	S_ISVTX         = rs.S_ISVTX
	S_IWGRP         = rs.S_IWGRP
	S_IWOTH         = rs.S_IWOTH
	S_IWRITE        = rs.S_IWRITE
	S_IWUSR         = rs.S_IWUSR
	S_IXGRP         = rs.S_IXGRP
	S_IXOTH         = rs.S_IXOTH
	S_IXUSR         = rs.S_IXUSR
	E2BIG           = rs.E2BIG
	EACCES          = rs.EACCES
	EADDRINUSE      = rs.EADDRINUSE
	EADDRNOTAVAIL   = rs.EADDRNOTAVAIL
	EADV            = rs.EADV
	EAFNOSUPPORT    = rs.EAFNOSUPPORT
	EAGAIN          = rs.EAGAIN
	EALREADY        = rs.EALREADY
	EBADE           = rs.EBADE
	EBADF           = rs.EBADF
	EBADFD          = rs.EBADFD
	EBADMSG         = rs.EBADMSG
	EBADR           = rs.EBADR
	EBADRQC         = rs.EBADRQC
	EBADSLT         = rs.EBADSLT
	EBFONT          = rs.EBFONT
	EBUSY           = rs.EBUSY
	ECANCELED       = rs.ECANCELED
	ECHILD          = rs.ECHILD
	ECHRNG          = rs.ECHRNG
	ECOMM           = rs.ECOMM
	ECONNABORTED    = rs.ECONNABORTED
	ECONNREFUSED    = rs.ECONNREFUSED
	ECONNRESET      = rs.ECONNRESET
	EDEADLK         = rs.EDEADLK
	EDEADLOCK       = rs.EDEADLOCK
	EDESTADDRREQ    = rs.EDESTADDRREQ
	EDOM            = rs.EDOM
	EDOTDOT         = rs.EDOTDOT
	EDQUOT          = rs.EDQUOT
	EEXIST          = rs.EEXIST
	EFAULT          = rs.EFAULT
	EFBIG           = rs.EFBIG
	EHOSTDOWN       = rs.EHOSTDOWN
	EHOSTUNREACH    = rs.EHOSTUNREACH
	EIDRM           = rs.EIDRM
	EILSEQ          = rs.EILSEQ
	EINPROGRESS     = rs.EINPROGRESS
	EINTR           = rs.EINTR
	EINVAL          = rs.EINVAL
	EIO             = rs.EIO
	EISCONN         = rs.EISCONN
	EISDIR          = rs.EISDIR
	EISNAM          = rs.EISNAM
	EKEYEXPIRED     = rs.EKEYEXPIRED
	EKEYREJECTED    = rs.EKEYREJECTED
	EKEYREVOKED     = rs.EKEYREVOKED
	EL2HLT          = rs.EL2HLT
	EL2NSYNC        = rs.EL2NSYNC
	EL3HLT          = rs.EL3HLT
	EL3RST          = rs.EL3RST
	ELIBACC         = rs.ELIBACC
	ELIBBAD         = rs.ELIBBAD
	ELIBEXEC        = rs.ELIBEXEC
	ELIBMAX         = rs.ELIBMAX
	ELIBSCN         = rs.ELIBSCN
	ELNRNG          = rs.ELNRNG
	ELOOP           = rs.ELOOP
	EMEDIUMTYPE     = rs.EMEDIUMTYPE
	EMFILE          = rs.EMFILE
	EMLINK          = rs.EMLINK
	EMSGSIZE        = rs.EMSGSIZE
	EMULTIHOP       = rs.EMULTIHOP
	ENAMETOOLONG    = rs.ENAMETOOLONG
	ENAVAIL         = rs.ENAVAIL
	ENETDOWN        = rs.ENETDOWN
	ENETRESET       = rs.ENETRESET
	ENETUNREACH     = rs.ENETUNREACH
	ENFILE          = rs.ENFILE
	ENOANO          = rs.ENOANO
	ENOBUFS         = rs.ENOBUFS
	ENOCSI          = rs.ENOCSI
	ENODATA         = rs.ENODATA
	ENODEV          = rs.ENODEV
	ENOENT          = rs.ENOENT
	ENOEXEC         = rs.ENOEXEC
	ENOKEY          = rs.ENOKEY
	ENOLCK          = rs.ENOLCK
	ENOLINK         = rs.ENOLINK
	ENOMEDIUM       = rs.ENOMEDIUM
	ENOMEM          = rs.ENOMEM
	ENOMSG          = rs.ENOMSG
	ENONET          = rs.ENONET
	ENOPKG          = rs.ENOPKG
	ENOPROTOOPT     = rs.ENOPROTOOPT
	ENOSPC          = rs.ENOSPC
	ENOSR           = rs.ENOSR
	ENOSTR          = rs.ENOSTR
	ENOSYS          = rs.ENOSYS
	ENOTBLK         = rs.ENOTBLK
	ENOTCONN        = rs.ENOTCONN
	ENOTDIR         = rs.ENOTDIR
	ENOTEMPTY       = rs.ENOTEMPTY
	ENOTNAM         = rs.ENOTNAM
	ENOTRECOVERABLE = rs.ENOTRECOVERABLE
	ENOTSOCK        = rs.ENOTSOCK
	ENOTSUP         = rs.ENOTSUP
	ENOTTY          = rs.ENOTTY
	ENOTUNIQ        = rs.ENOTUNIQ
	ENXIO           = rs.ENXIO
	EOPNOTSUPP      = rs.EOPNOTSUPP
	EOVERFLOW       = rs.EOVERFLOW
	EOWNERDEAD      = rs.EOWNERDEAD
	EPERM           = rs.EPERM
	EPFNOSUPPORT    = rs.EPFNOSUPPORT
	EPIPE           = rs.EPIPE
	EPROTO          = rs.EPROTO
	EPROTONOSUPPORT = rs.EPROTONOSUPPORT
	EPROTOTYPE      = rs.EPROTOTYPE
	ERANGE          = rs.ERANGE
	EREMCHG         = rs.EREMCHG
	EREMOTE         = rs.EREMOTE
	EREMOTEIO       = rs.EREMOTEIO
	ERESTART        = rs.ERESTART
	ERFKILL         = rs.ERFKILL
	EROFS           = rs.EROFS
	ESHUTDOWN       = rs.ESHUTDOWN
	ESOCKTNOSUPPORT = rs.ESOCKTNOSUPPORT
	ESPIPE          = rs.ESPIPE
	ESRCH           = rs.ESRCH
	ESRMNT          = rs.ESRMNT
	ESTALE          = rs.ESTALE
	ESTRPIPE        = rs.ESTRPIPE
	ETIME           = rs.ETIME
	ETIMEDOUT       = rs.ETIMEDOUT
	ETOOMANYREFS    = rs.ETOOMANYREFS
	ETXTBSY         = rs.ETXTBSY
	EUCLEAN         = rs.EUCLEAN
	EUNATCH         = rs.EUNATCH
	EUSERS          = rs.EUSERS
	EWOULDBLOCK     = rs.EWOULDBLOCK
	EXDEV           = rs.EXDEV
	EXFULL          = rs.EXFULL
	SIGABRT         = rs.SIGABRT
	SIGALRM         = rs.SIGALRM
	SIGBUS          = rs.SIGBUS
	SIGCHLD         = rs.SIGCHLD
	SIGCLD          = rs.SIGCLD
	SIGCONT         = rs.SIGCONT
	SIGFPE          = rs.SIGFPE
	SIGHUP          = rs.SIGHUP
	SIGILL          = rs.SIGILL
	SIGINT          = rs.SIGINT
	SIGIO           = rs.SIGIO
	SIGIOT          = rs.SIGIOT
	SIGKILL         = rs.SIGKILL
	SIGPIPE         = rs.SIGPIPE
	SIGPOLL         = rs.SIGPOLL
	SIGPROF         = rs.SIGPROF
	SIGPWR          = rs.SIGPWR
	SIGQUIT         = rs.SIGQUIT
	SIGSEGV         = rs.SIGSEGV
	SIGSTKFLT       = rs.SIGSTKFLT
	SIGSTOP         = rs.SIGSTOP
	SIGSYS          = rs.SIGSYS
	SIGTERM         = rs.SIGTERM
	SIGTRAP         = rs.SIGTRAP
	SIGTSTP         = rs.SIGTSTP
	SIGTTIN         = rs.SIGTTIN
	SIGTTOU         = rs.SIGTTOU
	SIGUNUSED       = rs.SIGUNUSED
	SIGURG          = rs.SIGURG
	SIGUSR1         = rs.SIGUSR1
	SIGUSR2         = rs.SIGUSR2
	SIGVTALRM       = rs.SIGVTALRM
	SIGWINCH        = rs.SIGWINCH
	SIGXCPU         = rs.SIGXCPU
	SIGXFSZ         = rs.SIGXFSZ
	Stdin           = 0
	Stdout          = 1
	Stderr          = 2
)

func Getpid() int  { return core.CurProc().Pid }
func Getuid() int  { return core.CurProc().Uid }
func Geteuid() int { return core.CurProc().Uid }
func Umask(m int) int {
	p := core.CurProc()
	old := p.Umask
	p.Umask = uint32(m) & 0o777
	return int(old)
}
func Kill(pid int, sig Signal) error {
	core.Point()
	for _, p := range core.S.Procs {
		if p.Pid == pid {
			if sig != 0 {
				p.Kill(int(sig))
			}
			return nil
		}
	}
	return rs.ESRCH
}
