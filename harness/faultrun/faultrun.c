/* Runs a command and disturbs its work with files under a directory.
 *
 *   faultrun -d DIR -o REPORT [-m MODE -n N] [-e ERRNO] [-s SIG] [-k BYTES] [-x SCRIPT] -- CMD ARG...
 *
 * System calls of the command (all its threads) that touch files under DIR are
 * counted from 0. Modes:
 *   list       only count them
 *   kill       kill the command instead of call N
 *   signal     send signal SIG to the command at call N, it goes on if it can
 *   fail       call N fails with ERRNO
 *   failfrom   call N and all the following ones fail
 *   failwrites writes, creations, renames and removals from call N on fail
 *   short      call N, if it is a write, writes at most BYTES, and the following
 *              writes fail with ERRNO
 *   hook       the shell command SCRIPT is run before call N
 *   torn       call N, if it is a write, writes at most BYTES, then the command
 *              is killed
 * With -b FILE it gets lines "BYTES PATH" telling how much was read from files.
 * REPORT gets a line for every counted call: number, name, path, and "hit" when
 * it was disturbed; the last line is "end STATUS".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <linux/ptrace.h>
#include <linux/types.h>
#include <unistd.h>

struct call {
	long nr;
	const char *name;
	int path_arg;  /* number of the argument with a path, -1 if none */
	int dir_arg;   /* its directory descriptor, -1 if none */
	int path2_arg; /* the second path */
	int fd_arg;    /* number of the argument with a descriptor */
	int writes;    /* 1: changes files, 2: is a write */
};

static const struct call calls[] = {
	{SYS_open, "open", 0, -1, -1, -1, 0},
	{SYS_openat, "openat", 1, 0, -1, -1, 0},
	{SYS_creat, "creat", 0, -1, -1, -1, 1},
	{SYS_mkdir, "mkdir", 0, -1, -1, -1, 1},
	{SYS_mkdirat, "mkdirat", 1, 0, -1, -1, 1},
	{SYS_unlink, "unlink", 0, -1, -1, -1, 1},
	{SYS_unlinkat, "unlinkat", 1, 0, -1, -1, 1},
	{SYS_rmdir, "rmdir", 0, -1, -1, -1, 1},
	{SYS_rename, "rename", 0, -1, 1, -1, 1},
	{SYS_renameat, "renameat", 1, 0, 3, -1, 1},
	{SYS_renameat2, "renameat2", 1, 0, 3, -1, 1},
	{SYS_link, "link", 0, -1, 1, -1, 1},
	{SYS_linkat, "linkat", 1, 0, 3, -1, 1},
	{SYS_symlink, "symlink", 1, -1, -1, -1, 1},
	{SYS_symlinkat, "symlinkat", 2, 1, -1, -1, 1},
	{SYS_stat, "stat", 0, -1, -1, -1, 0},
	{SYS_lstat, "lstat", 0, -1, -1, -1, 0},
	{SYS_newfstatat, "newfstatat", 1, 0, -1, -1, 0},
	{SYS_statx, "statx", 1, 0, -1, -1, 0},
	{SYS_access, "access", 0, -1, -1, -1, 0},
	{SYS_faccessat, "faccessat", 1, 0, -1, -1, 0},
	{SYS_faccessat2, "faccessat2", 1, 0, -1, -1, 0},
	{SYS_chmod, "chmod", 0, -1, -1, -1, 1},
	{SYS_fchmodat, "fchmodat", 1, 0, -1, -1, 1},
	{SYS_truncate, "truncate", 0, -1, -1, -1, 1},
	{SYS_readlink, "readlink", 0, -1, -1, -1, 0},
	{SYS_readlinkat, "readlinkat", 1, 0, -1, -1, 0},
	{SYS_utimensat, "utimensat", 1, 0, -1, -1, 1},
	{SYS_read, "read", -1, -1, -1, 0, 0},
	{SYS_pread64, "pread64", -1, -1, -1, 0, 0},
	{SYS_readv, "readv", -1, -1, -1, 0, 0},
	{SYS_preadv, "preadv", -1, -1, -1, 0, 0},
	{SYS_write, "write", -1, -1, -1, 0, 2},
	{SYS_pwrite64, "pwrite64", -1, -1, -1, 0, 2},
	{SYS_writev, "writev", -1, -1, -1, 0, 1},
	{SYS_copy_file_range, "copy_file_range", -1, -1, -1, 2, 1},
	{SYS_sendfile, "sendfile", -1, -1, -1, 0, 1},
	{SYS_fsync, "fsync", -1, -1, -1, 0, 1},
	{SYS_fdatasync, "fdatasync", -1, -1, -1, 0, 1},
	{SYS_ftruncate, "ftruncate", -1, -1, -1, 0, 1},
	{SYS_fallocate, "fallocate", -1, -1, -1, 0, 1},
	{SYS_fstat, "fstat", -1, -1, -1, 0, 0},
	{SYS_lseek, "lseek", -1, -1, -1, 0, 0},
	{SYS_getdents64, "getdents64", -1, -1, -1, 0, 0},
	{SYS_fchmod, "fchmod", -1, -1, -1, 0, 1},
	{SYS_flock, "flock", -1, -1, -1, 0, 0},
	{SYS_mmap, "mmap", -1, -1, -1, 4, 0},
	{SYS_close, "close", -1, -1, -1, 0, 0},
};

static const char *dir;
static size_t dirlen;
static FILE *report;
static pid_t child;

static void die(const char *what)
{
	fprintf(stderr, "faultrun: %s: %s\n", what, strerror(errno));
	if (child > 0)
		kill(child, SIGKILL);
	exit(125);
}

static int under(const char *path)
{
	return strncmp(path, dir, dirlen) == 0 && (path[dirlen] == 0 || path[dirlen] == '/');
}

static int fd_path(pid_t pid, long fd, char *out)
{
	char link[64];
	if ((int)fd == AT_FDCWD)
		snprintf(link, sizeof link, "/proc/%d/cwd", pid);
	else
		snprintf(link, sizeof link, "/proc/%d/fd/%d", pid, (int)fd);
	ssize_t n = readlink(link, out, PATH_MAX - 1);
	if (n < 0)
		return 0;
	out[n] = 0;
	return 1;
}

static int read_string(pid_t pid, uint64_t addr, char *out)
{
	size_t n = 0;
	while (n < PATH_MAX - 1) {
		char buf[256];
		size_t want = 256 - (addr + n) % 256;
		struct iovec l = {buf, want}, r = {(void *)(addr + n), want};
		ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (k <= 0) {
			/* not permitted or a bad address: word by word */
			errno = 0;
			long w = ptrace(PTRACE_PEEKDATA, pid, (void *)(addr + n), 0);
			if (errno)
				return 0;
			memcpy(buf, &w, sizeof w);
			k = sizeof w;
		}
		for (ssize_t i = 0; i < k; i++) {
			if (n >= PATH_MAX - 1)
				break;
			out[n] = buf[i];
			if (buf[i] == 0)
				return 1;
			n++;
		}
	}
	out[n] = 0;
	return 1;
}

static int resolve(pid_t pid, const __u64 *a, int path_arg, int dir_arg, char *out)
{
	char path[PATH_MAX];
	if (!read_string(pid, a[path_arg], path))
		return 0;
	if (path[0] == '/') {
		strcpy(out, path);
		return 1;
	}
	char base[PATH_MAX];
	if (!fd_path(pid, dir_arg < 0 ? AT_FDCWD : (long)a[dir_arg], base))
		return 0;
	if (path[0] == 0)
		snprintf(out, 2 * PATH_MAX, "%s", base);
	else
		snprintf(out, 2 * PATH_MAX, "%s/%s", base, path);
	return 1;
}

/* what is known about a thread in a system call */
#define MAXT 4096
static struct thread { pid_t tid; int fresh; int fail; int torn; int reads; } threads[MAXT];
static int nthreads;

static struct thread *thread(pid_t tid)
{
	for (int i = 0; i < nthreads; i++)
		if (threads[i].tid == tid)
			return &threads[i];
	if (nthreads == MAXT)
		die("too many threads");
	threads[nthreads] = (struct thread){tid, 1, 0, 0, -1};
	return &threads[nthreads++];
}

static void forget(pid_t tid)
{
	for (int i = 0; i < nthreads; i++)
		if (threads[i].tid == tid) {
			threads[i] = threads[--nthreads];
			return;
		}
}

/* names in the report keep to one line */
static const char *line(char *path)
{
	for (char *p = path; *p; p++)
		if (*p == '\n')
			*p = '?';
	return path;
}

/* how much was read from files */
#define MAXF 1024
static struct file { char *path; long long bytes; } files[MAXF];
static int nfiles;

static int file_of(const char *path)
{
	for (int i = 0; i < nfiles; i++)
		if (!strcmp(files[i].path, path))
			return i;
	if (nfiles == MAXF)
		return MAXF - 1;
	files[nfiles].path = strdup(path);
	return nfiles++;
}

int main(int argc, char **argv)
{
	const char *mode = "list", *out = NULL, *bytes_out = NULL, *script = "true";
	long n = -1, bytes = 0;
	int err = EIO, opt, signo = SIGTERM;
	while ((opt = getopt(argc, argv, "+d:o:m:n:e:k:x:b:s:")) != -1) {
		switch (opt) {
		case 'd': dir = optarg; break;
		case 'b': bytes_out = optarg; break;
		case 'o': out = optarg; break;
		case 'm': mode = optarg; break;
		case 'n': n = atol(optarg); break;
		case 'e': err = atoi(optarg); break;
		case 's': signo = atoi(optarg); break;
		case 'x': script = optarg; break;
		case 'k': bytes = atol(optarg); break;
		default: return 125;
		}
	}
	if (!dir || !out || optind >= argc) {
		fprintf(stderr, "usage\n");
		return 125;
	}
	dirlen = strlen(dir);
	report = fopen(out, "w");
	if (!report)
		die(out);
	int listing = !strcmp(mode, "list"), killing = !strcmp(mode, "kill"), one = !strcmp(mode, "fail"), from = !strcmp(mode, "failfrom"),
	    writes = !strcmp(mode, "failwrites"), shrt = !strcmp(mode, "short"), torn = !strcmp(mode, "torn"), hook = !strcmp(mode, "hook"), signalling = !strcmp(mode, "signal");
	if (!(listing || killing || one || from || writes || shrt || torn || hook || signalling)) {
		fprintf(stderr, "unknown mode %s\n", mode);
		return 125;
	}
	fcntl(fileno(report), F_SETFD, FD_CLOEXEC);
	child = fork();
	if (child < 0)
		die("fork");
	if (child == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0)
			_exit(125);
		raise(SIGSTOP);
		execv(argv[optind], argv + optind);
		_exit(125);
	}
	int status;
	if (waitpid(child, &status, 0) != child || !WIFSTOPPED(status)) {
		child = 0;
		die("ptrace is not available");
	}
	if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL) < 0)
		die("PTRACE_SETOPTIONS");
	thread(child)->fresh = 0;
	ptrace(PTRACE_SYSCALL, child, 0, 0);
	long count = 0;
	int final = 125 << 8, started = 0, killed = 0, shorted = 0;
	for (;;) {
		pid_t tid = waitpid(-1, &status, __WALL);
		if (tid < 0) {
			if (errno == EINTR)
				continue;
			if (errno == ECHILD)
				break;
			die("waitpid");
		}
		if (WIFEXITED(status) || WIFSIGNALED(status)) {
			forget(tid);
			if (tid == child)
				final = status;
			continue;
		}
		if (!WIFSTOPPED(status))
			continue;
		struct thread *t = thread(tid);
		int sig = WSTOPSIG(status), event = status >> 16, deliver = 0;
		if (sig == (SIGTRAP | 0x80)) {
			struct ptrace_syscall_info si;
			if (ptrace(PTRACE_GET_SYSCALL_INFO, tid, sizeof si, &si) < 0) {
				if (errno == ESRCH)
					continue;
				die("PTRACE_GET_SYSCALL_INFO");
			}
			if (si.op == PTRACE_SYSCALL_INFO_ENTRY && started && !killed) {
				const struct call *c = NULL;
				for (size_t i = 0; i < sizeof calls / sizeof *calls; i++)
					if ((uint64_t)calls[i].nr == si.entry.nr)
						c = &calls[i];
				char path[2 * PATH_MAX], path2[2 * PATH_MAX];
				int hit = 0, is = 0;
				path[0] = path2[0] = 0;
				if (c && c->path_arg >= 0) {
					if (resolve(tid, si.entry.args, c->path_arg, c->dir_arg, path))
						is = under(path);
					if (c->path2_arg >= 0 && resolve(tid, si.entry.args, c->path2_arg, c->dir_arg < 0 ? -1 : c->path2_arg - 1, path2))
						is = is || under(path2);
				} else if (c) {
					is = fd_path(tid, (long)si.entry.args[c->fd_arg], path) && under(path);
				}
				if (is) {
					long me = count++;
					int wr = c->writes;
					if (c->nr == SYS_openat || c->nr == SYS_open) {
						uint64_t flags = si.entry.args[c->nr == SYS_openat ? 2 : 1];
						wr = (flags & (O_CREAT | O_TRUNC)) != 0 || (flags & O_ACCMODE) != O_RDONLY;
						if (!strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6))
							wr = 0;
					}
					if (signalling && me == n) {
						hit = 1;
					} else if (killing && me == n) {
						hit = 1;
						killed = 1;
					} else if ((one && me == n) || (from && me >= n) || (writes && me >= n && wr) || (shrt && shorted && wr == 2)) {
						hit = 1;
						t->fail = err;
					} else if ((shrt || torn) && me >= n && wr == 2 && !shorted) {
						hit = 1;
						shorted = 1;
						t->torn = torn;
					}
					fprintf(report, "%ld %s %s%s%s%s%s\n", me, c->name, line(path), path2[0] ? " -> " : "", line(path2), wr ? " changes" : "", hit ? " hit" : "");
					if (bytes_out && (c->nr == SYS_read || c->nr == SYS_pread64 || c->nr == SYS_readv || c->nr == SYS_preadv))
						t->reads = file_of(path);
					if (hook && me == n) {
						fflush(report);
						if (system(script) != 0)
							die("hook");
						fprintf(report, "%ld hook %s\n", me, script);
					}
					if (killed) {
						kill(child, SIGKILL);
						continue;
					}
					if (hit && signalling) {
						kill(child, signo);
					} else if (hit) {
						struct user_regs_struct regs;
						if (ptrace(PTRACE_GETREGS, tid, 0, &regs) < 0)
							die("PTRACE_GETREGS");
						if (t->fail)
							regs.orig_rax = -1;
						else if ((long)regs.rdx > bytes)
							regs.rdx = bytes;
						if (ptrace(PTRACE_SETREGS, tid, 0, &regs) < 0)
							die("PTRACE_SETREGS");
					}
				}
			} else if (si.op == PTRACE_SYSCALL_INFO_EXIT) {
				if (t->reads >= 0 && si.exit.rval > 0)
					files[t->reads].bytes += si.exit.rval;
				t->reads = -1;
				if (t->fail) {
					struct user_regs_struct regs;
					if (ptrace(PTRACE_GETREGS, tid, 0, &regs) < 0)
						die("PTRACE_GETREGS");
					regs.rax = -(long)t->fail;
					if (ptrace(PTRACE_SETREGS, tid, 0, &regs) < 0)
						die("PTRACE_SETREGS");
					t->fail = 0;
				}
				if (t->torn) {
					t->torn = 0;
					killed = 1;
					kill(child, SIGKILL);
					continue;
				}
			}
		} else if (event == PTRACE_EVENT_EXEC) {
			started = 1;
		} else if (event) {
			/* a new thread, it reports itself */
		} else if (sig == SIGSTOP && t->fresh) {
			t->fresh = 0;
		} else {
			deliver = sig;
		}
		ptrace(PTRACE_SYSCALL, tid, 0, deliver);
	}
	if (bytes_out) {
		FILE *f = fopen(bytes_out, "w");
		if (!f)
			die(bytes_out);
		for (int i = 0; i < nfiles; i++)
			fprintf(f, "%lld %s\n", files[i].bytes, files[i].path);
		fclose(f);
	}
	if (WIFSIGNALED(final)) {
		fprintf(report, "end signal %d\n", WTERMSIG(final));
		fclose(report);
		return killed && WTERMSIG(final) == SIGKILL ? 137 : 128 + WTERMSIG(final);
	}
	fprintf(report, "end exit %d\n", WEXITSTATUS(final));
	fclose(report);
	return WEXITSTATUS(final);
}
