#define _GNU_SOURCE
#include "libtcc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

struct TCCState { char* defs[32]; int ndefs; void* dl; };
/* number of programs compiled, and of those that failed */
unsigned long tcc_standin_compiled, tcc_standin_failed;
/* set to give up before compiling, as an out-of-memory TinyCC would */
int tcc_standin_break;

TCCState* tcc_new(void) { return calloc(1, sizeof(TCCState)); }
void tcc_delete(TCCState* s)
{
	if (s->dl) dlclose(s->dl);
	for (int i = 0; i < s->ndefs; i++) free(s->defs[i]);
	free(s);
}
int tcc_set_output_type(TCCState* s, int t) { (void)s; return t == TCC_OUTPUT_MEMORY ? 0 : -1; }
void tcc_define_symbol(TCCState* s, const char* sym, const char* value)
{
	if (s->ndefs < 32 && asprintf(&s->defs[s->ndefs], "-D%s=%s", sym, value ? value : "1") > 0) s->ndefs++;
}
int tcc_set_options(TCCState* s, const char* o) { (void)s; (void)o; return 0; }
int tcc_add_include_path(TCCState* s, const char* p) { (void)s; (void)p; return 0; }
int tcc_add_symbol(TCCState* s, const char* n, const void* v) { (void)s; (void)n; (void)v; return 0; }

extern char** environ;
int tcc_compile_string(TCCState* s, const char* code)
{
	char dir[64] = "/dev/shm/tccXXXXXX", so[96];
	if (tcc_standin_break == 1) return -1;
	if (!mkdtemp(dir)) { strcpy(dir, "/tmp/tccXXXXXX"); if (!mkdtemp(dir)) return -1; }
	snprintf(so, sizeof so, "%s/t.so", dir);
	int p[2];
	if (pipe2(p, O_CLOEXEC)) { rmdir(dir); return -1; }
	char tmp[96];
	snprintf(tmp, sizeof tmp, "TMPDIR=%s", dir);
	/* TinyCC evaluates in the declared types, does not assume the absence of
	   overflow or aliasing, and gives each function its place in order */
	char* argv[64]; int n = 0;
	static char* const base[] = {"gcc", "-x", "c", "-std=gnu99", "-O0", "-w", "-shared", "-fPIC", "-nostdlib", "-pipe", "-fno-strict-aliasing", "-fwrapv",
		"-ffp-contract=off", "-fno-builtin", "-fno-toplevel-reorder", "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-fno-unwind-tables", "-D__TINYC__=927"};
	for (size_t i = 0; i < sizeof base / sizeof *base; i++) argv[n++] = base[i];
	for (int i = 0; i < s->ndefs; i++) argv[n++] = s->defs[i];
	argv[n++] = "-o"; argv[n++] = so; argv[n++] = "-"; argv[n] = NULL;
	char* envp[] = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", tmp, NULL};
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, p[0], 0);
	if (!getenv("TCC_STANDIN_VERBOSE")) posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
	pid_t pid;
	int rc = posix_spawnp(&pid, "gcc", &fa, NULL, argv, envp);
	posix_spawn_file_actions_destroy(&fa);
	close(p[0]);
	int ok = rc == 0;
	if (ok) {
		struct sigaction ign, old;
		memset(&ign, 0, sizeof ign);
		ign.sa_handler = SIG_IGN;
		sigaction(SIGPIPE, &ign, &old);
		size_t len = strlen(code), off = 0;
		while (off < len) {
			ssize_t w = write(p[1], code + off, len - off);
			if (w < 0 && errno == EINTR) continue;
			if (w <= 0) break;
			off += w;
		}
		close(p[1]);
		sigaction(SIGPIPE, &old, NULL);
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		if (ok) s->dl = dlopen(so, RTLD_NOW | RTLD_LOCAL);
	} else close(p[1]);
	unlink(so);
	rmdir(dir);
	__atomic_add_fetch(s->dl ? &tcc_standin_compiled : &tcc_standin_failed, 1, __ATOMIC_SEQ_CST);
	return s->dl ? 0 : -1;
}
int tcc_relocate(TCCState* s, void* p) { (void)p; return s->dl ? 0 : -1; }
void* tcc_get_symbol(TCCState* s, const char* n) { return dlsym(s->dl, n); }
