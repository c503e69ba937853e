/* The recipe the checks give to maike2. It records what it is asked to do and does what the scenario says.
 *
 * Environment:
 *   VREC_DIR   control folder (absolute). Without it the recipe only makes its targets.
 *     $VREC_DIR/log              start and end events are appended here, one write each
 *     $VREC_DIR/args/<n>         the exact argument vector of every compile run, if the folder is there
 *     $VREC_DIR/clock            if there: the scenario's clock; every recipe that makes its targets advances it
 *                                by one and stamps them with it
 *     $VREC_DIR/scale            what a tick of the clock is: a start in seconds, and a number of nanoseconds
 *     $VREC_DIR/ctl/<src>        directives for the source file (with '/' as '!'); else $VREC_DIR/ctl/default
 *     $VREC_DIR/started          if there: a FIFO that is told about starts (+src) and ends (-src)
 *     $VREC_DIR/cfg/<recipe>     what `configure` prints (file contents); absent: nothing
 *     $VREC_DIR/cfgwrap/<recipe> `configure` prints {"got": what it got, "by": recipe}
 *     $VREC_DIR/cfgfail/<recipe> `configure` fails;  cfgerr/<recipe>: it prints to standard error
 *                                (<recipe> ends with @ for a recipe of the installation)
 *     $VREC_DIR/tags/<src>       what `get_tags` prints
 *     $VREC_DIR/tagargs/<src>    what `get_tags` was told, if the folder is there
 *
 *   VREC_CHUNK  size of the pieces in which the output of configure and get_tags is written
 *
 * Directives, one per line, done in order:
 *   gate             wait for one byte on $VREC_DIR/gate/<src>:
 *                    'k' go on, 'f' exit with 1, 's' die by SIGKILL
 *   sleep <us>       wait
 *   out|err <n> <c>  write n bytes of pattern c
 *   rawout|rawerr <hex>
 *   closeout|closeerr
 *   targets          make the targets now (otherwise they are made at the end, on success only)
 *   notargets        never make them
 *   garbage          write something else to the targets
 *   killp            kill maike2
 *   readstdin        read stdin to its end
 *   exit <code>      (after recording the end) exit
 *   signal <n>       (after recording the end) die by a signal
 *   nolog            no events
 */
#define _GNU_SOURCE
#include <jansson.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/time.h>
#include <sys/resource.h>

static char const* dir;
static json_t* args;
static char name[4096];
static int do_log = 1, do_targets = 1, gated = 0;
static long last_tick = 0;

static void enc(char* out, char const* in)
{
	for(; *in; ++in, ++out) { *out = *in == '/' ? '!' : (*in == '\n' ? '?' : *in); }
	*out = 0;
}

static void event(char kind, char const* suffix)
{
	if(!dir || !do_log) { return; }
	char path[5000], line[5000];
	snprintf(path, sizeof(path), "%s/log", dir);
	int n = snprintf(line, sizeof(line), "%c %s%s\n", kind, name, suffix);
	int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
	if(fd != -1) { (void)!write(fd, line, n); close(fd); }
}

static char* slurp(char const* path, size_t* len)
{
	int fd = open(path, O_RDONLY | O_CLOEXEC);
	if(fd == -1) { return NULL; }
	size_t cap = 65536, n = 0;
	char* buf = malloc(cap + 1);
	while(1)
	{
		ssize_t r = read(fd, buf + n, cap - n);
		if(r <= 0) { break; }
		n += r;
		if(n == cap) { cap *= 2; buf = realloc(buf, cap + 1); }
	}
	close(fd);
	buf[n] = 0;
	if(len) { *len = n; }
	return buf;
}

static void hash_file(uint64_t* h, char const* path)
{
	struct stat st;
	uint64_t v = *h;
	for(char const* p = path; *p; ++p) { v = (v ^ (unsigned char)*p) * 1099511628211ull; }
	if(stat(path, &st) == 0 && S_ISREG(st.st_mode))
	{
		size_t n;
		char* b = slurp(path, &n);
		if(b)
		{
			for(size_t i = 0; i < n; ++i) { v = (v ^ (unsigned char)b[i]) * 1099511628211ull; }
			free(b);
		}
		v = (v ^ 1) * 1099511628211ull;
	}
	*h = v;
}

/* The next tick of the scenario's clock, or -1 if it has none. */
static long tick()
{
	if(!dir) { return -1; }
	char p[5000], buf[64];
	snprintf(p, sizeof(p), "%s/clock", dir);
	int fd = open(p, O_RDWR | O_CLOEXEC);
	if(fd == -1) { return -1; }
	flock(fd, LOCK_EX);
	ssize_t n = pread(fd, buf, sizeof(buf) - 1, 0);
	buf[n > 0 ? n : 0] = 0;
	long v = strtol(buf, NULL, 10) + 1;
	int l = snprintf(buf, sizeof(buf), "%-12ld\n", v);
	(void)!pwrite(fd, buf, l, 0);
	close(fd);
	return v;
}

static void stamp(char const* path, long v)
{
	if(v < 0) { return; }
	struct timespec ts[2];
	char p[5000];
	long base = 0, ns = 1000000000;
	snprintf(p, sizeof(p), "%s/scale", dir);
	char* s = slurp(p, NULL);
	if(s) { sscanf(s, "%ld %ld", &base, &ns); free(s); }
	__int128 t = (__int128)base * 1000000000 + (__int128)v * ns;
	ts[0].tv_sec = ts[1].tv_sec = t / 1000000000;
	ts[0].tv_nsec = ts[1].tv_nsec = t % 1000000000;
	utimensat(AT_FDCWD, path, ts, 0);
}

static void make_targets(int garbage)
{
	json_t* targets = json_object_get(args, "targets");
	json_t* deps = json_object_get(args, "dependencies");
	char const* src = json_string_value(json_object_get(args, "source_file"));
	struct stat st;
	long now = last_tick = tick();
	int is_dir = stat(src, &st) == 0 && S_ISDIR(st.st_mode);
	size_t i;
	json_t* t;
	json_array_foreach(targets, i, t)
	{
		char path[4200];
		snprintf(path, sizeof(path), "%s", json_string_value(t));
		if(is_dir && garbage) { continue; }
		if(is_dir)
		{
			size_t l = strlen(path);
			if(l > 2 && strcmp(path + l - 2, "/.") == 0) { path[l - 2] = 0; }
			for(char* c = strchr(path + 1, '/'); c != NULL; c = strchr(c + 1, '/'))
			{
				*c = 0;
				if(mkdir(path, 0777) == -1 && errno != EEXIST) { perror(path); exit(113); }
				*c = '/';
			}
			if(mkdir(path, 0777) == -1 && errno != EEXIST) { perror(path); exit(113); }
			continue;
		}
		/* The content is a digest of everything the target is made from. */
		uint64_t h = 1469598103934665603ull;
		hash_file(&h, src);
		size_t k;
		json_t* d;
		json_array_foreach(deps, k, d)
		{
			char const* o = json_string_value(json_object_get(d, "origin"));
			if(o && (strcmp(o, "project") == 0 || strcmp(o, "generated") == 0))
			{ hash_file(&h, json_string_value(json_object_get(d, "ref"))); }
		}
		char tmp[4300];
		snprintf(tmp, sizeof(tmp), "%s.tmp%d", path, (int)getpid());
		FILE* f = fopen(tmp, "w");
		if(!f) { perror(tmp); exit(114); }
		if(garbage) { fprintf(f, "garbage\n"); }
		else { fprintf(f, "%016llx\n", (unsigned long long)h); }
		fclose(f);
		stamp(tmp, now);
		if(rename(tmp, path) == -1) { perror(path); exit(115); }
	}
}

static void put(int fd, char const* buf, size_t n)
{
	while(n)
	{
		ssize_t r = write(fd, buf, n);
		if(r == -1) { if(errno == EINTR) { continue; } return; }
		buf += r;
		n -= r;
	}
}

/* As put, in pieces of VREC_CHUNK bytes with a pause after each (at most 200 of them). */
static void put_slowly(int fd, char const* buf, size_t n)
{
	char const* c = getenv("VREC_CHUNK");
	size_t k = c ? strtoul(c, NULL, 10) : 0;
	for(int i = 0; k && n > k && i < 200; ++i)
	{
		put(fd, buf, k);
		buf += k;
		n -= k;
		usleep(100);
	}
	put(fd, buf, n);
}

static void pattern(int fd, size_t n, char const* c)
{
	char* b = malloc(n + 1);
	for(size_t i = 0; i < n; ++i)
	{ b[i] = i % 64 == 63 ? '\n' : (i % 64 < 6 ? "0123456789abcdef"[(i / 64 >> (4 * (5 - i % 64))) & 15] : *c); }
	put(fd, b, n);
	free(b);
}

static void announce(char kind)
{
	char path[5000], line[5000];
	snprintf(path, sizeof(path), "%s/started", dir);
	int fd = open(path, O_WRONLY | O_CLOEXEC);
	int n = snprintf(line, sizeof(line), "%c%s\n", kind, name);
	if(fd != -1) { put(fd, line, n); close(fd); }
}

static void finish(int code, int sig)
{
	if(code == 0 && sig == 0 && do_targets) { make_targets(0); }
	char s[80];
	if(sig) { snprintf(s, sizeof(s), " s%d %ld", sig, last_tick); }
	else { snprintf(s, sizeof(s), " %d %ld", code, last_tick); }
	event('E', s);
	if(gated) { announce('-'); }
	if(sig)
	{
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		signal(sig, SIG_DFL);
		kill(getpid(), sig);
		pause();
	}
	_exit(code);
}

/* Only ever maike2 itself: when it is gone already, the parent is someone else. */
static void kill_parent()
{
	char p[64], exe[4096];
	int pp = getppid();
	snprintf(p, sizeof(p), "/proc/%d/exe", pp);
	ssize_t n = readlink(p, exe, sizeof(exe) - 1);
	if(n < 7) { return; }
	exe[n] = 0;
	if(pp > 1 && strcmp(exe + n - 7, "/maike2") == 0 && getppid() == pp) { kill(pp, SIGKILL); }
}

/* How a recipe is called in the control folder: its path below the project or the installation's recipes. */
static void recipe_name(char* out, char const* self)
{
	static char const* recipes = "/lib/maike2/recipes/";
	char real[PATH_MAX], top[PATH_MAX];
	char const* s = strstr(self, recipes);
	if(s) { enc(out, s + strlen(recipes)); strcat(out, "@"); return; }
	s = strrchr(self, '/');
	s = s ? s + 1 : self;
	if(realpath(self, real) && dir && realpath(dir, top) && strrchr(top, '/'))
	{
		strcpy(strrchr(top, '/'), "/p/");
		if(strncmp(real, top, strlen(top)) == 0) { s = real + strlen(top); }
	}
	enc(out, s);
}

int main(int argc, char** argv)
{
	dir = getenv("VREC_DIR");
	char const* self = argv[0];
	int a = 1;
	/* As the interpreter of a script: argv[1] is the script. */
	if(argc > 1 && strcmp(argv[1], "compile") && strcmp(argv[1], "configure") && strcmp(argv[1], "get_tags"))
	{ self = argv[1]; a = 2; }
	if(argc < a + 2) { fprintf(stderr, "vrecipe: bad arguments\n"); return 111; }
	char const* action = argv[a];
	char path[8192];

	if(strcmp(action, "configure") == 0)
	{
		if(!dir) { return 0; }
		snprintf(name, sizeof(name), "%s", self);
		char e[4096];
		recipe_name(e, self);
		snprintf(path, sizeof(path), "%s/cfgfail/%s", dir, e);
		if(access(path, F_OK) == 0)
		{
			/* "s": by a signal; "o": after the output; else: with an exit status */
			char* how = slurp(path, NULL);
			fprintf(stderr, "no way\n");
			if(how && how[0] == 's') { kill(getpid(), SIGKILL); }
			if(!how || how[0] != 'o') { return 9; }
			snprintf(path, sizeof(path), "%s/cfg/%s", dir, e);
			size_t n;
			char* t = slurp(path, &n);
			if(t) { put_slowly(1, t, n); }
			return 1;
		}
		snprintf(path, sizeof(path), "%s/cfgerr/%s", dir, e);
		if(access(path, F_OK) == 0) { pattern(2, 100000, "e"); }
		snprintf(path, sizeof(path), "%s/cfgwrap/%s", dir, e);
		if(access(path, F_OK) == 0)
		{
			size_t n = strlen(argv[a + 1]);
			char* t = malloc(n + 5000);
			n = sprintf(t, "{\"got\": %s, \"by\": \"%s\"}", argv[a + 1], e);
			put_slowly(1, t, n);
			return 0;
		}
		snprintf(path, sizeof(path), "%s/cfgargs", dir);
		if(access(path, F_OK) == 0)
		{
			char p2[9000];
			snprintf(p2, sizeof(p2), "%s/%s", path, e);
			FILE* f = fopen(p2, "w");
			if(f) { fputs(argv[a + 1], f); fclose(f); }
		}
		snprintf(path, sizeof(path), "%s/cfg/%s", dir, e);
		size_t n;
		char* t = slurp(path, &n);
		if(t) { put_slowly(1, t, n); }
		return 0;
	}

	json_error_t err;
	args = json_loads(argv[a + 1], 0, &err);
	if(!args) { fprintf(stderr, "vrecipe: bad JSON: %s\n", err.text); event('X', ""); return 112; }
	{
		/* get_tags gets the path the scanner uses, compile the one of the project */
		char const* src = json_string_value(json_object_get(args, "source_file"));
		while(strncmp(src, "./", 2) == 0) { src += 2; }
		enc(name, src);
	}

	if(strcmp(action, "get_tags") == 0)
	{
		if(!dir) { return 0; }
		snprintf(path, sizeof(path), "%s/tagargs", dir);
		if(access(path, F_OK) == 0)
		{
			char p2[9000];
			snprintf(p2, sizeof(p2), "%s/%s", path, name);
			FILE* f = fopen(p2, "a");
			if(f) { fprintf(f, "%s\n%s\n", self, argv[a + 1]); fclose(f); }
		}
		snprintf(path, sizeof(path), "%s/tags/%s", dir, name);
		size_t n;
		char* t = slurp(path, &n);
		if(t) { put_slowly(1, t, n); }
		snprintf(path, sizeof(path), "%s/tagsfail/%s", dir, name);
		return access(path, F_OK) == 0 ? 8 : 0;
	}

	event('S', "");
	if(dir)
	{
		snprintf(path, sizeof(path), "%s/started", dir);
		if(access(path, F_OK) == 0) { gated = 1; announce('+'); }
		snprintf(path, sizeof(path), "%s/args", dir);
		if(access(path, F_OK) == 0)
		{
			char p2[9000], p3[9000];
			snprintf(p2, sizeof(p2), "%s/~%d", path, (int)getpid());
			snprintf(p3, sizeof(p3), "%s/a%s", path, name);
			FILE* f = fopen(p2, "w");
			if(f)
			{
				for(int i = a == 2 ? 1 : 0; i < argc; ++i) { fwrite(argv[i], 1, strlen(argv[i]) + 1, f); }
				fclose(f);
				rename(p2, p3);
			}
		}
		snprintf(path, sizeof(path), "%s/ctl/%s", dir, name);
		char* ctl = slurp(path, NULL);
		if(!ctl)
		{
			snprintf(path, sizeof(path), "%s/ctl/default", dir);
			ctl = slurp(path, NULL);
		}
		char* save;
		for(char* l = ctl ? strtok_r(ctl, "\n", &save) : NULL; l; l = strtok_r(NULL, "\n", &save))
		{
			char* arg = strchr(l, ' ');
			if(arg) { *arg++ = 0; }
			if(strcmp(l, "gate") == 0)
			{
				snprintf(path, sizeof(path), "%s/gate/%s", dir, name);
				int fd = open(path, O_RDONLY | O_CLOEXEC);
				char c = 'k';
				if(fd != -1) { if(read(fd, &c, 1) != 1) { c = 'k'; } close(fd); }
				if(c == 'f') { finish(1, 0); }
				if(c == 's') { finish(0, SIGKILL); }
			}
			else if(strcmp(l, "sleep") == 0) { usleep(atoi(arg)); }
			else if(strcmp(l, "out") == 0 || strcmp(l, "err") == 0)
			{
				char* c = strchr(arg, ' ');
				pattern(l[0] == 'o' ? 1 : 2, strtoul(arg, NULL, 10), c ? c + 1 : "x");
			}
			else if(strcmp(l, "rawout") == 0 || strcmp(l, "rawerr") == 0)
			{
				size_t n = strlen(arg) / 2;
				char* b = malloc(n + 1);
				for(size_t i = 0; i < n; ++i) { unsigned v; sscanf(arg + 2 * i, "%2x", &v); b[i] = v; }
				put(l[3] == 'o' ? 1 : 2, b, n);
				free(b);
			}
			else if(strcmp(l, "closeout") == 0) { close(1); }
			else if(strcmp(l, "closeerr") == 0) { close(2); }
			else if(strcmp(l, "targets") == 0) { make_targets(0); }
			else if(strcmp(l, "garbage") == 0) { make_targets(1); }
			else if(strcmp(l, "killp") == 0) { signal(SIGPIPE, SIG_IGN); kill_parent(); }
			else if(strcmp(l, "notargets") == 0) { do_targets = 0; }
			else if(strcmp(l, "readstdin") == 0)
			{
				char b[100];
				ssize_t n;
				size_t tot = 0;
				while((n = read(0, b, sizeof(b))) > 0) { tot += n; }
				dprintf(1, "stdin:%zu\n", tot);
			}
			else if(strcmp(l, "exit") == 0) { finish(atoi(arg), 0); }
			else if(strcmp(l, "signal") == 0) { finish(0, atoi(arg)); }
			else if(strcmp(l, "nolog") == 0) { do_log = 0; }
		}
	}
	finish(0, 0);
}
