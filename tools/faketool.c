/* Plays the programs that the recipes of the installation run: compilers, archivers, pkg-config and others. What it
 * plays follows from the name it is started by. Every run is recorded.
 *
 *   FAKE_DIR           control folder (absolute)
 *     tools/<n>        one file per run: the arguments, each followed by a zero byte
 *     done/<n>         written at the end of a run that succeeds
 *     cxx/<compiler>   what the compiler knows: lines "<revision> <value of __cplusplus>", "-" for the default.
 *                      A program of which there is such a file is a compiler.
 *     pkg/<library>    three lines: compiler flags, libraries, library folders
 *     fail/<output>    "exit N" or "signal N": a run with that output file ('/' as '!', below FAKE_CWD) fails;
 *                      "late exit N" after it has written the output
 *     failrun/<program>  the same for the programs made
 *     ar               the real archiver
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char const* dir;
static char recname[64];

static void record(int argc, char** argv)
{
	char tmp[PATH_MAX], path[PATH_MAX];
	snprintf(recname, sizeof(recname), "%d-%ld", (int)getpid(), (long)random());
	snprintf(tmp, sizeof(tmp), "%s/tools/~%s", dir, recname);
	snprintf(path, sizeof(path), "%s/tools/%s", dir, recname);
	FILE* f = fopen(tmp, "wb");
	if(!f) { _exit(99); }
	for(int i = 0; i < argc; ++i) { fwrite(argv[i], 1, strlen(argv[i]) + 1, f); }
	fclose(f);
	rename(tmp, path);
}

static void finish(int code)
{
	if(code == 0)
	{
		char path[PATH_MAX];
		snprintf(path, sizeof(path), "%s/done/%s", dir, recname);
		close(open(path, O_CREAT | O_WRONLY, 0644));
	}
	_exit(code);
}

/* The place of a file below FAKE_CWD, with '!' for '/'. */
static void key(char* out, char const* path)
{
	char const* cwd = getenv("FAKE_CWD");
	size_t n = cwd ? strlen(cwd) : 0;
	if(n && strncmp(path, cwd, n) == 0 && path[n] == '/') { path += n + 1; }
	char* o = out;
	while(*path)
	{
		while(path[0] == '.' && path[1] == '/') { path += 2; }
		while(path[0] == '/' && (o == out || o[-1] == '!')) { ++path; }
		if(strncmp(path, "../", 3) == 0 && o != out)
		{
			--o;
			while(o != out && o[-1] != '!') { --o; }
			path += 3;
			continue;
		}
		while(*path && *path != '/') { *o++ = *path++; }
		if(*path == '/') { *o++ = '!'; ++path; }
	}
	*o = 0;
}

static void fail_now(char const* how)
{
	int n = atoi(strchr(how, ' ') + 1);
	if(how[0] == 's')
	{
		signal(n, SIG_DFL);
		raise(n);
		_exit(1);
	}
	_exit(n);
}

static char* control(char const* kind, char const* name)
{
	char path[PATH_MAX];
	static char buf[8192];
	snprintf(path, sizeof(path), "%s/%s/%s", dir, kind, name);
	FILE* f = fopen(path, "r");
	if(!f) { return NULL; }
	size_t n = fread(buf, 1, sizeof(buf) - 1, f);
	fclose(f);
	buf[n] = 0;
	return buf;
}

static char const* output(int argc, char** argv)
{
	for(int i = 1; i < argc; ++i)
	{
		if(strcmp(argv[i], "-o") == 0 && i + 1 < argc) { return argv[i + 1]; }
		if(strncmp(argv[i], "-o", 2) == 0 && argv[i][2]) { return argv[i] + 2; }
	}
	return NULL;
}

static void put(char const* path, char const* text, int mode)
{
	int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, mode);
	if(fd == -1) { perror(path); _exit(1); }
	(void)!write(fd, text, strlen(text));
	fchmod(fd, mode);
	close(fd);
}

static int compiler(int argc, char** argv, char* knows)
{
	char const* std = "-";
	int macros = 0, compile = 0;
	for(int i = 1; i < argc; ++i)
	{
		if(strncmp(argv[i], "-std=", 5) == 0) { std = argv[i] + 5; }
		if(strcmp(argv[i], "-dM") == 0) { macros = 1; }
		if(strcmp(argv[i], "-c") == 0) { compile = 1; }
	}
	char* rev = NULL;
	for(char* l = strtok(knows, "\n"); l; l = strtok(NULL, "\n"))
	{
		size_t n = strlen(std);
		if(strncmp(l, std, n) == 0 && l[n] == ' ') { rev = l + n + 1; }
	}
	if(macros)
	{
		if(!rev) { fprintf(stderr, "unrecognized revision %s\n", std); return 1; }
		printf("#define __x86_64__ 1\n#define __cplusplus %sL\n#define __GNUC__ 13\n#define EMPTY\n", rev);
		return 0;
	}
	record(argc, argv);
	if(!rev) { return 1; }
	char const* out = output(argc, argv);
	if(!out) { return 1; }
	char k[PATH_MAX], text[3 * PATH_MAX];
	key(k, out);
	char* how = control("fail", k);
	char late[64] = "";
	if(how && strncmp(how, "late ", 5) == 0) { snprintf(late, sizeof(late), "%s", how + 5); }
	else if(how) { fail_now(how); }
	if(compile)
	{
		snprintf(text, sizeof(text), "object %s\n", k);
		put(out, text, 0644);
	}
	else
	{
		char self[PATH_MAX];
		ssize_t n = readlink("/proc/self/exe", self, sizeof(self) - 1);
		self[n] = 0;
		snprintf(text, sizeof(text), "#!%s\nprogram %s\n", self, k);
		put(out, text, 0755);
	}
	if(late[0]) { fail_now(late); }
	finish(0);
	return 0;
}

int main(int argc, char** argv)
{
	dir = getenv("FAKE_DIR");
	if(!dir) { return 98; }
	srandom(getpid());
	char const* name = strrchr(argv[0], '/');
	name = name ? name + 1 : argv[0];
	char k[PATH_MAX];

	char* knows = control("cxx", name);
	if(knows)
	{
		char* c = strdup(knows);
		return compiler(argc, argv, c);
	}

	if(strncmp(name, "faketool", 8) == 0)
	{
		/* a program made by the compiler: it is the script that was started */
		char* a[2] = {"run", argc > 1 ? argv[1] : ""};
		record(2, a);
		key(k, a[1]);
		char* how = control("failrun", k);
		if(how) { fail_now(how); }
		finish(0);
	}

	if(strcmp(name, "pkg-config") == 0)
	{
		char const* lib = argc > 2 ? argv[argc - 1] : "";
		char* text = control("pkg", lib);
		if(!text) { fprintf(stderr, "Package %s was not found\n", lib); return 1; }
		int line = strcmp(argv[1], "--cflags") == 0 ? 0 : strcmp(argv[1], "--libs-only-l") == 0 ? 1 : strcmp(argv[1], "--libs-only-L") == 0 ? 2 : -1;
		if(strcmp(argv[1], "--libs") == 0)
		{
			char* l0 = strchr(text, '\n') + 1;
			char* l1 = strchr(l0, '\n');
			*l1 = 0;
			char* l2 = strchr(l1 + 1, '\n');
			if(l2) { *l2 = 0; }
			printf("%s %s\n", l1 + 1, l0);
			return 0;
		}
		if(line == -1) { return 1; }
		while(line--) { text = strchr(text, '\n') + 1; }
		char* e = strchr(text, '\n');
		if(e) { *e = 0; }
		printf("%s\n", text);
		return 0;
	}

	record(argc, argv);
	if(strstr(name, "ar") == name || strcmp(name, "my-ar") == 0)
	{
		if(argc < 3) { return 1; }
		key(k, argv[2]);
		char* how = control("fail", k);
		if(how && strncmp(how, "late ", 5) != 0) { fail_now(how); }
		char late[64] = "";
		if(how) { snprintf(late, sizeof(late), "%s", how + 5); }
		pid_t p = fork();
		if(p == 0)
		{
			argv[0] = "/usr/bin/ar";
			execv("/usr/bin/ar", argv);
			_exit(127);
		}
		int st;
		waitpid(p, &st, 0);
		if(late[0]) { fail_now(late); }
		if(WIFEXITED(st)) { finish(WEXITSTATUS(st)); }
		return 1;
	}

	/* anything else writes its arguments to its output, or to standard output */
	char const* out = output(argc, argv);
	char const* src = argv[argc - 1];
	key(k, out ? out : src);
	char* how = control("fail", k);
	if(how && strncmp(how, "late ", 5) != 0) { fail_now(how); }
	if(out) { put(out, "made\n", 0644); }
	else { printf("<p>made</p>\n"); }
	fflush(stdout);
	if(how) { fail_now(how + 5); }
	finish(0);
}
