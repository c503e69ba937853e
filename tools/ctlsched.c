/* A controlled scheduler for maike2, preloaded into it.
 *
 * Only one thread runs at a time. At every synchronisation operation, and at function entries of code built with
 * -finstrument-functions, the scheduler decides by a seeded generator which thread goes on. Mutexes, condition
 * variables, read-write locks, guards of local statics, thread creation and join are modelled here, so that
 *   - a wakeup goes to any waiter, and waiters may also wake up for no reason, as POSIX allows;
 *   - a state in which no thread can ever go on is recognised exactly (exit status 86).
 * Reads from pipes and waitpid are left to the kernel while other threads run.
 *
 * CS_SEED  seed           CS_MEAN  mean number of function entries between preemptions (0: none)
 * CS_SPUR  spurious wakeups per 1000 scheduling decisions
 * CS_SWITCH  chance in percent to switch at a synchronisation operation
 * CS_OUT   file that is told about a deadlock
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define NI __attribute__((no_instrument_function))
#define MAXT 1024
#define MAXO 65536

enum { RUN, MUTEX, COND, TCOND, RWLOCK, JOIN, GUARD, EXT, DONE };

typedef struct
{
	int state;
	void* on;
	void* with;
	int woken;
	atomic_int go;
	pthread_t real;
	void* (*fn)(void*);
	void* arg;
	void* ret;
} thr;

typedef struct
{
	void* addr;
	int owner; /* mutex or guard: thread + 1; read-write lock: writer + 1 */
	int readers;
} obj;

static thr T[MAXT];
static int nthreads = 0, token = -1, on = 0, dead = 0;
static obj O[MAXO];
static atomic_int big;
static uint64_t rng;
static long mean, countdown, spur, swp;
static __thread int me = -1;

static int (*r_create)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_mlock)(pthread_mutex_t*), (*r_munlock)(pthread_mutex_t*), (*r_mtry)(pthread_mutex_t*);
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*), (*r_csig)(pthread_cond_t*), (*r_cbc)(pthread_cond_t*);
static int (*r_ctw)(pthread_cond_t*, pthread_mutex_t*, struct timespec const*);
static int (*r_ccw)(pthread_cond_t*, pthread_mutex_t*, clockid_t, struct timespec const*);
static int (*r_rd)(pthread_rwlock_t*), (*r_wr)(pthread_rwlock_t*), (*r_un)(pthread_rwlock_t*);
static ssize_t (*r_read)(int, void*, size_t);
static pid_t (*r_waitpid)(pid_t, int*, int);
static pid_t (*r_fork)(void);
static int (*r_gacq)(int64_t*);
static void (*r_grel)(int64_t*), (*r_gab)(int64_t*);

NI static void fwait(atomic_int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, NULL, NULL, 0); }
NI static void fwake(atomic_int* a, int n) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, n, NULL, NULL, 0); }

NI static void lock_big()
{
	int z = 0;
	while(!atomic_compare_exchange_strong(&big, &z, 1)) { fwait(&big, 1); z = 0; }
}
NI static void unlock_big() { atomic_store(&big, 0); fwake(&big, 1); }

NI static uint32_t rnd(uint32_t n)
{
	rng ^= rng << 13;
	rng ^= rng >> 7;
	rng ^= rng << 17;
	return n ? (uint32_t)((rng >> 16) % n) : 0;
}

NI static void reset_countdown() { countdown = mean ? 1 + rnd(2 * mean) : LONG_MAX; }

NI static obj* get(void* a)
{
	size_t h = ((uintptr_t)a >> 3) * 2654435761u % MAXO;
	while(O[h].addr && O[h].addr != a) { h = (h + 1) % MAXO; }
	O[h].addr = a;
	return O + h;
}

NI static void wait_turn(int i)
{
	while(!atomic_load(&T[i].go)) { fwait(&T[i].go, 0); }
	atomic_store(&T[i].go, 0);
}

NI static void give(int i)
{
	token = i;
	atomic_store(&T[i].go, 1);
	fwake(&T[i].go, 1);
}

NI static void report()
{
	char const* p = getenv("CS_OUT");
	char b[4096];
	int n = snprintf(b, sizeof(b), "deadlock:");
	static char const* names[] = {"run", "mutex", "cond", "timed cond", "rwlock", "join", "guard", "ext", "done"};
	for(int i = 0; i < nthreads && n < 3900; ++i)
	{ n += snprintf(b + n, sizeof(b) - n, " %d:%s", i, names[T[i].state]); }
	n += snprintf(b + n, sizeof(b) - n, "\n");
	if(p)
	{
		int fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if(fd != -1) { (void)!write(fd, b, n); close(fd); }
	}
}

/* Chooses who goes on. Called with the big lock held, by the holder of the token. -1: nobody for now. */
NI static int choose(int self_ok)
{
	int c[MAXT], n = 0, ext = 0, w[MAXT], nw = 0;
	for(int i = 0; i < nthreads; ++i)
	{
		if(T[i].state == RUN || T[i].state == TCOND) { c[n++] = i; }
		if(T[i].state == EXT) { ++ext; }
		if(T[i].state == COND) { w[nw++] = i; }
	}
	if(n == 0)
	{
		if(ext == 0 && !dead)
		{
			/* A spurious wakeup does not help against a deadlock. */
			dead = 1;
			report();
			fflush(stdout);
			_exit(86);
		}
		return -1;
	}
	if(nw && spur && (long)rnd(1000) < spur)
	{
		int i = w[rnd(nw)];
		T[i].state = RUN;
		return i;
	}
	return c[rnd(n)];
}

/* The calling thread lets somebody go on; it comes back when it is its turn again. */
NI static void pass(int must)
{
	lock_big();
	if(!must && (long)rnd(100) >= swp)
	{
		unlock_big();
		return;
	}
	int n = choose(1);
	if(n == me)
	{
		if(T[me].state == TCOND) { T[me].state = RUN; }
		unlock_big();
		return;
	}
	if(n == -1) { token = -1; }
	else { give(n); }
	unlock_big();
	wait_turn(me);
	if(T[me].state == TCOND) { T[me].state = RUN; }
}

NI static void block(int state, void* obj)
{
	T[me].on = obj;
	T[me].state = state;
	pass(1);
}

NI static void wake_all(int state, void* obj)
{
	for(int i = 0; i < nthreads; ++i)
	{
		if(T[i].state == state && T[i].on == obj) { T[i].state = RUN; }
	}
}

NI static void ext_begin()
{
	lock_big();
	T[me].state = EXT;
	int n = choose(0);
	if(n == -1) { token = -1; }
	else { give(n); }
	unlock_big();
}

NI static void ext_end()
{
	int e = errno;
	lock_big();
	T[me].state = RUN;
	if(token == -1)
	{
		token = me;
		unlock_big();
	}
	else
	{
		unlock_big();
		wait_turn(me);
	}
	errno = e;
}

NI static void* sym(char const* n) { return dlsym(RTLD_NEXT, n); }

NI __attribute__((constructor)) static void setup()
{
	r_create = sym("pthread_create"); r_join = sym("pthread_join");
	r_mlock = sym("pthread_mutex_lock"); r_munlock = sym("pthread_mutex_unlock"); r_mtry = sym("pthread_mutex_trylock");
	r_cwait = sym("pthread_cond_wait"); r_csig = sym("pthread_cond_signal"); r_cbc = sym("pthread_cond_broadcast");
	r_ctw = sym("pthread_cond_timedwait"); r_ccw = sym("pthread_cond_clockwait");
	r_rd = sym("pthread_rwlock_rdlock"); r_wr = sym("pthread_rwlock_wrlock"); r_un = sym("pthread_rwlock_unlock");
	r_read = sym("read"); r_waitpid = sym("waitpid"); r_fork = sym("fork");
	r_gacq = sym("__cxa_guard_acquire"); r_grel = sym("__cxa_guard_release"); r_gab = sym("__cxa_guard_abort");
	char const* s = getenv("CS_SEED");
	if(!s) { return; }
	rng = strtoull(s, NULL, 10) * 6364136223846793005ull + 1442695040888963407ull;
	for(int i = 0; i < 8; ++i) { rnd(1); }
	mean = getenv("CS_MEAN") ? atol(getenv("CS_MEAN")) : 0;
	spur = getenv("CS_SPUR") ? atol(getenv("CS_SPUR")) : 0;
	swp = getenv("CS_SWITCH") ? atol(getenv("CS_SWITCH")) : 60;
	reset_countdown();
	/* What maike2 starts must not be scheduled. */
	unsetenv("LD_PRELOAD");
	unsetenv("CS_SEED");
	nthreads = 1;
	me = 0;
	token = 0;
	T[0].state = RUN;
	T[0].real = pthread_self();
	on = 1;
}

#define ACTIVE (on && me >= 0)

NI void __cyg_profile_func_enter(void* f, void* c)
{
	if(!ACTIVE) { return; }
	if(--countdown > 0) { return; }
	int e = errno;
	reset_countdown();
	pass(1);
	errno = e;
}
NI void __cyg_profile_func_exit(void* f, void* c)
{
	if(!ACTIVE) { return; }
	if(--countdown > 0) { return; }
	int e = errno;
	reset_countdown();
	pass(1);
	errno = e;
}

NI static void* starter(void* p)
{
	me = (int)(intptr_t)p;
	wait_turn(me);
	void* ret = T[me].fn(T[me].arg);
	lock_big();
	T[me].ret = ret;
	T[me].state = DONE;
	wake_all(JOIN, T + me);
	int n = choose(0);
	if(n == -1) { token = -1; }
	else { give(n); }
	me = -1;
	unlock_big();
	return ret;
}

NI int pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*fn)(void*), void* arg)
{
	if(!ACTIVE || nthreads >= MAXT) { return r_create(t, a, fn, arg); }
	lock_big();
	int i = nthreads++;
	T[i].fn = fn;
	T[i].arg = arg;
	T[i].state = RUN;
	unlock_big();
	int r = r_create(t, a, starter, (void*)(intptr_t)i);
	if(r)
	{
		T[i].state = DONE;
		return r;
	}
	T[i].real = *t;
	pass(0);
	return 0;
}

NI int pthread_join(pthread_t t, void** ret)
{
	if(!ACTIVE) { return r_join(t, ret); }
	pass(0);
	for(int i = 0; i < nthreads; ++i)
	{
		if(T[i].fn && pthread_equal(T[i].real, t) && T[i].state != DONE)
		{
			block(JOIN, T + i);
			break;
		}
	}
	return r_join(t, ret);
}

NI static int acquire(void* m)
{
	obj* o = get(m);
	while(o->owner) { block(MUTEX, m); }
	o->owner = me + 1;
	return 0;
}

NI static void release(void* m)
{
	get(m)->owner = 0;
	wake_all(MUTEX, m);
}

NI int pthread_mutex_lock(pthread_mutex_t* m)
{
	if(!ACTIVE) { return r_mlock ? r_mlock(m) : 0; }
	pass(0);
	return acquire(m);
}

NI int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if(!ACTIVE) { return r_mtry(m); }
	pass(0);
	if(get(m)->owner) { return EBUSY; }
	return acquire(m);
}

NI int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if(!ACTIVE) { return r_munlock ? r_munlock(m) : 0; }
	release(m);
	pass(0);
	return 0;
}

NI static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int timed)
{
	release(m);
	T[me].woken = 0;
	block(timed ? TCOND : COND, c);
	int woken = T[me].woken;
	acquire(m);
	return timed && !woken ? ETIMEDOUT : 0;
}

NI int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if(!ACTIVE) { return r_cwait(c, m); }
	return cwait(c, m, 0);
}

NI int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t)
{
	if(!ACTIVE) { return r_ctw(c, m, t); }
	return cwait(c, m, 1);
}

NI int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, struct timespec const* t)
{
	if(!ACTIVE) { return r_ccw(c, m, k, t); }
	return cwait(c, m, 1);
}

NI static void csignal(pthread_cond_t* c, int all)
{
	int w[MAXT], n = 0;
	for(int i = 0; i < nthreads; ++i)
	{
		if((T[i].state == COND || T[i].state == TCOND) && T[i].on == c) { w[n++] = i; }
	}
	if(!n) { return; }
	if(all)
	{
		for(int i = 0; i < n; ++i) { T[w[i]].state = RUN; T[w[i]].woken = 1; }
	}
	else
	{
		int i = w[rnd(n)];
		T[i].state = RUN;
		T[i].woken = 1;
	}
}

NI int pthread_cond_signal(pthread_cond_t* c)
{
	if(!ACTIVE) { return r_csig(c); }
	pass(0);
	csignal(c, 0);
	pass(0);
	return 0;
}

NI int pthread_cond_broadcast(pthread_cond_t* c)
{
	if(!ACTIVE) { return r_cbc(c); }
	pass(0);
	csignal(c, 1);
	pass(0);
	return 0;
}

NI int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if(!ACTIVE) { return r_rd(m); }
	pass(0);
	obj* o = get(m);
	while(o->owner) { block(RWLOCK, m); }
	++o->readers;
	return 0;
}

NI int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if(!ACTIVE) { return r_wr(m); }
	pass(0);
	obj* o = get(m);
	while(o->owner || o->readers) { block(RWLOCK, m); }
	o->owner = me + 1;
	return 0;
}

NI int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if(!ACTIVE) { return r_un(m); }
	obj* o = get(m);
	if(o->owner) { o->owner = 0; }
	else if(o->readers) { --o->readers; }
	wake_all(RWLOCK, m);
	pass(0);
	return 0;
}

/* Guards of local statics: the first byte tells that the object is there. */
NI int __cxa_guard_acquire(int64_t* g)
{
	if(!ACTIVE) { return r_gacq(g); }
	obj* o = get(g);
	while(1)
	{
		if(*(char*)g) { return 0; }
		if(!o->owner)
		{
			o->owner = me + 1;
			return 1;
		}
		block(GUARD, g);
	}
}

NI void __cxa_guard_release(int64_t* g)
{
	if(!ACTIVE) { r_grel(g); return; }
	*(char*)g = 1;
	get(g)->owner = 0;
	wake_all(GUARD, g);
}

NI void __cxa_guard_abort(int64_t* g)
{
	if(!ACTIVE) { r_gab(g); return; }
	get(g)->owner = 0;
	wake_all(GUARD, g);
}

NI int sched_yield(void)
{
	if(ACTIVE) { pass(1); }
	return 0;
}

NI ssize_t read(int fd, void* b, size_t n)
{
	struct stat st;
	if(!ACTIVE || fstat(fd, &st) == -1 || !(S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode)))
	{ return r_read ? r_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
	ext_begin();
	ssize_t r = r_read(fd, b, n);
	ext_end();
	return r;
}

NI pid_t waitpid(pid_t p, int* s, int o)
{
	if(!ACTIVE) { return r_waitpid(p, s, o); }
	ext_begin();
	pid_t r = r_waitpid(p, s, o);
	ext_end();
	return r;
}

NI pid_t fork(void)
{
	pid_t r = r_fork();
	if(r == 0) { on = 0; }
	return r;
}
