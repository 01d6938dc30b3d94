/* The operating system that a simulated run of planus sees. Preloaded into the real binary. Files
 * live in a scratch directory; failures, short calls and interruptions on them are decided by a
 * seed and by an explicit list. Pipes and child processes are simulated in here: a child is a small
 * script, and it and the threads of planus take turns as the seed says, one at a time. Clock,
 * process id and random bytes come from the seed as well.
 * Everything that happens is written to a trace file that survives the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <linux/futex.h>
#include <unistd.h>

/* ---- raw system calls ------------------------------------------------------------------- */
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define S0(n) sys6(n, 0, 0, 0, 0, 0, 0)
#define S1(n, a) sys6(n, (long)(a), 0, 0, 0, 0, 0)
#define S2(n, a, b) sys6(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define S3(n, a, b, c) sys6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define S4(n, a, b, c, d) sys6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define S5(n, a, b, c, d, e) sys6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}

/* ---- configuration ---------------------------------------------------------------------- */
enum { OPENIN, READIN, STATIN, CLOSEIN, OPENOUT, WRITEOUT, CLOSEOUT, STDOUT_, STDERR_, OPENNULL, PIPE, SPAWN, WPIPE, RPIPE, WAIT, RAWON, RAWOFF, TTYSIZE, TTYPOLL, TTYREAD, NCLASS };
static const char *CLASS[NCLASS] = {"openin", "readin", "statin", "closein", "openout", "writeout", "closeout", "stdout", "stderr", "opennull", "pipe", "spawn", "wpipe", "rpipe", "wait", "rawon", "rawoff", "ttysize", "ttypoll", "ttyread"};
enum { ERR, SHORT, ZERO, DIE };
struct fault { int cls, nth, act, arg, done; };
static struct fault faults[64];
static int nfaults, seen[NCLASS];
static uint64_t rng[2] = {1, 2};
static uint64_t rnd_state = 7;
static int frag, eintr, steps = 30, fdcap = 65536;
static long diskcap = -1, written;
static long clock_now = 1000000000L, pid_now = 4242;
static int clock_jumps;
static int active;
static int inside; /* parsing the configuration */
static char dumpdir[512];
/* the terminal: its size and what the user does */
static int tty_w = -1, tty_h, nev, ev_at, idle;
#define NEV 512
static struct { int kind, a, b; } ev[NEV];

static uint64_t next(void) {
    uint64_t a = rng[0], b = rng[1];
    rng[0] = b;
    a ^= a << 23;
    rng[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rng[1] + b;
}
static uint64_t below(uint64_t n) { return n ? (uint64_t)(((__uint128_t)next() * n) >> 64) : 0; }
static int pct(int p) { return p > 0 && (int)below(100) < p; }

/* ---- trace ------------------------------------------------------------------------------ */
static char *tr;
static size_t tr_at, tr_max;
static long nops;
static void die(int code) __attribute__((noreturn));
__attribute__((format(printf, 1, 2))) static void T(const char *f, ...) {
    if (!tr) return;
    char b[300];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b - 1, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    /* room is kept for the lines at the end */
    if (tr_at + n + 1 < tr_max - (strncmp(b, "summary", 7) && strncmp(b, "end", 3) ? 65536 : 0)) {
        memcpy(tr + tr_at, b, n);
        tr_at += n;
        *(volatile uint64_t *)tr = tr_at;
    }
}

/* ---- pipes, children, threads ----------------------------------------------------------- */
struct pipe_ { char *buf; int len, cap; int pr, pw, cr, cw; /* ends open in planus / the child */ };
#define NP 64
static struct pipe_ pipes[NP];
static int npipes;
enum { K_NONE, K_IN, K_OUT, K_STDOUT, K_STDERR, K_PR, K_PW, K_OTHER };
static struct { short kind, p, nonblock; } fds[1024];

#define NSTEP 64
struct child {
    int pid, live, used, in, out, err; /* pipe or -1 */
    struct { char k; int n; } st[NSTEP];
    int nst, at, did;
    char *ib, *ob, *pend; /* all read, all written, waiting to be written */
    long il, ol, pl, po;
    int epipe; /* planus wrote to it after it closed its input */
    int status; /* wait status */
    int reaped, format;
    char args[256];
    char eb[4096]; int el;
};
#define NC 8
static struct child ch[NC];
static int nch, nscript;
static struct { struct { char k; int n; } st[NSTEP]; int nst; } scripts[NC];
#define BIG (64L << 20)
static char *arena(void) { return (char *)sys6(SYS_mmap, 0, BIG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

#define NT 16
typedef int (*pred_t)(void *);
struct thr {
    int used, done, go;
    pred_t pred;
    void *arg;
    int timed, timeout; /* may be resumed when nothing else can run; was resumed for that */
    int *faddr, fval, fwoken;
    void *(*fn)(void *);
    void *fnarg;
    pthread_t real;
};
static struct thr th[NT];
static int nth = 1, cur = 0;
static __thread int me = 0;

static void child_close(struct child *c, int which) {
    int *p = which == 0 ? &c->in : which == 1 ? &c->out : &c->err;
    if (*p >= 0) {
        if (which == 0) pipes[*p].cr--;
        else pipes[*p].cw--;
        *p = -1;
    }
}
static void child_end(struct child *c, int status) {
    c->status = status;
    c->live = 0;
    for (int i = 0; i < 3; i++) child_close(c, i);
    T("child %d end %d", (int)(c - ch), status);
}
static int child_runnable(struct child *c) {
    if (!c->live) return 0;
    if (c->at >= c->nst) return 1;
    char k = c->st[c->at].k;
    struct pipe_ *p;
    if (k == 'R' || k == 'A' || (k == 'S' && c->po >= c->pl)) {
        if (c->in < 0) return 1;
        p = &pipes[c->in];
        return p->len > 0 || p->pw + p->cw == 0;
    }
    if (k == 'O' || k == 'S' || k == 'E') {
        int i = k == 'E' ? c->err : c->out;
        if (i < 0) return 1;
        p = &pipes[i];
        return p->pr + p->cr == 0 || p->len < p->cap;
    }
    return 1;
}
static int take(struct pipe_ *p, char *to, int n) {
    if (n > p->len) n = p->len;
    memcpy(to, p->buf, n);
    memmove(p->buf, p->buf + n, p->len - n);
    p->len -= n;
    return n;
}
static int give(struct pipe_ *p, const char *from, int n) {
    if (n > p->cap - p->len) n = p->cap - p->len;
    memcpy(p->buf + p->len, from, n);
    p->len += n;
    return n;
}
static int chunk(int max) {
    if (max <= 1) return max;
    switch (below(4)) {
    case 0: return 1 + below(max < 9 ? max : 9);
    case 1: return 1 + below(max);
    default: return max;
    }
}
/* the child writes n bytes of b to pipe i; returns how many, or -1 if it died of it */
static int child_write(struct child *c, int i, const char *b, long n) {
    if (i < 0) return (int)n; /* nowhere */
    struct pipe_ *p = &pipes[i];
    if (p->pr + p->cr == 0) {
        child_end(c, SIGPIPE);
        return -1;
    }
    int k = chunk((int)(n < p->cap - p->len ? n : p->cap - p->len));
    return give(p, b, k);
}
static int child_read(struct child *c, int max) {
    if (c->in < 0) return 0;
    struct pipe_ *p = &pipes[c->in];
    int n = chunk(max < p->len ? max : p->len);
    if (c->il + n > BIG) die(252);
    n = take(p, c->ib + c->il, n);
    c->il += n;
    return n;
}
static void child_step(struct child *c) {
    if (c->at >= c->nst) {
        child_end(c, 0);
        return;
    }
    char k = c->st[c->at].k;
    int n = c->st[c->at].n, r;
    switch (k) {
    case 'R': /* read n bytes, less at the end */
        r = child_read(c, n - c->did);
        c->did += r;
        if (r == 0 || c->did >= n) c->at++, c->did = 0;
        break;
    case 'A': /* read everything */
        r = child_read(c, 1 << 30);
        if (r == 0) c->at++;
        break;
    case 'O': /* write what was read, framed; n: only so many bytes of it, -1: all */
        if (c->did == 0) {
            char head[600];
            c->did = 1;
            long l = snprintf(head, sizeof head, "// rustfmt %s\n", c->args);
            if (c->il + 2 * l + 100 > BIG) die(252);
            memcpy(c->pend, head, l);
            memcpy(c->pend + l, c->ib, c->il);
            l += c->il;
            l += sprintf(c->pend + l, "// %ld bytes\n", c->il);
            c->pl = n >= 0 && n < l ? n : l;
            c->po = 0;
        }
        if (c->po < c->pl) {
            r = child_write(c, c->out, c->pend + c->po, c->pl - c->po);
            if (r < 0) return;
            if (c->out >= 0) {
                memcpy(c->ob + c->ol, c->pend + c->po, r);
                c->ol += r;
            }
            c->po += r;
        }
        if (c->po >= c->pl) c->at++, c->did = 0, c->po = c->pl = 0;
        break;
    case 'S': /* copy input to output, piece by piece */
        if (c->po >= c->pl) {
            long before = c->il;
            r = child_read(c, n > 0 ? n : 4096);
            if (r == 0) {
                c->at++;
                c->po = c->pl = 0;
                break;
            }
            memcpy(c->pend, c->ib + before, r);
            c->pl = r;
            c->po = 0;
        } else {
            r = child_write(c, c->out, c->pend + c->po, c->pl - c->po);
            if (r < 0) return;
            if (c->out >= 0) {
                memcpy(c->ob + c->ol, c->pend + c->po, r);
                c->ol += r;
            }
            c->po += r;
        }
        break;
    case 'E': { /* n bytes of noise on standard error */
        char b[4096];
        int l = n - c->did;
        if (l > (int)sizeof b) l = sizeof b;
        for (int i = 0; i < l; i++) b[i] = (c->did + i) % 41 == 40 ? '\n' : 'a' + (c->did + i) % 26;
        r = child_write(c, c->err, b, l);
        if (r < 0) return;
        c->did += r;
        if (c->did >= n) c->at++, c->did = 0;
        break;
    }
    case 'C':
        child_close(c, n);
        c->at++;
        break;
    case 'X':
        child_end(c, (n & 255) << 8);
        break;
    case 'K':
        child_end(c, n & 127);
        break;
    default:
        c->at++;
    }
}

static void fwait(int *a, int v) { sys6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int *a) { sys6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void hand_over(int t) {
    cur = t;
    __atomic_store_n(&th[t].go, 1, __ATOMIC_SEQ_CST);
    fwake(&th[t].go);
}
static void wait_token(int t) {
    while (!__atomic_exchange_n(&th[t].go, 0, __ATOMIC_SEQ_CST)) fwait(&th[t].go, 0);
}
static int ready(struct thr *t) { return t->used && !t->done && (!t->pred || t->pred(t->arg)); }

/* let the seed say who goes on: a thread of planus or a child. Returns when this thread may. */
static void schedule(void) {
    for (;;) {
        int cand[NT + NC], n = 0;
        for (int i = 0; i < nth; i++)
            if (ready(&th[i])) cand[n++] = i;
        for (int i = 0; i < nch; i++)
            if (child_runnable(&ch[i])) cand[n++] = NT + i;
        if (n == 0) {
            /* time passes */
            for (int i = 0; i < nth && n == 0; i++)
                if (th[i].used && !th[i].done && th[i].timed) {
                    th[i].timeout = 1;
                    th[i].pred = 0;
                    clock_now += 1000000000L;
                    cand[n++] = i;
                }
        }
        if (n == 0) {
            T("deadlock");
            die(250);
        }
        if (++nops > 400000) {
            T("livelock");
            die(251);
        }
        int c = cand[below(n)];
        if (c >= NT) {
            child_step(&ch[c - NT]);
            continue;
        }
        if (c == me) return;
        T("switch %d", c);
        hand_over(c);
        if (th[me].done) return;
        wait_token(me);
        return;
    }
}
/* a point where others may get a turn */
static void point(void) {
    if (++nops > 400000) {
        T("livelock");
        die(251);
    }
    if (clock_jumps && pct(20)) clock_now += (long)below(7200) - 3600;
    if ((nch > 0 || nth > 1) && pct(steps)) schedule();
}
/* wait until pred; 0 if it timed out */
static int block(pred_t p, void *a, int timed) {
    struct thr *t = &th[me];
    t->pred = p;
    t->arg = a;
    t->timed = timed;
    t->timeout = 0;
    schedule();
    t->pred = 0;
    t->timed = 0;
    return !t->timeout;
}

static void dump(void) {
    static int done;
    if (done || !dumpdir[0]) return;
    done = 1;
    for (int i = 0; i < nch; i++) {
        char p[600];
        for (int o = 0; o < 2; o++) {
            snprintf(p, sizeof p, "%s/child%d.%s", dumpdir, i, o ? "out" : "in");
            long fd = S3(SYS_open, p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd < 0) continue;
            char *b = o ? ch[i].ob : ch[i].ib;
            long l = o ? ch[i].ol : ch[i].il;
            for (long at = 0; at < l;) {
                long r = S3(SYS_write, fd, b + at, l - at);
                if (r <= 0) break;
                at += r;
            }
            S1(SYS_close, fd);
        }
        T("summary %d format %d read %ld wrote %ld epipe %d live %d status %d left %d", i, ch[i].format, ch[i].il, ch[i].ol, ch[i].epipe, ch[i].live, ch[i].status, ch[i].at);
    }
    T("end threads %d ops %ld", nth, nops);
}
static void die(int code) {
    dump();
    S1(SYS_exit_group, code);
    __builtin_unreachable();
}
void _exit(int code) { die(code); }

/* ---- set-up ----------------------------------------------------------------------------- */
static void bad(const char *s) {
    S3(SYS_write, 2, s, strlen(s));
    S3(SYS_write, 2, "\n", 1);
    S1(SYS_exit_group, 253);
}
static void parse_script(char *s, int k) {
    int n = 0;
    if (k >= NC) bad("shim: too many children");
    for (char *t = strtok(s, " \n"); t && n < NSTEP; t = strtok(0, " \n")) {
        scripts[k].st[n].k = t[0];
        scripts[k].st[n].n = t[1] ? atoi(t + 1) : -1;
        n++;
    }
    scripts[k].nst = n;
    if (k >= nscript) nscript = k + 1;
}
static void *padding;
__attribute__((constructor)) static void init(void) {
    char *f = getenv("SIMOS");
    if (!f) return;
    inside = 1;
    char *buf = arena();
    long fd = S3(SYS_open, f, O_RDONLY, 0);
    if (fd < 0) bad("shim: no configuration");
    long n = 0, r;
    while ((r = S3(SYS_read, fd, buf + n, 1 << 20)) > 0) n += r;
    S1(SYS_close, fd);
    buf[n] = 0;
    char *save = 0;
    long pad = 0;
    for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
        char key[32], a[32], c[32];
        long v = 0;
        int off = 0, nthf, arg;
        if (sscanf(l, "%31s %n", key, &off) < 1) continue;
        char *rest = l + off;
        v = strtol(rest, 0, 10);
        if (!strcmp(key, "seed")) {
            rng[0] = strtoull(rest, 0, 10) * 0x9e3779b97f4a7c15ULL + 1;
            rng[1] = rng[0] ^ 0xd1b54a32d192ed03ULL;
            for (int i = 0; i < 8; i++) next();
        } else if (!strcmp(key, "random")) rnd_state = strtoull(rest, 0, 10) | 1;
        else if (!strcmp(key, "frag")) frag = v;
        else if (!strcmp(key, "eintr")) eintr = v;
        else if (!strcmp(key, "steps")) steps = v;
        else if (!strcmp(key, "cap")) fdcap = v;
        else if (!strcmp(key, "diskcap")) diskcap = v;
        else if (!strcmp(key, "clock")) clock_now = v;
        else if (!strcmp(key, "jumps")) clock_jumps = v;
        else if (!strcmp(key, "pid")) pid_now = v;
        else if (!strcmp(key, "pad")) pad = v;
        else if (!strcmp(key, "dump")) snprintf(dumpdir, sizeof dumpdir, "%s", rest);
        else if (!strcmp(key, "tty")) sscanf(rest, "%d %d", &tty_w, &tty_h);
        else if (!strcmp(key, "ev")) {
            if (nev >= NEV || sscanf(rest, "%d %d %d", &ev[nev].kind, &ev[nev].a, &ev[nev].b) != 3) bad("shim: bad event");
            nev++;
        } else if (!strcmp(key, "child")) {
            int k = atoi(rest);
            while (*rest && *rest != ' ') rest++;
            parse_script(rest, k);
        } else if (!strcmp(key, "trace")) {
            long t = S3(SYS_open, rest, O_RDWR | O_CREAT | O_TRUNC, 0644);
            tr_max = 4 << 20;
            S2(SYS_ftruncate, t, tr_max);
            tr = (char *)sys6(SYS_mmap, 0, tr_max, PROT_READ | PROT_WRITE, MAP_SHARED, t, 0);
            S1(SYS_close, t);
            tr_at = 8;
            *(volatile uint64_t *)tr = 8;
        } else if (!strcmp(key, "fault")) {
            if (sscanf(rest, "%31s %d %31s %d", a, &nthf, c, &arg) != 4 || nfaults >= 64) bad("shim: bad fault");
            struct fault *q = &faults[nfaults++];
            q->cls = -1;
            for (int i = 0; i < NCLASS; i++)
                if (!strcmp(a, CLASS[i])) q->cls = i;
            q->nth = nthf;
            q->act = !strcmp(c, "err") ? ERR : !strcmp(c, "short") ? SHORT : !strcmp(c, "zero") ? ZERO : DIE;
            q->arg = arg;
            if (q->cls < 0) bad("shim: bad class");
        } else bad(l);
    }
    S2(SYS_munmap, buf, BIG);
    if (pad) {
        padding = malloc(pad % 65536 + 1);
        sys6(SYS_mmap, 0, (pad % 97 + 1) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    fds[1].kind = K_STDOUT;
    fds[2].kind = K_STDERR;
    th[0].used = 1;
    inside = 0;
    active = 1;
}
__attribute__((destructor)) static void fini(void) { dump(); }

/* the fault to deliver to this call, if any */
static struct fault *fault(int cls) {
    int n = seen[cls]++;
    for (int i = 0; i < nfaults; i++)
        if (faults[i].cls == cls && faults[i].nth == n && !faults[i].done) {
            faults[i].done = 1;
            return &faults[i];
        }
    return 0;
}
static int interrupted(int cls) {
    if (pct(eintr)) {
        T("EINTR %s", CLASS[cls]);
        errno = EINTR;
        return 1;
    }
    return 0;
}
static void killed(void) {
    T("killed");
    dump();
    S2(SYS_kill, S0(SYS_getpid), SIGKILL);
    for (;;) S0(SYS_pause);
}

/* ---- the terminal (called by the vendored crossterm) -------------------------------------- */
/* -1: there is none; 0; or an errno */
__attribute__((visibility("default"))) int sim_tty(int what, int *out) {
    static const int cls[] = {RAWON, RAWOFF, TTYSIZE, TTYPOLL, TTYREAD};
    if (!active || tty_w < 0 || what < 0 || what > 4) return -1;
    point();
    struct fault *f = fault(cls[what]);
    if (f) {
        T("FAULT %s err %d", CLASS[cls[what]], f->arg);
        return f->arg;
    }
    switch (what) {
    case 2:
        out[0] = tty_w, out[1] = tty_h;
        break;
    case 3:
        /* a user who thinks now and then */
        out[0] = ev_at < nev && !pct(10);
        if (ev_at >= nev && ++idle > 50) {
            T("nobody left");
            die(251);
        }
        break;
    case 4:
        if (ev_at >= nev) bad("shim: no event to read");
        out[0] = ev[ev_at].kind, out[1] = ev[ev_at].a, out[2] = ev[ev_at].b;
        if (out[0] == 2) tty_w = out[1], tty_h = out[2];
        ev_at++;
    }
    T("tty %s", CLASS[cls[what]]);
    return 0;
}

/* ---- files ------------------------------------------------------------------------------ */
static int real_path(const char *p) { return p[0] == '/'; }
static int do_open(int dir, const char *path, int flags, int mode) {
    if (!active) return ret(S4(SYS_openat, dir, path, flags, mode));
    if (real_path(path) && strcmp(path, "/dev/null")) return ret(S4(SYS_openat, dir, path, flags, mode));
    int out = (flags & O_ACCMODE) != O_RDONLY;
    int cls = real_path(path) ? OPENNULL : out ? OPENOUT : OPENIN;
    point();
    if (interrupted(cls)) return -1;
    struct fault *f = fault(cls);
    if (f && f->act == DIE) killed();
    if (f && f->act == ERR) {
        T("FAULT %s err %d", CLASS[cls], f->arg);
        errno = f->arg;
        return -1;
    }
    long r = S4(SYS_openat, dir, path, flags, mode);
    T("open %s %s %ld", CLASS[cls], path, r);
    if (r >= 0 && r < 1024) fds[r].kind = cls == OPENNULL ? K_OTHER : out ? K_OUT : K_IN;
    return ret(r);
}
static int want_mode(int flags) { return (flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE; }
#define MODE(flags)                     \
    int mode = 0;                       \
    if (want_mode(flags)) {             \
        va_list ap;                     \
        va_start(ap, flags);            \
        mode = va_arg(ap, int);         \
        va_end(ap);                     \
    }
int open(const char *p, int flags, ...) {
    MODE(flags)
    return do_open(AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
    MODE(flags)
    return do_open(AT_FDCWD, p, flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
    MODE(flags)
    return do_open(d, p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...) {
    MODE(flags)
    return do_open(d, p, flags, mode);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static int stat_fault(int fd) {
    if (!active || fd < 0 || fd >= 1024 || fds[fd].kind != K_IN) return 0;
    struct fault *f = fault(STATIN);
    if (f && f->act == ERR) {
        T("FAULT statin err %d", f->arg);
        errno = f->arg;
        return 1;
    }
    return 0;
}
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict b) {
    const char *volatile p = path; /* std probes with a null pointer */
    if (p && !*p && stat_fault(dir)) return -1;
    return ret(S5(SYS_statx, dir, path, flags, mask, b));
}
int fstat64(int fd, struct stat64 *b) {
    if (stat_fault(fd)) return -1;
    return ret(S2(SYS_fstat, fd, b));
}
int fstat(int fd, struct stat *b) {
    if (stat_fault(fd)) return -1;
    return ret(S2(SYS_fstat, fd, b));
}

static int pipe_readable(void *a) {
    struct pipe_ *p = a;
    return p->len > 0 || p->pw + p->cw == 0;
}
struct wantw { struct pipe_ *p; int room; };
static int pipe_writable(void *a) {
    struct wantw *w = a;
    return w->p->pr + w->p->cr == 0 || w->p->cap - w->p->len >= w->room;
}
static struct child *reader_of(int p) {
    for (int i = nch - 1; i >= 0; i--)
        if (ch[i].used == p + 1) return &ch[i];
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!active || fd < 0 || fd >= 1024) return ret(S3(SYS_read, fd, b, n));
    int k = fds[fd].kind;
    if (k == K_IN) {
        point();
        if (interrupted(READIN)) return -1;
        struct fault *f = fault(READIN);
        if (f && f->act == DIE) killed();
        if (f && f->act == ERR) {
            T("FAULT readin err %d", f->arg);
            errno = f->arg;
            return -1;
        }
        size_t m = n;
        if (f && f->act == SHORT && (size_t)f->arg < m) m = f->arg ? f->arg : 1;
        else if (n > 1 && pct(frag)) m = 1 + below(below(2) ? 7 : n);
        if (m > n) m = n;
        if (n == 0) m = 0;
        long r = S3(SYS_read, fd, b, m);
        if (m < n && r == (long)m) T("SHORT readin %ld", r);
        T("read %ld", r);
        return ret(r);
    }
    if (k == K_PR) {
        struct pipe_ *p = &pipes[fds[fd].p];
        point();
        if (interrupted(RPIPE)) return -1;
        if (p->len == 0 && p->pw + p->cw > 0) {
            if (fds[fd].nonblock) {
                errno = EAGAIN;
                return -1;
            }
            block(pipe_readable, p, 0);
        }
        int m = n < (1u << 30) ? (int)n : 1 << 30;
        if (m > 1 && pct(frag)) m = 1 + below(below(2) ? 7 : m);
        if (m > (int)n) m = n;
        m = take(p, b, m);
        T("pread %d", m);
        return m;
    }
    return ret(S3(SYS_read, fd, b, n));
}
static ssize_t do_write(int fd, const void *b, size_t n) {
    if (!active || fd < 0 || fd >= 1024) return ret(S3(SYS_write, fd, b, n));
    int k = fds[fd].kind;
    if (k == K_OUT || k == K_STDOUT || k == K_STDERR) {
        int cls = k == K_OUT ? WRITEOUT : k == K_STDOUT ? STDOUT_ : STDERR_;
        point();
        if (n == 0) return ret(S3(SYS_write, fd, b, n));
        if (interrupted(cls)) return -1;
        struct fault *f = fault(cls);
        size_t m = n;
        if (f && f->act == DIE) {
            if ((size_t)f->arg < m) m = f->arg;
            if (m) S3(SYS_write, fd, b, m);
            T("FAULT %s torn %zu of %zu", CLASS[cls], m, n);
            killed();
        }
        const char *what = cls == STDOUT_ && memmem(b, n, "\033[?1049l", 8) ? " restoring" : "";
        if (f && f->act == ERR) {
            T("FAULT %s err %d%s", CLASS[cls], f->arg, what);
            errno = f->arg;
            return -1;
        }
        if (f && f->act == ZERO) {
            T("FAULT %s zero%s", CLASS[cls], what);
            return 0;
        }
        if (f && f->act == SHORT && (size_t)f->arg < m) m = f->arg ? f->arg : 1;
        else if (n > 1 && pct(frag)) m = 1 + below(below(2) ? 7 : n);
        if (m > n) m = n;
        if (cls != STDERR_ && diskcap >= 0) {
            if (written >= diskcap) {
                T("FAULT %s full%s", CLASS[cls], what);
                errno = ENOSPC;
                return -1;
            }
            if ((long)m > diskcap - written) m = diskcap - written;
        }
        if (m < n) T("SHORT %s %zu", CLASS[cls], m);
        long r = S3(SYS_write, fd, b, m);
        if (r > 0 && cls != STDERR_) written += r;
        T("write %s %zu %ld", CLASS[cls], n, r);
        return ret(r);
    }
    if (k == K_PW) {
        struct pipe_ *p = &pipes[fds[fd].p];
        struct wantw w = {p, n <= 4096 ? (int)n : 1};
        if (n == 0) return 0;
        point();
        if (interrupted(WPIPE)) return -1;
        if (w.room > p->cap) w.room = p->cap;
        if (!pipe_writable(&w)) {
            if (fds[fd].nonblock) {
                errno = EAGAIN;
                return -1;
            }
            block(pipe_writable, &w, 0);
        }
        if (p->pr + p->cr == 0) {
            struct child *c = reader_of(fds[fd].p);
            if (c) c->epipe = 1;
            T("EPIPE");
            raise(SIGPIPE);
            errno = EPIPE;
            return -1;
        }
        int m = n < (1u << 30) ? (int)n : 1 << 30;
        if (m > 1 && pct(frag)) {
            int q = 1 + below(below(2) ? 7 : m);
            if (q < m) {
                m = q;
                T("SHORT wpipe %d", m);
            }
        }
        /* a pipe takes as much as fits; the caller of a large write sees a short count */
        m = give(p, b, m);
        T("pwrite %zu %d", n, m);
        return m;
    }
    return ret(S3(SYS_write, fd, b, n));
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!active || fd < 0 || fd >= 1024 || fds[fd].kind == K_NONE || fds[fd].kind == K_OTHER) return ret(S3(SYS_writev, fd, v, n));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!active || fd < 0 || fd >= 1024 || fds[fd].kind == K_NONE || fds[fd].kind == K_OTHER) return ret(S3(SYS_readv, fd, v, n));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int close(int fd) {
    if (!active || fd < 0 || fd >= 1024) return ret(S1(SYS_close, fd));
    int k = fds[fd].kind, p = fds[fd].p;
    int cls = k == K_IN ? CLOSEIN : k == K_OUT ? CLOSEOUT : -1;
    fds[fd].kind = K_NONE;
    fds[fd].nonblock = 0;
    if (k == K_PR) pipes[p].pr--;
    if (k == K_PW) pipes[p].pw--;
    long r = S1(SYS_close, fd);
    if (cls >= 0) {
        struct fault *f = fault(cls);
        if (f && f->act == DIE) killed();
        if (f && f->act == ERR) {
            T("FAULT %s err %d", CLASS[cls], f->arg);
            errno = f->arg;
            return -1;
        }
        T("close %s", CLASS[cls]);
    }
    if (k == K_PR || k == K_PW) {
        T("close pipe %d", p);
        point();
    }
    return ret(r);
}

/* ---- pipes and children ----------------------------------------------------------------- */
int pipe2(int fd[2], int flags) {
    if (!active) return ret(S2(SYS_pipe2, fd, flags));
    point();
    struct fault *f = fault(PIPE);
    if (f && f->act == ERR) {
        T("FAULT pipe err %d", f->arg);
        errno = f->arg;
        return -1;
    }
    long r = S2(SYS_pipe2, fd, flags);
    if (r < 0) return ret(r);
    if (npipes >= NP || fd[0] >= 1024 || fd[1] >= 1024) bad("shim: too many pipes");
    struct pipe_ *p = &pipes[npipes];
    p->buf = arena();
    p->cap = fdcap;
    p->pr = p->pw = 1;
    fds[fd[0]].kind = K_PR;
    fds[fd[1]].kind = K_PW;
    fds[fd[0]].p = fds[fd[1]].p = npipes++;
    fds[fd[0]].nonblock = fds[fd[1]].nonblock = !!(flags & O_NONBLOCK);
    T("pipe %d", npipes - 1);
    return 0;
}
int pipe(int fd[2]) { return pipe2(fd, 0); }
int socketpair(int a, int b, int c, int *d) {
    if (!active) return ret(S4(SYS_socketpair, a, b, c, d));
    T("unsupported socketpair");
    die(253);
}

static struct { const void *fa; int from, to; } acts[32];
static int nacts;
static int (*real_fa_init)(posix_spawn_file_actions_t *);
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int from, int to) {
    if (nacts < 32) {
        acts[nacts].fa = fa;
        acts[nacts].from = from;
        acts[nacts++].to = to;
    }
    return 0;
}
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa) {
    if (!real_fa_init) real_fa_init = dlsym(RTLD_NEXT, "posix_spawn_file_actions_init");
    int n = 0;
    for (int i = 0; i < nacts; i++)
        if (acts[i].fa != fa) acts[n++] = acts[i];
    nacts = n;
    return real_fa_init(fa);
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *attr, char *const argv[], char *const envp[]) {
    point();
    int format = 1;
    char args[256] = "";
    for (int i = 1; argv[i]; i++) {
        if (!strcmp(argv[i], "--version")) format = 0;
        strncat(args, argv[i], sizeof args - strlen(args) - 2);
        if (argv[i + 1]) strcat(args, " ");
    }
    struct fault *f = fault(SPAWN);
    if (f && f->act == DIE) killed();
    if (f && f->act == ERR) {
        T("FAULT spawn err %d format %d", f->arg, format);
        return f->arg;
    }
    if (nch >= NC) {
        T("unsupported: too many children");
        die(253);
    }
    struct child *c = &ch[nch];
    c->in = c->out = c->err = -1;
    for (int i = 0; i < nacts; i++)
        if (acts[i].fa == fa && acts[i].from >= 0 && acts[i].from < 1024) {
            int k = fds[acts[i].from].kind, p = fds[acts[i].from].p;
            if (acts[i].to == 0 && k == K_PR) c->in = p, pipes[p].cr++, c->used = p + 1;
            if (acts[i].to == 1 && k == K_PW) c->out = p, pipes[p].cw++;
            if (acts[i].to == 2 && k == K_PW) c->err = p, pipes[p].cw++;
        }
    c->pid = 100000 + nch;
    c->live = 1;
    c->format = format;
    strcpy(c->args, args);
    c->ib = arena();
    c->ob = arena();
    c->pend = arena();
    if (nch < nscript && scripts[nch].nst) {
        memcpy(c->st, scripts[nch].st, sizeof c->st);
        c->nst = scripts[nch].nst;
    } else if (format) {
        c->st[0].k = 'A';
        c->st[1].k = 'O';
        c->st[1].n = -1;
        c->nst = 2;
    }
    T("spawn %d %s format %d args %s", nch, file, format, args);
    nch++;
    *pid = c->pid;
    point();
    return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *attr, char *const argv[], char *const envp[]) {
    return posix_spawnp(pid, file, fa, attr, argv, envp);
}
pid_t fork(void) {
    T("unsupported fork");
    die(253);
}
pid_t vfork(void) {
    T("unsupported vfork");
    die(253);
}
int pidfd_spawnp(int *pidfd, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *attr, char *const argv[], char *const envp[]) {
    T("unsupported pidfd_spawnp");
    die(253);
}
static int child_gone(void *a) { return !((struct child *)a)->live; }
static struct child *by_pid(pid_t p) {
    for (int i = 0; i < nch; i++)
        if (ch[i].pid == p && !ch[i].reaped) return &ch[i];
    return 0;
}
pid_t waitpid(pid_t p, int *status, int flags) {
    if (!active) return ret(S4(SYS_wait4, p, status, flags, 0));
    point();
    if (interrupted(WAIT)) return -1;
    struct child *c = by_pid(p);
    if (!c && p == -1)
        for (int i = 0; i < nch && !c; i++)
            if (!ch[i].reaped) c = &ch[i];
    if (!c) {
        errno = ECHILD;
        return -1;
    }
    if (c->live) {
        if (flags & WNOHANG) return 0;
        block(child_gone, c, 0);
    }
    c->reaped = 1;
    if (status) *status = c->status;
    T("wait %d %d", (int)(c - ch), c->status);
    return c->pid;
}
pid_t wait(int *status) { return waitpid(-1, status, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *info, int flags) {
    if (!active) return ret(S5(SYS_waitid, t, id, info, flags, 0));
    int st = 0;
    memset(info, 0, sizeof *info);
    struct child *c = by_pid(id);
    if (c && (flags & WNOWAIT)) {
        point();
        if (c->live && !(flags & WNOHANG)) block(child_gone, c, 0);
        if (c->live) return 0;
        st = c->status;
    } else {
        pid_t r = waitpid(t == P_ALL ? -1 : (pid_t)id, &st, flags & WNOHANG);
        if (r <= 0) return r;
    }
    info->si_pid = id;
    info->si_signo = SIGCHLD;
    info->si_code = st & 127 ? CLD_KILLED : CLD_EXITED;
    info->si_status = st & 127 ? st & 127 : st >> 8;
    return 0;
}
int kill(pid_t p, int sig) {
    if (active && p >= 100000) {
        struct child *c = by_pid(p);
        if (!c) {
            errno = ESRCH;
            return -1;
        }
        T("kill %d %d", (int)(c - ch), sig);
        if (sig && c->live) child_end(c, sig);
        return 0;
    }
    return ret(S2(SYS_kill, p, sig));
}
struct pollw { struct pollfd *f; nfds_t n; };
static int poll_count(void *a) {
    struct pollw *w = a;
    int n = 0;
    for (nfds_t i = 0; i < w->n; i++) {
        struct pollfd *f = &w->f[i];
        f->revents = 0;
        if (f->fd < 0 || f->fd >= 1024) continue;
        int k = fds[f->fd].kind;
        struct pipe_ *p = &pipes[fds[f->fd].p];
        if (k == K_PR) {
            if (p->len) f->revents |= f->events & POLLIN;
            if (p->pw + p->cw == 0) f->revents |= POLLHUP;
        } else if (k == K_PW) {
            if (p->pr + p->cr == 0) f->revents |= POLLERR;
            else if (p->cap > p->len) f->revents |= f->events & POLLOUT;
        } else f->revents |= f->events & (POLLIN | POLLOUT);
        if (f->revents) n++;
    }
    return n;
}
int poll(struct pollfd *f, nfds_t n, int timeout) {
    int sim = 0;
    if (active)
        for (nfds_t i = 0; i < n; i++)
            if (f[i].fd >= 0 && f[i].fd < 1024 && (fds[f[i].fd].kind == K_PR || fds[f[i].fd].kind == K_PW)) sim = 1;
    if (!sim) return ret(S3(SYS_poll, f, n, timeout));
    struct pollw w = {f, n};
    point();
    if (interrupted(RPIPE)) return -1;
    int r = poll_count(&w);
    if (r || timeout == 0) return r;
    if (!block(poll_count, &w, timeout > 0)) return 0;
    r = poll_count(&w);
    T("poll %d", r);
    return r;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (active && req == FIONBIO && fd >= 0 && fd < 1024 && (fds[fd].kind == K_PR || fds[fd].kind == K_PW)) {
        fds[fd].nonblock = *(int *)a != 0;
        return 0;
    }
    return ret(S3(SYS_ioctl, fd, req, a));
}
static int do_fcntl(int fd, int cmd, long a) {
    if (active && fd >= 0 && fd < 1024 && (fds[fd].kind == K_PR || fds[fd].kind == K_PW)) {
        if (cmd == F_SETFL) {
            fds[fd].nonblock = !!(a & O_NONBLOCK);
            return 0;
        }
        if (cmd == F_GETFL) return (fds[fd].kind == K_PW ? O_WRONLY : O_RDONLY) | (fds[fd].nonblock ? O_NONBLOCK : 0);
    }
    long r = S3(SYS_fcntl, fd, cmd, a);
    if (active && r >= 0 && r < 1024 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
        fds[r] = fds[fd];
        if (fds[r].kind == K_PR) pipes[fds[r].p].pr++;
        if (fds[r].kind == K_PW) pipes[fds[r].p].pw++;
    }
    return ret(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}

/* ---- threads ---------------------------------------------------------------------------- */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void *start(void *a) {
    struct thr *t = a;
    me = (int)(t - th);
    wait_token(me);
    void *r = t->fn(t->fnarg);
    t->done = 1;
    T("thread %d done", me);
    schedule(); /* hands over; does not come back here to wait */
    return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!active) return real_create(out, at, fn, arg);
    if (nth >= NT) bad("shim: too many threads");
    struct thr *t = &th[nth];
    t->fn = fn;
    t->fnarg = arg;
    T("thread %d", nth);
    int r = real_create(out, at, start, t);
    if (r) return r;
    t->real = *out;
    t->used = 1;
    nth++;
    point();
    return 0;
}
static int thr_done(void *a) { return ((struct thr *)a)->done; }
int pthread_join(pthread_t p, void **v) {
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (active)
        for (int i = 1; i < nth; i++)
            if (th[i].used && pthread_equal(th[i].real, p)) {
                if (!th[i].done) block(thr_done, &th[i], 0);
                th[i].used = 0;
                T("join %d", i);
                break;
            }
    return real_join(p, v);
}
static int futex_ready(void *a) {
    struct thr *t = a;
    return t->fwoken || __atomic_load_n(t->faddr, __ATOMIC_SEQ_CST) != t->fval;
}
int sched_yield(void) {
    if (active && (nth > 1 || nch)) {
        nops++;
        schedule();
    }
    return 0;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active && n == SYS_futex) {
        int op = b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            struct thr *t = &th[me];
            t->faddr = (int *)a;
            t->fval = (int)c;
            t->fwoken = 0;
            if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            int ok = block(futex_ready, t, d != 0);
            t->faddr = 0;
            if (!ok) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            for (int i = 0; i < nth && k < (int)c; i++)
                if (th[i].used && !th[i].done && th[i].faddr == (int *)a && !th[i].fwoken) th[i].fwoken = 1, k++;
            return k;
        }
    }
    if (active && (n == SYS_pidfd_open || n == SYS_clone3)) {
        errno = ENOSYS;
        return -1;
    }
    return ret(sys6(n, a, b, c, d, e, f));
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (!active) return ret(S2(SYS_nanosleep, t, r));
    clock_now += t->tv_sec * 1000000000L + t->tv_nsec;
    sched_yield();
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    if (!active) return ret(S4(SYS_clock_nanosleep, c, fl, t, r));
    clock_now += 1000000000L;
    sched_yield();
    return 0;
}

/* ---- clock, randomness, identity -------------------------------------------------------- */
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!active) return ret(S2(SYS_clock_gettime, c, t));
    clock_now += 1 + below(1000);
    t->tv_sec = clock_now / 1000000000L;
    t->tv_nsec = clock_now % 1000000000L;
    return 0;
}
time_t time(time_t *t) {
    time_t v = clock_now / 1000000000L;
    if (t) *t = v;
    return v;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!active && !getenv("SIMOS")) return ret(S3(SYS_getrandom, b, n, fl));
    for (size_t i = 0; i < n; i++) {
        rnd_state = rnd_state * 6364136223846793005ULL + 1442695040888963407ULL;
        ((unsigned char *)b)[i] = rnd_state >> 56;
    }
    T("getrandom %zu", n);
    return n;
}
pid_t getpid(void) { return active ? (pid_t)pid_now : (pid_t)S0(SYS_getpid); }
/* shown in the messages of panics */
pid_t gettid(void) { return active ? (pid_t)(1000 + me) : (pid_t)S0(SYS_gettid); }
