#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "pbt.h"

PbtShared *pbt_sh;
int pbt_verbose;

uint64_t pbt_mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t pbt_next(PbtRng *r) { r->s += 0x9E3779B97F4A7C15ull; return pbt_mix(r->s); }
uint32_t pbt_below(PbtRng *r, uint32_t n) { return n ? (uint32_t) ((pbt_next(r) >> 16) % n) : 0; }
uint32_t pbt_range(PbtRng *r, uint32_t lo, uint32_t hi) { return lo + pbt_below(r, hi - lo + 1); }
int pbt_chance(PbtRng *r, int num, int den) { return (int) pbt_below(r, den) < num; }

void pbt_add(PbtCase *c, int k, uint32_t a, uint32_t b, uint32_t cc, uint32_t d) {
    PbtOp *o;
    if (c->n == c->cap) {
        c->cap = c->cap ? c->cap * 2 : 64;
        c->op = (PbtOp *) realloc(c->op, c->cap * sizeof(PbtOp));
        if (!c->op) abort();
    }
    o = &c->op[c->n++];
    o->k = (uint16_t) k; o->a = a; o->b = b; o->c = cc; o->d = d;
}

void pbt_fail(const char *fmt, ...) {
    va_list ap;
    if (!pbt_sh->failed) {
        pbt_sh->failed = 1;
        va_start(ap, fmt);
        vsnprintf(pbt_sh->msg, sizeof(pbt_sh->msg), fmt, ap);
        va_end(ap);
    }
    _exit(77);
}
void pbt_done(void) { _exit(0); }
void pbt_digest(uint64_t v) { pbt_sh->digest = pbt_mix(pbt_sh->digest ^ (v + 0x1234567)); }

static double now(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

extern void __asan_init(void) __attribute__((weak));
static int errfd = -1;
static char errtext[1024];
static int wall_limit = 120;

/* run one case in a child of its own; 0: held; 1: violated (why in msg); 2: no answer */
static int run_case(const PbtCase *c, const char *profile, char *why, size_t whysz) {
    pid_t pid;
    int st = 0;
    double t0 = now();
    int timedout = 0;
    ssize_t n;
    memset((void *) pbt_sh, 0, sizeof(*pbt_sh));
    if (errfd < 0) errfd = memfd_create("err", 0);
    if (errfd >= 0 && ftruncate(errfd, 0)) {}
    fflush(stdout); fflush(stderr);
    pid = fork();
    if (pid < 0) { snprintf(why, whysz, "fork: %s", strerror(errno)); return 2; }
    if (pid == 0) {
        struct rlimit rl;
        rl.rlim_cur = pbt_cpu_limit; rl.rlim_max = pbt_cpu_limit + 2;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        if (!__asan_init) {
            rl.rlim_cur = rl.rlim_max = (rlim_t) 3 << 30; /* a runaway may not take the machine with it */
            setrlimit(RLIMIT_DATA, &rl);
        }
        if (errfd >= 0 && !pbt_verbose) { lseek(errfd, 0, SEEK_SET); dup2(errfd, 2); }
        pbt_exec(c, profile);
        _exit(0);
    }
    {
        /* fast path: block; a watchdog alarm interrupts the wait */
        int waited = 0;
        while (1) {
            pid_t r;
            struct itimerval_dummy { int x; } d; (void) d;
            alarm(waited ? 5 : wall_limit);
            r = waitpid(pid, &st, 0);
            if (r == pid) break;
            if (r < 0 && errno == EINTR) {
                if (now() - t0 >= wall_limit - 1) { timedout = 1; kill(pid, SIGKILL); }
                waited = 1;
                continue;
            }
            snprintf(why, whysz, "waitpid: %s", strerror(errno));
            return 2;
        }
        alarm(0);
    }
    errtext[0] = 0;
    if (errfd >= 0 && !pbt_verbose) {
        /* the end of what it said matters */
        off_t sz = lseek(errfd, 0, SEEK_END), from = 0;
        if (sz > (off_t) sizeof(errtext) - 1) from = sz - ((off_t) sizeof(errtext) - 1);
        n = pread(errfd, errtext, sizeof(errtext) - 1, from);
        if (n < 0) n = 0;
        errtext[n] = 0;
        {
            char *p;
            for (p = errtext; *p; p++) if (*p == '\n') *p = ' ';
        }
    }
    if (timedout) {
        snprintf(why, whysz, "operation %d: no progress (stopped after %d s of waiting)", pbt_sh->opi, wall_limit);
        return 1;
    }
    if (pbt_sh->failed) {
        snprintf(why, whysz, "operation %d: %s", pbt_sh->opi, pbt_sh->msg);
        return 1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        if (pbt_sh->expect == 2 || pbt_sh->expect == 3) {
            snprintf(why, whysz, "operation %d: ended normally although it had to be stopped with a report", pbt_sh->opi);
            return 1;
        }
        return 0;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && (pbt_sh->expect == 1 || pbt_sh->expect == 3) && errtext[0]) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && pbt_sh->expect == 4) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && pbt_sh->expect == 2) {
        if (strcasestr(errtext, "corrupt")) return 0;
        snprintf(why, whysz, "operation %d: stopped without a corruption report (stderr: %.200s)", pbt_sh->opi, errtext);
        return 1;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        /* CPU limit's hard edge, or the memory guard of the machine */
        snprintf(why, whysz, "killed");
        return 2;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
        snprintf(why, whysz, "operation %d: does not terminate (%d s of CPU)", pbt_sh->opi, pbt_cpu_limit);
        return 1;
    }
    if (WIFSIGNALED(st))
        snprintf(why, whysz, "operation %d: died with signal %d (%s); stderr: %.600s", pbt_sh->opi, WTERMSIG(st), strsignal(WTERMSIG(st)), errtext);
    else
        snprintf(why, whysz, "operation %d: exit code %d; stderr: %.600s", pbt_sh->opi, WEXITSTATUS(st), errtext);
    return 1;
}

static void write_case(FILE *f, const PbtCase *c) {
    int i;
    for (i = 0; i < c->n; i++)
        fprintf(f, "%s %u %u %u %u\n", pbt_opname[c->op[i].k], c->op[i].a, c->op[i].b, c->op[i].c, c->op[i].d);
}

static void read_case(const char *path, PbtCase *c) {
    FILE *f = fopen(path, "r");
    char line[512], name[64];
    unsigned a, b, cc, d;
    if (!f) { perror(path); exit(2); }
    while (fgets(line, sizeof(line), f)) {
        int k;
        if (line[0] == '#' || line[0] == '\n') continue;
        if (sscanf(line, "%63s %u %u %u %u", name, &a, &b, &cc, &d) != 5) continue;
        for (k = 0; k < pbt_nop; k++)
            if (!strcmp(name, pbt_opname[k])) break;
        if (k == pbt_nop) { fprintf(stderr, "unknown operation %s\n", name); exit(2); }
        pbt_add(c, k, a, b, cc, d);
    }
    fclose(f);
}

static uint64_t hash_case(const PbtCase *c) {
    uint64_t h = 77;
    int i;
    for (i = 0; i < c->n; i++) {
        const PbtOp *o = &c->op[i];
        h = pbt_mix(h ^ o->k); h = pbt_mix(h ^ o->a); h = pbt_mix(h ^ o->b); h = pbt_mix(h ^ o->c); h = pbt_mix(h ^ o->d);
    }
    return h;
}

static void copy_without(PbtCase *to, const PbtCase *from, int lo, int hi) {
    int i;
    to->n = 0;
    for (i = 0; i < from->n; i++) {
        const PbtOp *o = &from->op[i];
        if (i >= lo && i < hi) continue;
        pbt_add(to, o->k, o->a, o->b, o->c, o->d);
    }
}

/* delta debugging: first remove operations, then make arguments small */
static int shrink(PbtCase *c, const char *profile, double budget, char *why, size_t whysz) {
    double end = now() + budget;
    PbtCase t = {0, 0, 0};
    char w[3072];
    int tries = 0, chunk, changed = 1;
    while (changed && now() < end) {
        changed = 0;
        for (chunk = c->n / 2 > 0 ? c->n / 2 : 1; chunk >= 1; chunk /= 2) {
            int i;
            for (i = c->n - chunk; i > -chunk && now() < end;) {
                int lo = i < 0 ? 0 : i, hi = i + chunk;
                if (hi > c->n) hi = c->n;
                if (hi <= lo) { i -= chunk; continue; }
                copy_without(&t, c, lo, hi);
                tries++;
                if (t.n && run_case(&t, profile, w, sizeof(w)) == 1) {
                    PbtCase s = *c; *c = t; t = s;
                    snprintf(why, whysz, "%s", w);
                    changed = 1;
                }
                i -= chunk;
            }
        }
    }
    {
        int i, f;
        for (i = 0; i < c->n && now() < end; i++)
            for (f = 0; f < 4 && now() < end; f++) {
                uint32_t *v = f == 0 ? &c->op[i].a : f == 1 ? &c->op[i].b : f == 2 ? &c->op[i].c : &c->op[i].d;
                uint32_t old, cand[3];
                int q;
                old = *v;
                cand[0] = 0; cand[1] = old & 15; cand[2] = old / 2;
                for (q = 0; q < 3; q++) {
                    if (cand[q] == old || (q && cand[q] == cand[q-1])) continue;
                    *v = cand[q];
                    tries++;
                    if (run_case(c, profile, w, sizeof(w)) == 1) { snprintf(why, whysz, "%s", w); break; }
                    *v = old;
                }
            }
    }
    free(t.op);
    return tries;
}

static void on_alarm(int s) { (void) s; }

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char ch = (unsigned char) *s;
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch < 32 || ch > 126) fprintf(f, " ");
        else fputc(ch, f);
    }
    fputc('"', f);
}

int pbt_main(int argc, char **argv) {
    const char *profile = "default", *out = NULL, *cmd = argc > 1 ? argv[1] : "", *replay = NULL;
    uint64_t seed = 1;
    long start = 0, count = 100, i;
    double secs = 1e9, shrink_s = 20, t0;
    struct sigaction sa;
    int a;
    /* fixed addresses make a case a pure function of code and seed; if the
     * sandbox forbids this, nothing depends on it */
    if (!getenv("PBT_NOASLR_DONE")) {
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("PBT_NOASLR_DONE", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    for (a = 2; a < argc; a++) {
        if (!strcmp(argv[a], "--profile")) profile = argv[++a];
        else if (!strcmp(argv[a], "--seed")) seed = strtoull(argv[++a], NULL, 10);
        else if (!strcmp(argv[a], "--start")) start = atol(argv[++a]);
        else if (!strcmp(argv[a], "--count")) count = atol(argv[++a]);
        else if (!strcmp(argv[a], "--secs")) secs = atof(argv[++a]);
        else if (!strcmp(argv[a], "--shrink")) shrink_s = atof(argv[++a]);
        else if (!strcmp(argv[a], "--wall")) wall_limit = atoi(argv[++a]);
        else if (!strcmp(argv[a], "--out")) out = argv[++a];
        else if (!strcmp(argv[a], "-v")) pbt_verbose = 1;
        else replay = argv[a];
    }
    if (!strcmp(cmd, "hello")) {
        puts("hello");
        return 0;
    }
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, NULL);
    pbt_sh = (PbtShared *) mmap(NULL, sizeof(PbtShared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (pbt_sh == MAP_FAILED) { perror("mmap"); return 2; }

    if (!strcmp(cmd, "replay") || !strcmp(cmd, "digestfile")) {
        PbtCase c = {0, 0, 0};
        char why[3072] = "";
        int r;
        if (!replay) { fprintf(stderr, "replay FILE\n"); return 2; }
        read_case(replay, &c);
        r = run_case(&c, profile, why, sizeof(why));
        if (!strcmp(cmd, "digestfile")) {
            printf("%d %016llx %s\n", r, (unsigned long long) pbt_sh->digest, why);
            return 0;
        }
        if (r) printf("%s: %s\n", r == 1 ? "VIOLATED" : "NOANSWER", why); else printf("held\n");
        if (pbt_verbose) {
            int q;
            for (q = 0; pbt_ctrname[q]; q++) printf("  %s=%llu\n", pbt_ctrname[q], (unsigned long long) pbt_sh->ctr[q]);
        }
        return r;
    }
    if (!strcmp(cmd, "gen")) {
        for (i = start; i < start + count; i++) {
            PbtCase c = {0, 0, 0};
            PbtRng r; r.s = pbt_mix(seed * 1000003u + i);
            pbt_gen(&c, &r, profile);
            printf("# case %ld\n", i);
            write_case(stdout, &c);
            free(c.op);
        }
        return 0;
    }
    if (!strcmp(cmd, "digest")) {
        t0 = now();
        for (i = start; i < start + count && now() - t0 < secs; i++) {
            PbtCase c = {0, 0, 0};
            char why[3072] = "";
            int r;
            PbtRng rg; rg.s = pbt_mix(seed * 1000003u + i);
            pbt_gen(&c, &rg, profile);
            r = run_case(&c, profile, why, sizeof(why));
            printf("%ld %d %016llx %016llx %d %s\n", i, r, (unsigned long long) pbt_sh->digest, (unsigned long long) hash_case(&c),
                   pbt_nontrivial(pbt_sh, profile), why);
            free(c.op);
        }
        return 0;
    }
    if (strcmp(cmd, "run")) { fprintf(stderr, "usage: run|replay|gen|digest ...\n"); return 2; }

    {
        FILE *o = out ? fopen(out, "w") : stdout;
        uint64_t ctr[PBT_NCTR], nz[PBT_NCTR];
        int nctr;
        uint64_t *hashes = (uint64_t *) malloc(sizeof(uint64_t) * (count > 0 ? count : 1));
        long ran = 0, nontriv = 0, noans = 0;
        int q, violated = 0;
        char why[3072] = "";
        PbtCase fail = {0, 0, 0};
        long failidx = -1;
        int orign = 0, tries = 0;
        PbtCase sample[2];
        int ns = 0;
        long ops = 0;
        for (nctr = 0; pbt_ctrname[nctr]; nctr++);
        memset(ctr, 0, sizeof(ctr)); memset(nz, 0, sizeof(nz)); memset(sample, 0, sizeof(sample));
        if (!o || !hashes) { perror("out"); return 2; }
        t0 = now();
        for (i = start; i < start + count && now() - t0 < secs; i++) {
            PbtCase c = {0, 0, 0};
            int r;
            PbtRng rg; rg.s = pbt_mix(seed * 1000003u + i);
            pbt_gen(&c, &rg, profile);
            r = run_case(&c, profile, why, sizeof(why));
            ran++;
            ops += c.n;
            for (q = 0; q < nctr; q++) { if (strncmp(pbt_ctrname[q], "max_", 4)) ctr[q] += pbt_sh->ctr[q]; else if (ctr[q] < pbt_sh->ctr[q]) ctr[q] = pbt_sh->ctr[q]; if (pbt_sh->ctr[q]) nz[q]++; }
            if (r == 2) { noans++; free(c.op); continue; }
            if (r == 1) {
                violated = 1; failidx = i; fail = c; orign = c.n;
                break;
            }
            if (pbt_nontrivial(pbt_sh, profile)) {
                hashes[nontriv++] = hash_case(&c);
                if (ns < 2 && (i % 7 == 3 || ns == 0)) { sample[ns++] = c; continue; }
            }
            free(c.op);
        }
        if (violated) tries = shrink(&fail, profile, shrink_s, why, sizeof(why));
        fprintf(o, "{\"ran\":%ld,\"nontrivial\":%ld,\"noanswer\":%ld,\"ops\":%ld,\"secs\":%.2f,\"ctr\":{", ran, nontriv, noans, ops, now() - t0);
        for (q = 0; pbt_ctrname[q]; q++)
            fprintf(o, "%s\"%s\":[%llu,%llu]", q ? "," : "", pbt_ctrname[q], (unsigned long long) ctr[q], (unsigned long long) nz[q]);
        fprintf(o, "},\"samples\":[");
        for (q = 0; q < ns; q++) {
            char *buf = NULL; size_t bl = 0;
            FILE *m = open_memstream(&buf, &bl);
            PbtCase sc = sample[q];
            if (sc.n > 60) sc.n = 60;
            write_case(m, &sc);
            fclose(m);
            { char *p; for (p = buf; *p; p++) if (*p == '\n') *p = ';'; }
            if (q) fputc(',', o);
            jstr(o, buf);
            free(buf);
        }
        fprintf(o, "],\"violated\":%d", violated);
        if (violated) {
            char *buf = NULL; size_t bl = 0;
            FILE *m = open_memstream(&buf, &bl);
            write_case(m, &fail);
            fclose(m);
            { char *p; for (p = buf; *p; p++) if (*p == '\n') *p = ';'; }
            fprintf(o, ",\"case\":%ld,\"ops_before\":%d,\"ops_after\":%d,\"shrink_tries\":%d,\"why\":", failidx, orign, fail.n, tries);
            jstr(o, why);
            fprintf(o, ",\"replay\":");
            jstr(o, buf);
            free(buf);
        }
        fprintf(o, ",\"hashes\":[");
        for (i = 0; i < nontriv; i++) fprintf(o, "%s\"%016llx\"", i ? "," : "", (unsigned long long) hashes[i]);
        fprintf(o, "]}\n");
        if (out) fclose(o);
        return violated;
    }
}
