/* Executes sessions of drpm API calls read from stdin; each session runs in a child process of its own.
 * Protocol: BEGIN <timeout_s> / <op>\t<arg>... / END. Arguments are hex, "-" is NULL, numbers are decimal. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <drpm.h>
#include "interpose.h"

int drpm_verif_chunk = 0x7fffffff, drpm_verif_block_size = 8192, drpm_verif_core_blocks = 5000, drpm_verif_open_files = 50;

#define NSLOT 8
#define NRES 64
static drpm *handle[NSLOT];
static drpm_make_options *opts[NSLOT];
struct res { int kind; char *s; unsigned long *a; unsigned long n; } res[NRES];

static char *arg[32]; static int nargs;
static char *unhex(const char *h)
{
    size_t n = strlen(h) / 2; char *r;
    if (!strcmp(h, "-")) return NULL;
    r = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r[i] = v; }
    r[n] = 0;
    return r;
}
static void hexout(FILE *f, const char *s) { if (!s) { fprintf(f, "null"); return; } fputc('"', f); for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s); fputc('"', f); }
static int count_fds(char *buf, size_t sz)
{
    DIR *d = opendir("/proc/self/fd"); struct dirent *e; int n = 0; size_t l = 0;
    buf[0] = 0;
    if (!d) return -1;
    while ((e = readdir(d))) {
        char p[64], t[256]; ssize_t k;
        if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
        n++;
        snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name);
        if ((k = readlink(p, t, sizeof t - 1)) > 0) { t[k] = 0; if (l + k + 2 < sz) l += sprintf(buf + l, "%s;", t); }
    }
    closedir(d);
    return n;
}
#define N(i) strtol(arg[i], NULL, 10)
#define S(i) unhex(arg[i])
#define SLOT(i) (strcmp(arg[i], "-") ? (int)N(i) : -1)
static FILE *out;

static long getter(const char *o, int h, int tag, int slot, int nullt)
{
    drpm *d = h < 0 ? NULL : handle[h];
    int rc;
    if (!strcmp(o, "gu")) { unsigned v = 0xA5A5A5A5u; rc = drpm_get_uint(d, tag, nullt ? NULL : &v); fprintf(out, ",\"v\":%u,\"touched\":%d", v, v != 0xA5A5A5A5u); }
    else if (!strcmp(o, "gul")) { unsigned long v = 0xA5A5A5A5A5A5A5A5ul; rc = drpm_get_ulong(d, tag, nullt ? NULL : &v); fprintf(out, ",\"v\":%lu,\"touched\":%d", v, v != 0xA5A5A5A5A5A5A5A5ul); }
    else if (!strcmp(o, "gull")) { unsigned long long v = 0xA5A5A5A5A5A5A5A5ull; rc = drpm_get_ullong(d, tag, nullt ? NULL : &v); fprintf(out, ",\"v\":%llu,\"touched\":%d", v, v != 0xA5A5A5A5A5A5A5A5ull); }
    else if (!strcmp(o, "gs")) {
        char *v = (char *)0xA5A5; rc = drpm_get_string(d, tag, nullt ? NULL : &v);
        fprintf(out, ",\"touched\":%d,\"v\":", v != (char *)0xA5A5);
        if (rc == 0 && !nullt) { hexout(out, v); if (slot >= 0) { res[slot].kind = 1; res[slot].s = v; } else free(v); } else fprintf(out, "null");
    } else {
        unsigned long *v = (unsigned long *)0xA5A5, n = 0xA5A5;
        rc = drpm_get_ulong_array(d, tag, nullt & 1 ? NULL : &v, nullt & 2 ? NULL : &n);
        fprintf(out, ",\"touched\":%d,\"v\":", v != (unsigned long *)0xA5A5 || n != 0xA5A5);
        if (rc == 0 && !nullt) {
            fprintf(out, "["); for (unsigned long i = 0; i < n; i++) fprintf(out, "%s%lu", i ? "," : "", v[i]); fprintf(out, "]");
            if (n == 0) fprintf(out, ",\"nullarr\":%d", v == NULL);
            if (slot >= 0) { res[slot].kind = 2; res[slot].a = v; res[slot].n = n; } else free(v);
        } else fprintf(out, "null");
    }
    return rc;
}

static void run_op(int idx, char *line)
{
    char *o, fds[4096]; long rc = -1; int timed = 0, f0 = 0, f1 = 0; long l0 = 0, l1 = 0, b0 = 0, b1 = 0;
    nargs = 0;
    for (char *p = strtok(line, "\t"); p && nargs < 32; p = strtok(NULL, "\t")) arg[nargs++] = p;
    o = arg[0];
    fprintf(out, "{\"i\":%d,\"op\":\"%s\"", idx, o);
    fflush(out);
#define LIB(call) do { timed = 1; f0 = count_fds(fds, sizeof fds); errno = 0; l0 = iv_live(); b0 = iv_live_bytes(); iv_begin(); rc = (call); iv_end(); l1 = iv_live(); b1 = iv_live_bytes(); f1 = count_fds(fds, sizeof fds); } while (0)
    if (!strcmp(o, "make")) { char *a = S(1), *b = S(2), *c = S(3); int s = SLOT(4); LIB(drpm_make(a, b, c, s < 0 ? NULL : opts[s])); free(a); free(b); free(c); }
    else if (!strcmp(o, "apply")) { char *a = S(1), *b = S(2), *c = S(3); LIB(drpm_apply(a, b, c)); free(a); free(b); free(c); }
    else if (!strcmp(o, "check")) { char *a = S(1); int m = N(2); LIB(drpm_check(a, m)); free(a); }
    else if (!strcmp(o, "checkseq")) { char *a = S(1), *b = S(2); int m = N(3); LIB(drpm_check_sequence(a, b, m)); free(a); free(b); }
    else if (!strcmp(o, "oinit")) { int s = SLOT(1); LIB(drpm_make_options_init(s < 0 ? NULL : &opts[s])); }
    else if (!strcmp(o, "odestroy")) { int s = SLOT(1); LIB(drpm_make_options_destroy(s < 0 ? NULL : &opts[s])); if (s >= 0) fprintf(out, ",\"isnull\":%d", opts[s] == NULL); }
    else if (!strcmp(o, "odefaults")) { int s = SLOT(1); LIB(drpm_make_options_defaults(s < 0 ? NULL : opts[s])); }
    else if (!strcmp(o, "ocopy")) { int d = SLOT(1), s = SLOT(2); LIB(drpm_make_options_copy(d < 0 ? NULL : opts[d], s < 0 ? NULL : opts[s])); }
    else if (!strcmp(o, "otype")) { int s = SLOT(1); int n = N(2); LIB(drpm_make_options_set_type(s < 0 ? NULL : opts[s], n)); }
    else if (!strcmp(o, "over")) { int s = SLOT(1); int n = N(2); LIB(drpm_make_options_set_version(s < 0 ? NULL : opts[s], n)); }
    else if (!strcmp(o, "ocomp")) { int s = SLOT(1); int c = N(2), n = N(3); LIB(drpm_make_options_set_delta_comp(s < 0 ? NULL : opts[s], c, n)); }
    else if (!strcmp(o, "orpm")) { int s = SLOT(1); LIB(drpm_make_options_get_delta_comp_from_rpm(s < 0 ? NULL : opts[s])); }
    else if (!strcmp(o, "oforbid")) { int s = SLOT(1); LIB(drpm_make_options_forbid_addblk(s < 0 ? NULL : opts[s])); }
    else if (!strcmp(o, "oaddblk")) { int s = SLOT(1); int c = N(2), n = N(3); LIB(drpm_make_options_set_addblk_comp(s < 0 ? NULL : opts[s], c, n)); }
    else if (!strcmp(o, "oseq")) { int s = SLOT(1); char *p = S(2); LIB(drpm_make_options_set_seqfile(s < 0 ? NULL : opts[s], p)); if (p) memset(p, 'X', strlen(p)); free(p); }
    else if (!strcmp(o, "opatches")) { int s = SLOT(1); char *p = S(2), *q = S(3); LIB(drpm_make_options_add_patches(s < 0 ? NULL : opts[s], p, q)); if (p) memset(p, 'X', strlen(p)); if (q) memset(q, 'X', strlen(q)); free(p); free(q); }
    else if (!strcmp(o, "read")) { int h = SLOT(1); char *a = S(2); drpm *d = (drpm *)0xA5A5; LIB(drpm_read(h < 0 ? NULL : &d, a)); if (h >= 0) { fprintf(out, ",\"hnull\":%d,\"huntouched\":%d", d == NULL, d == (drpm *)0xA5A5); handle[h] = rc == 0 ? d : NULL; } free(a); }
    else if (!strcmp(o, "destroy")) { int h = SLOT(1); LIB(drpm_destroy(h < 0 ? NULL : &handle[h])); if (h >= 0) fprintf(out, ",\"hnull\":%d", handle[h] == NULL); }
    else if (o[0] == 'g') { int h = SLOT(1), t = N(2), q = nargs > 3 ? SLOT(3) : -1, z = nargs > 4 ? N(4) : 0; LIB(getter(o, h, t, q, z)); }
    else if (!strcmp(o, "show")) { struct res *r = &res[N(1)]; rc = 0; fprintf(out, ",\"v\":"); if (r->kind == 1) hexout(out, r->s); else if (r->kind == 2) { fprintf(out, "["); for (unsigned long i = 0; i < r->n; i++) fprintf(out, "%s%lu", i ? "," : "", r->a[i]); fprintf(out, "]"); } else fprintf(out, "null"); }
    else if (!strcmp(o, "scribble")) { struct res *r = &res[N(1)]; rc = 0; if (r->kind == 1 && r->s) memset(r->s, '#', strlen(r->s)); if (r->kind == 2) for (unsigned long i = 0; i < r->n; i++) r->a[i] = ~0ul; }
    else if (!strcmp(o, "drop")) { struct res *r = &res[N(1)]; rc = 0; free(r->kind == 1 ? (void *)r->s : (void *)r->a); memset(r, 0, sizeof *r); }
    else if (!strcmp(o, "strerror")) { const char *s = drpm_strerror(N(1)); rc = 0; fprintf(out, ",\"v\":"); hexout(out, s); }
    else if (!strcmp(o, "limits")) { drpm_verif_block_size = N(1); drpm_verif_core_blocks = N(2); drpm_verif_open_files = N(3); rc = 0; }
    else if (!strcmp(o, "chunk")) { drpm_verif_chunk = N(1) > 0 ? N(1) : 0x7fffffff; rc = 0; }
    else if (!strcmp(o, "unlink")) { char *p = S(1); rc = unlink(p) == 0 || errno == ENOENT ? 0 : -1; free(p); }
    else if (!strcmp(o, "copy")) { char *p = S(1), *q = S(2); FILE *a = fopen(p, "rb"), *b = fopen(q, "wb"); int ch; rc = a && b ? 0 : -1; if (rc == 0) while ((ch = fgetc(a)) != EOF) fputc(ch, b); if (a) fclose(a); if (b) fclose(b); free(p); free(q); }
    else if (!strcmp(o, "rename")) { char *p = S(1), *q = S(2); rc = rename(p, q); free(p); free(q); }
    else if (!strcmp(o, "link")) { char *p = S(1), *q = S(2); rc = link(p, q); free(p); free(q); }
    else if (!strcmp(o, "watch")) { char *p = S(1); iv_watch(p); free(p); rc = 0; }
    else if (!strcmp(o, "trace")) { iv_trace(N(1)); rc = 0; }
    else if (!strcmp(o, "fault")) { char *m = S(2), *c = S(3); iv_fault(N(1), m, c, nargs > 4 ? N(4) : 1); free(m); free(c); rc = 0; }
    else if (!strcmp(o, "sum")) { char *p = S(1); struct stat st; FILE *f; unsigned long long h = 1469598103934665603ull, g = 88172645463325252ull; long n = 0; int ch; memset(&st, 0, sizeof st); lstat(p, &st); f = S_ISREG(st.st_mode) ? fopen(p, "rb") : NULL; rc = f ? 0 : -1; if (f) { while ((ch = fgetc(f)) != EOF) { h = (h ^ ch) * 1099511628211ull; g = (g + ch + 1) * 6364136223846793005ull + 1442695040888963407ull; n++; } fclose(f); } fprintf(out, ",\"size\":%ld,\"sum\":\"%016llx%016llx\",\"meta\":\"%o %u %u %lu %ld.%09ld %lu\"", n, h, g, st.st_mode, st.st_uid, st.st_gid, (unsigned long)st.st_ino, (long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec, (unsigned long)st.st_nlink); free(p); }
    else if (!strcmp(o, "memfail")) { iv_memfail(N(1), N(2)); rc = 0; }
    else if (!strcmp(o, "chdir")) { char *p = S(1); rc = chdir(p); free(p); }
    else if (!strcmp(o, "heapfill")) { iv_fill(N(1)); rc = 0; }
    else if (!strcmp(o, "stdin")) { if (!N(1)) close(0); else if (fcntl(0, F_GETFD) < 0) open("/dev/null", O_RDONLY); rc = 0; }
    else if (!strcmp(o, "umask")) { umask(N(1)); rc = 0; }
    else if (!strcmp(o, "setlocale")) { char *p = S(1); rc = setlocale(LC_ALL, p) != NULL; free(p); }
    else if (!strcmp(o, "setenv")) { char *p = S(1), *q = S(2); rc = setenv(p, q, 1); free(p); free(q); }
    else if (!strcmp(o, "fsize")) { struct rlimit r = { N(1), RLIM_INFINITY }; if (N(1) < 0) r.rlim_cur = RLIM_INFINITY; signal(SIGXFSZ, SIG_IGN); rc = setrlimit(RLIMIT_FSIZE, &r); }
    else if (!strcmp(o, "uid")) { rc = setgid(N(1)); rc |= setuid(N(1)); }
    else fprintf(out, ",\"bad\":1");
    if (timed) fprintf(out, ",\"fd\":%d,\"live\":%ld,\"liveb\":%ld,\"calls\":%ld,\"mcalls\":%ld,\"injected\":%ld", f1 - f0, l1 - l0, b1 - b0, iv_calls(), iv_mem_calls(), iv_injected());
    if (timed && f1 != f0) { fprintf(out, ",\"fds\":"); hexout(out, fds); }
    if (timed && iv_trace_json()[0]) fprintf(out, ",\"trace\":[%s]", iv_trace_json());
    fprintf(out, ",\"rc\":%ld}\n", rc);
    fflush(out);
}

/* prelink -o OUT -u FILE: FILE ends with what it was and that one's length (8 bytes, big endian) */
static int prelink(int argc, char **argv)
{
    FILE *f, *g; unsigned char b[8]; long n = 0; int c;
    if (argc != 5 || strcmp(argv[1], "-o") || strcmp(argv[3], "-u") || !(f = fopen(argv[4], "rb"))) _exit(1);
    if (fseek(f, -8, SEEK_END) || fread(b, 1, 8, f) != 8) _exit(1);
    for (int i = 0; i < 8; i++) n = n << 8 | b[i];
    if (n < 0 || n + 8 > ftell(f) || fseek(f, -8 - n, SEEK_END) || !(g = fopen(argv[2], "wb"))) _exit(1);
    while (n-- > 0 && (c = fgetc(f)) != EOF) fputc(c, g);
    fflush(g); _exit(0);
}

int main(int argc, char **argv)
{
    if (!strcmp(argv[0], "prelink")) return prelink(argc, argv);
    char *line = NULL; size_t cap = 0; ssize_t n;
    char **ops = NULL; int nops = 0, aops = 0; long timeout = 60;
    out = stdout;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!strncmp(line, "BEGIN", 5)) { timeout = atol(line + 5); nops = 0; continue; }
        if (!strcmp(line, "END")) {
            pid_t pid; int st;
            fflush(stdout);
            if ((pid = fork()) == 0) {
                struct rlimit nocore = {0, 0};
                setrlimit(RLIMIT_CORE, &nocore);
                setpgid(0, 0);
                alarm(timeout);
                for (int i = 0; i < nops; i++) run_op(i, ops[i]);
                fflush(stdout);
                _exit(0);
            }
            waitpid(pid, &st, 0);
            kill(-pid, SIGKILL);
            printf("\nX %d %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
            fflush(stdout);
            for (int i = 0; i < nops; i++) free(ops[i]);
            nops = 0;
            continue;
        }
        if (nops == aops) { aops = aops * 2 + 16; ops = realloc(ops, aops * sizeof *ops); }
        ops[nops++] = strdup(line);
    }
    return 0;
}
