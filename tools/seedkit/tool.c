/* Runs drpm calls given on the command line, separated by "+", in one process; prints one line per call. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <unistd.h>
#include <locale.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "drpm.h"
static drpm_make_options *O[4];
static drpm *D[4];
static int nfd(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static const char *nul(const char *s) { return strcmp(s, "-") ? s : NULL; }
static int call(int n, char **a)
{
#define I(k) atoi(a[k])
#define IS(s) (!strcmp(a[0], s))
    if (IS("make")) return drpm_make(nul(a[1]), nul(a[2]), nul(a[3]), n > 4 ? O[I(4)] : NULL);
    if (IS("apply")) return drpm_apply(nul(a[1]), nul(a[2]), nul(a[3]));
    if (IS("check")) return drpm_check(nul(a[1]), I(2));
    if (IS("checkseq")) return drpm_check_sequence(nul(a[1]), nul(a[2]), I(3));
    if (IS("oinit")) return drpm_make_options_init(&O[I(1)]);
    if (IS("odestroy")) return drpm_make_options_destroy(&O[I(1)]);
    if (IS("odefaults")) return drpm_make_options_defaults(O[I(1)]);
    if (IS("ocopy")) return drpm_make_options_copy(O[I(1)], O[I(2)]);
    if (IS("otype")) return drpm_make_options_set_type(O[I(1)], I(2));
    if (IS("over")) return drpm_make_options_set_version(O[I(1)], I(2));
    if (IS("ocomp")) return drpm_make_options_set_delta_comp(O[I(1)], I(2), I(3));
    if (IS("orpm")) return drpm_make_options_get_delta_comp_from_rpm(O[I(1)]);
    if (IS("oforbid")) return drpm_make_options_forbid_addblk(O[I(1)]);
    if (IS("oaddblk")) return drpm_make_options_set_addblk_comp(O[I(1)], I(2), I(3));
    if (IS("oseq")) return drpm_make_options_set_seqfile(O[I(1)], nul(a[2]));
    if (IS("read")) return drpm_read(&D[I(1)], nul(a[2]));
    if (IS("rdestroy")) return drpm_destroy(&D[I(1)]);
    if (IS("str")) { char *s = NULL; int rc = drpm_get_string(D[I(1)], I(2), &s); if (!rc) { printf("%s ", s ? s : "NULL"); free(s); } return rc; }
    if (IS("num")) { unsigned v = 0; int rc = drpm_get_uint(D[I(1)], I(2), &v); if (!rc) printf("%u ", v); return rc; }
    if (IS("num64")) { unsigned long long v = 0; int rc = drpm_get_ullong(D[I(1)], I(2), &v); if (!rc) printf("%llu ", v); return rc; }
    if (IS("arr")) { unsigned long *v = NULL; unsigned long k = 0; int rc = drpm_get_ulong_array(D[I(1)], I(2), &v, &k); if (!rc) { printf("%lu:", k); for (unsigned long i = 0; i < k; i++) printf("%lu,", v[i]); printf(" "); } if (!rc && n > 3) memset(v, 0xa5, k * sizeof *v); free(v); return rc; }
    if (IS("fds")) return nfd();
    if (IS("mem")) { malloc_trim(0); return (int)(mallinfo2().uordblks / 1024); }
    if (IS("umask")) return umask(strtol(a[1], 0, 8)), 0;
    if (IS("chdir")) return chdir(a[1]);
    if (IS("locale")) return setlocale(LC_ALL, a[1]) == NULL;
    if (IS("fsize")) { struct rlimit r = { atol(a[1]), atol(a[1]) }; signal(SIGXFSZ, SIG_IGN); return setrlimit(RLIMIT_FSIZE, &r); }
    if (IS("nofile")) { struct rlimit r = { I(1), I(1) }; return setrlimit(RLIMIT_NOFILE, &r); }
    fprintf(stderr, "what is %s?\n", a[0]);
    exit(99);
}
int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (int i = 1; i < argc; ) {
        int j = i;
        while (j < argc && strcmp(argv[j], "+")) j++;
        printf("%d\n", call(j - i, argv + i));
        i = j + 1;
    }
    return 0;
}
