/* Stands between compiled qmeq code and LAPACK: calls pass through until one is told to fail. */
#define _GNU_SOURCE
#include <math.h>
#include <stddef.h>
typedef void (*gesv_t)(int*, int*, double*, int*, int*, double*, int*, int*);
typedef void (*gelsd_t)(int*, int*, int*, double*, int*, double*, int*, double*, double*, int*, double*, int*, int*, int*);

gesv_t real_gesv;
gelsd_t real_gelsd;
long calls;              /* solves seen, workspace queries not counted */
long fail_from = -1, fail_to = -1;   /* calls [from, to) fail */
long failed;
int fail_how;            /* 0: solution computed, then reported as failed; 1: garbage and failure; 2: nothing done */
int fail_info = 1;

static void fail(double *b, int n, int nrhs, int ldb, int *info)
{
    failed++;
    if (fail_how == 1)
        for (int j = 0; j < nrhs; j++)
            for (int i = 0; i < n; i++)
                b[i+(size_t)j*ldb] = (i % 3 == 0) ? NAN : 1e300*(i % 2 ? 1 : -1);
    *info = fail_info;
}

static int due(void)
{
    long k = calls++;
    return fail_from >= 0 && k >= fail_from && k < fail_to;
}

void shim_gesv(int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info)
{
    int bad = due();
    if (!bad || fail_how == 0)
        real_gesv(n, nrhs, a, lda, ipiv, b, ldb, info);
    if (bad)
        fail(b, *n, *nrhs, *ldb, info);
}

void shim_gelsd(int *m, int *n, int *nrhs, double *a, int *lda, double *b, int *ldb, double *s, double *rcond, int *rank,
                double *work, int *lwork, int *iwork, int *info)
{
    int bad = *lwork == -1 ? 0 : due();
    if (!bad || fail_how == 0)
        real_gelsd(m, n, nrhs, a, lda, b, ldb, s, rcond, rank, work, lwork, iwork, info);
    if (bad)
        fail(b, *ldb, *nrhs, *ldb, info);
}

/* Fills the unused part of the stack below the caller. */
__attribute__((noinline)) void sim_stack(int byte, long n)
{
    volatile char *p = __builtin_alloca(n);
    long i;
    for (i = 0; i < n; i++)
        p[i] = (char)byte;
}

/* malloc as compiled qmeq code sees it: one call can be made to fail. */
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

long malloc_calls, malloc_fail_at = -1, malloc_failed;

static void *shim_malloc(size_t n)
{
    long k = malloc_calls++;
    if (k == malloc_fail_at) {
        malloc_failed++;
        errno = ENOMEM;
        return NULL;
    }
    return malloc(n);
}

static int patch(struct dl_phdr_info *info, size_t size, void *part)
{
    const ElfW(Dyn) *d = NULL;
    const ElfW(Rela) *tab[2] = {NULL, NULL};
    size_t len[2] = {0, 0};
    const ElfW(Sym) *sym = NULL;
    const char *str = NULL;
    (void)size;
    if (!info->dlpi_name || !strstr(info->dlpi_name, (const char *)part))
        return 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_DYNAMIC)
            d = (const ElfW(Dyn) *)(info->dlpi_addr+info->dlpi_phdr[i].p_vaddr);
    for (; d && d->d_tag != DT_NULL; d++) {
        if (d->d_tag == DT_JMPREL) tab[0] = (const ElfW(Rela) *)d->d_un.d_ptr;
        if (d->d_tag == DT_PLTRELSZ) len[0] = d->d_un.d_val/sizeof(ElfW(Rela));
        if (d->d_tag == DT_RELA) tab[1] = (const ElfW(Rela) *)d->d_un.d_ptr;
        if (d->d_tag == DT_RELASZ) len[1] = d->d_un.d_val/sizeof(ElfW(Rela));
        if (d->d_tag == DT_SYMTAB) sym = (const ElfW(Sym) *)d->d_un.d_ptr;
        if (d->d_tag == DT_STRTAB) str = (const char *)d->d_un.d_ptr;
    }
    int n = 0;
    for (int t = 0; t < 2 && sym && str; t++)
        for (size_t i = 0; tab[t] && i < len[t]; i++) {
            unsigned long k = ELF64_R_SYM(tab[t][i].r_info), type = ELF64_R_TYPE(tab[t][i].r_info);
            if ((type == R_X86_64_JUMP_SLOT || type == R_X86_64_GLOB_DAT) && !strcmp(str+sym[k].st_name, "malloc")) {
                void **slot = (void **)(info->dlpi_addr+tab[t][i].r_offset);
                uintptr_t page = (uintptr_t)slot & ~(uintptr_t)(sysconf(_SC_PAGESIZE)-1);
                mprotect((void *)page, sysconf(_SC_PAGESIZE), PROT_READ|PROT_WRITE);
                *slot = (void *)shim_malloc;
                n++;
            }
        }
    return n;
}

/* Puts shim_malloc in the place of malloc in the loaded library whose path contains `part`. */
int shim_patch_malloc(const char *part)
{
    return dl_iterate_phdr(patch, (void *)part);
}
