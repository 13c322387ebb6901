/* Calls of the shared library's Python-facing functions, from one or several threads.
 * Reads the file named on the command line:
 *   P n            a phase: n caller threads (1: no concurrency)
 *   T t            the following calls belong to thread t of the phase
 *   H n            results are read and released n calls later in the same thread (99: by the main thread after the phase)
 *   travt path depsrc deprcv k r1..rk | trap dt t1 t2 t3 | parab dt t | ricker dt f0 | lamb nu az k t1..tk | copy from to
 * and prints every result as bit patterns, in the order of the file. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

double *grt_compute_travt1d_from_file(const char *, const double, const double, const double *, const size_t);
float *grt_get_trap_wave(float, float *, float *, float *, int *);
float *grt_get_parabola_wave(float, float *, int *);
float *grt_get_ricker_wave(float, float, int *);
void grt_solve_lamb1(const double, const double *, const int, const double, double (*)[3][3]);
void grt_free1d(void *);

typedef struct { int phase, thread; char kind[8]; char path[300], path2[300]; double a[4]; int k; double *v; void *held; size_t nheld; unsigned char *res; size_t nres; int null; } call;
static call *C; static int NC;
static int NPH, PT[256], HOLD;

static void keep(call *c, const void *p, size_t n){ c->res = realloc(c->res, c->nres + n + 1); memcpy(c->res + c->nres, p, n); c->nres += n; }
static void copyfile(const char *a, const char *b){ FILE *f = fopen(a, "rb"), *g = fopen(b, "wb"); int ch; if(!f || !g) exit(4); while((ch = fgetc(f)) != EOF) fputc(ch, g); fclose(f); fclose(g); }
static void run(call *c)
{
    int n = 0; float *w = NULL;
    if(!strcmp(c->kind, "travt")){
        double *o = grt_compute_travt1d_from_file(c->path, c->a[0], c->a[1], c->v, c->k);
        if(!o){ c->null = 1; return; } keep(c, c->v, sizeof(double) * c->k); c->held = o; c->nheld = sizeof(double) * 2 * c->k; return;
    }
    if(!strcmp(c->kind, "lamb")){
        double (*u)[3][3] = calloc(c->k, sizeof *u); grt_solve_lamb1(c->a[0], c->v, c->k, c->a[1], u); keep(c, u, sizeof(*u) * c->k); free(u); keep(c, c->v, sizeof(double) * c->k); return;
    }
    if(!strcmp(c->kind, "copy")){ copyfile(c->path, c->path2); return; }
    float t1 = c->a[1], t2 = c->a[2], t3 = c->a[3];
    if(!strcmp(c->kind, "trap")) w = grt_get_trap_wave((float)c->a[0], &t1, &t2, &t3, &n);
    else if(!strcmp(c->kind, "parab")) w = grt_get_parabola_wave((float)c->a[0], &t1, &n);
    else w = grt_get_ricker_wave((float)c->a[0], t1, &n);
    keep(c, &n, sizeof n); keep(c, &t1, 4); keep(c, &t2, 4); keep(c, &t3, 4);
    if(!w){ c->null = 1; return; } c->held = w; c->nheld = sizeof(float) * n;
}
static void settle(call *c){ if(!c->held) return; keep(c, c->held, c->nheld); grt_free1d(c->held); c->held = NULL; }
static void run_all(int p, int t)
{
    call *q[100]; int n = 0;
    for(int i = 0; i < NC; ++i) if(C[i].phase == p && (t < 0 || C[i].thread == t)){
        run(C + i); if(HOLD == 99) continue;
        q[n++] = C + i; if(n > HOLD){ settle(q[0]); memmove(q, q + 1, sizeof(*q) * --n); }
    }
    while(n) settle(q[--n]);
}
int sim_lib_main(int argc, char **argv)
{
    FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL; if(!f) return 3;
    char w[300]; int ph = -1, th = 0;
    C = calloc(4096, sizeof *C);
    while(fscanf(f, "%299s", w) == 1){
        if(!strcmp(w, "P")){ ph++; NPH = ph + 1; th = 0; if(fscanf(f, "%d", &PT[ph]) != 1) return 3; continue; }
        if(!strcmp(w, "H")){ if(fscanf(f, "%d", &HOLD) != 1) return 3; continue; }
        if(!strcmp(w, "T")){ if(fscanf(f, "%d", &th) != 1) return 3; continue; }
        call *c = C + NC++; c->phase = ph; c->thread = th; strncpy(c->kind, w, 7);
        if(!strcmp(w, "travt")){ if(fscanf(f, "%299s %lf %lf %d", c->path, c->a, c->a + 1, &c->k) != 4) return 3; }
        else if(!strcmp(w, "trap")){ if(fscanf(f, "%lf %lf %lf %lf", c->a, c->a + 1, c->a + 2, c->a + 3) != 4) return 3; }
        else if(!strcmp(w, "parab") || !strcmp(w, "ricker")){ if(fscanf(f, "%lf %lf", c->a, c->a + 1) != 2) return 3; }
        else if(!strcmp(w, "lamb")){ if(fscanf(f, "%lf %lf %d", c->a, c->a + 1, &c->k) != 3) return 3; }
        else if(!strcmp(w, "copy")){ if(fscanf(f, "%299s %299s", c->path, c->path2) != 2) return 3; }
        else return 3;
        if(c->k){ c->v = calloc(c->k, sizeof(double)); for(int i = 0; i < c->k; ++i) if(fscanf(f, "%lf", c->v + i) != 1) return 3; }
    }
    fclose(f);
    for(int p = 0; p < NPH; ++p){
        int nt = PT[p];
        if(nt <= 1) run_all(p, -1);
        else
        #pragma omp parallel num_threads(nt)
        {
            extern int omp_get_thread_num(void);
            int me = omp_get_thread_num();
            run_all(p, me);
        }
        for(int i = 0; i < NC; ++i) if(C[i].phase == p) settle(C + i);
    }
    for(int i = 0; i < NC; ++i){
        printf("@%d %s", i, C[i].null ? "null" : "");
        for(size_t j = 0; j < C[i].nres; ++j) printf("%02x", C[i].res[j]);
        printf("\n");
    }
    return 0;
}
