/* Deterministic OpenMP runtime: real threads, one baton, seeded scheduler, vector-clock race detection. */
#define _GNU_SOURCE
#include "sim.h"
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>

void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_calloc(size_t,size_t); void *__libc_realloc(void*,size_t);

enum { ST_NONE, ST_RUN, ST_LOCK, ST_BARRIER, ST_DONE, ST_ORDERED, ST_WS };
typedef struct {
    int state; int go; pthread_t th; int created;
    void (*fn)(void*); void *data;
    void *lock; uint64_t bar_gen; unsigned ws_count; struct ws *ws; int ws_static_done; long ord_iter;
    double prio; uintptr_t stk_lo, stk_hi;
} sthread;
static sthread T[SIM_MAXT];
static int N = 1;                 /* team size */
static int cur = 0;
static int in_region = 0;
static __thread int my_tid = 0;
static __thread int nest = 0;     /* nested serial level */
static uint64_t rs_sched, rs_chunk;
static int64_t countdown = 0;
static int omp_nthreads = 0;      /* omp_set_num_threads value */
static int bar_waiting; static uint64_t bar_gen;
uintptr_t sim_region_sp;

/* ---------------------------------------------------------------- schedule record / replay */
typedef struct { uint64_t step; int tid; } sw;
static sw *replay; static size_t nreplay, ireplay; static int replaying;
static int out_fd = -1; static char outbuf[65536]; static size_t outn;
static void out_flush(void){ size_t o=0; while(o<outn){ long r=raw(SYS_write,out_fd,outbuf+o,outn-o); if(r<=0) break; o+=r; } outn=0; }
void sched_flush(void){ if(out_fd>=0) out_flush(); }
static void rec(uint64_t step, int tid){
    R->switches++;
    uint64_t h = R->sched_hash; h ^= step*0x9E3779B97F4A7C15ULL + tid; h *= 0xff51afd7ed558ccdULL; h ^= h>>33; R->sched_hash = h;
    if(out_fd<0) return;
    if(outn + 40 > sizeof outbuf) out_flush();
    char tmp[40]; int k=0; uint64_t v=step; char d[24]; int n=0; do{ d[n++]='0'+v%10; v/=10; }while(v); while(n) tmp[k++]=d[--n];
    tmp[k++]=' '; v=tid; n=0; do{ d[n++]='0'+v%10; v/=10; }while(v); while(n) tmp[k++]=d[--n]; tmp[k++]='\n';
    memcpy(outbuf+outn,tmp,k); outn+=k;
}
static void hmix(uint64_t x){ uint64_t h=R->sched_hash; h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h*=0xc4ceb9fe1a85ec53ULL; R->sched_hash=h; }

static double rnd01(void){ return (rng_next(&rs_sched)>>11) * (1.0/9007199254740992.0); }
static void draw_countdown(void){
    if(replaying){
        while(ireplay<nreplay && replay[ireplay].step <= R->steps) ireplay++;
        countdown = ireplay<nreplay ? (int64_t)(replay[ireplay].step - R->steps) : INT64_MAX;
        return;
    }
    if(K.policy==3 || K.mean==0){ countdown = INT64_MAX; return; }      /* sync-only */
    uint64_t m = K.mean;
    countdown = 1 + (int64_t)(rng_next(&rs_sched) % (2*m));
}
static uint64_t *pct_pts; static int npct;
static void pct_init(void){
    for(int i=0;i<N;i++) T[i].prio = 1.0 + rnd01();
    npct = K.pct_d; 
    if(!pct_pts) pct_pts = __libc_calloc(64,sizeof(uint64_t));
    if(npct>64) npct=64;
}
void sched_init(void){
    rs_sched = K.seed*2654435761ULL + 88172645463325252ULL; rng_next(&rs_sched);
    rs_chunk = K.seed*0x9E3779B97F4A7C15ULL + 1442695040888963407ULL; rng_next(&rs_chunk);
    T[0].state = ST_RUN; T[0].created = 1;
    if(K.sched_in){
        replaying = 1;
        int fd = (int)raw(SYS_open, K.sched_in, O_RDONLY, 0);
        if(fd>=0){
            size_t cap=1<<16,n=0; char *b=__libc_malloc(cap+1); long r;
            while((r=raw(SYS_read,fd,b+n,cap-n))>0){ n+=r; if(n==cap){ cap*=2; b=__libc_realloc(b,cap+1);} }
            b[n]=0; raw(SYS_close,fd);
            size_t lines=0; for(size_t i=0;i<n;i++) if(b[i]=='\n') lines++;
            replay=__libc_calloc(lines+1,sizeof(sw));
            char *p=b; while(*p){ char *e; uint64_t s=strtoull(p,&e,10); if(e==p) break; int t=strtol(e,&e,10); replay[nreplay].step=s; replay[nreplay++].tid=t; p=e; while(*p=='\n'||*p==' ') p++; }
            __libc_free(b);
        }
    }
    if(K.sched_out) out_fd = (int)raw(SYS_open, K.sched_out, O_WRONLY|O_CREAT|O_TRUNC, 0644);
}
bool sched_in_region(void){ return in_region; }
int sched_tid(void){ return my_tid; }

static void fwait(int *a){ while(!__atomic_load_n(a,__ATOMIC_ACQUIRE)) raw(SYS_futex,a,FUTEX_WAIT_PRIVATE,0,NULL,NULL,0); __atomic_store_n(a,0,__ATOMIC_RELAXED); }
static void fwake(int *a){ __atomic_store_n(a,1,__ATOMIC_RELEASE); raw(SYS_futex,a,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0); }

static void handoff(int me, int next, int wait){
    rec(R->steps,next); cur = next; fwake(&T[next].go);
    if(wait) fwait(&T[me].go);
}
static int runnable(int t){ return T[t].state==ST_RUN; }
static int pick(int me, int forced){
    int c[SIM_MAXT], n=0; for(int i=0;i<N;i++) if(runnable(i)) c[n++]=i;
    if(n==0) return -1;
    if(replaying){
        if(ireplay<nreplay && replay[ireplay].step==R->steps){ int t=replay[ireplay].tid; ireplay++; if(t<N && runnable(t)) return t; }
        return runnable(me)? me : c[0];
    }
    switch(K.policy){
        case 1: {   /* PCT: highest priority; the current thread drops at change points */
            if(runnable(me) && npct>0 && rnd01() < 0.15){ npct--; T[me].prio = -(double)(64-npct); }
            int b=c[0]; for(int i=1;i<n;i++) if(T[c[i]].prio > T[b].prio) b=c[i];
            return b; }
        case 2:     /* round robin */
            for(int i=1;i<=N;i++) if(runnable((me+i)%N)) return (me+i)%N;
            return c[0];
        case 4:     /* starve the master */
        case 5: {   /* starve the last worker */
            int victim = K.policy==4? 0 : N-1; int c2[SIM_MAXT], m=0; for(int i=0;i<n;i++) if(c[i]!=victim) c2[m++]=c[i];
            if(m==0) return victim;
            if(rnd01()<0.02 && runnable(victim)) return victim;
            return c2[rng_next(&rs_sched)%m]; }
        case 6:     /* keep running; on block take the highest-numbered thread */
            if(!forced && runnable(me)) return me;
            return runnable(me)&&!forced? me : c[n-1];
        default: return c[rng_next(&rs_sched)%n];
    }
}
static void deadlock(void){ R->deadlock=1; sched_flush(); sim_die(98); }

void sched_point(int forced){
    if(!in_region || sim_depth>1) return;
    R->steps++;
    if(K.maxsteps && R->steps > K.maxsteps){ R->steplimit=1; sched_flush(); sim_die(97); }
    int me = my_tid;
    int nx = pick(me,0);
    draw_countdown();
    if(nx!=me && nx>=0) handoff(me,nx,1);
    (void)forced;
}
static void block(int st){
    int me=my_tid; T[me].state = st; R->steps++;
    int nx = pick(me,1);
    if(nx<0) deadlock();
    draw_countdown();
    handoff(me,nx,1);
}
/* memory-access preemption point, called from the instrumentation */
static inline __attribute__((always_inline)) void mem_step(void){
    R->steps++;
    if(__builtin_expect(--countdown<=0,0)){
        sim_depth++;
        if(K.maxsteps && R->steps > K.maxsteps){ R->steplimit=1; sched_flush(); sim_die(97); }
        int me=my_tid; int nx=pick(me,0); draw_countdown();
        if(nx!=me && nx>=0) handoff(me,nx,1);
        sim_depth--;
    }
}

/* ---------------------------------------------------------------- work sharing */
typedef struct ws { struct ws *nxt; unsigned idx; int sched; int is_ull, up; unsigned long long next,end; long long incr; unsigned long long chunk; int ended;
                    int sections_next, sections_n; int single_taken; void *copy; long ord_next; } ws;
static ws *wslist;
enum { SC_STATIC, SC_DYNAMIC, SC_GUIDED };
static ws *ws_get(unsigned idx, int *isnew){
    for(ws *w=wslist;w;w=w->nxt) if(w->idx==idx){ *isnew=0; return w; }
    ws *w=__libc_calloc(1,sizeof *w); w->idx=idx; w->nxt=wslist; wslist=w; *isnew=1; return w;
}
static ws serial_ws_store[8];
static ws *ws_enter(int *isnew){
    if(nest || !in_region){ ws *w=&serial_ws_store[nest&7]; memset(w,0,sizeof *w); *isnew=1; T[my_tid].ws=w; return w; }
    ws *w=ws_get(T[my_tid].ws_count++, isnew); T[my_tid].ws=w; T[my_tid].ws_static_done=0; return w;
}
static int team_size(void){ return (nest||!in_region)?1:N; }
static int team_rank(void){ return (nest||!in_region)?0:my_tid; }

static void ws_setup(ws *w,int sc,int ull,int up,unsigned long long s,unsigned long long e,long long inc,unsigned long long ch){
    w->sched=sc; w->is_ull=ull; w->up=up; w->next=s; w->end=e; w->incr=inc; w->chunk=ch;
}
static unsigned long long ws_left(ws *w){ /* remaining iterations */
    if(w->is_ull){
        if(w->up){ if(w->next>=w->end) return 0; unsigned long long inc=(unsigned long long)w->incr; return (w->end-w->next+inc-1)/inc; }
        if(w->next<=w->end) return 0; unsigned long long inc=(unsigned long long)(-w->incr); return (w->next-w->end+inc-1)/inc;
    }
    long long s=(long long)w->next,e=(long long)w->end;
    if(w->incr>0) return s>=e?0:(unsigned long long)((e-s+w->incr-1)/w->incr);
    return s<=e?0:(unsigned long long)((s-e-w->incr-1)/(-w->incr));
}
static bool ws_take(unsigned long long *a, unsigned long long *b){
    sim_depth++;
    sched_point(0);
    ws *w=T[my_tid].ws; bool ok=false;
    if(w->sched==SC_STATIC){
        unsigned long long n=ws_left(w); int ts=team_size(), r=team_rank();
        if(w->chunk==0){
            if(!T[my_tid].ws_static_done){
                T[my_tid].ws_static_done=1;
                unsigned long long q=n/ts, m=n%ts, lo,len; if((unsigned long long)r<m){ len=q+1; lo=r*len; } else { len=q; lo=r*q+m; }
                if(len){ *a=w->next+lo*w->incr; *b=w->next+(lo+len)*w->incr; ok=true; }
            }
        } else {
            unsigned long long k=T[my_tid].ws_static_done++; unsigned long long lo=(k*ts+r)*w->chunk;
            if(lo<n){ unsigned long long hi=lo+w->chunk; if(hi>n) hi=n; *a=w->next+lo*w->incr; *b=w->next+hi*w->incr; ok=true; }
        }
    } else {
        unsigned long long left=ws_left(w);
        if(left){
            unsigned long long ch=w->chunk?w->chunk:1, n=ch;
            if(w->sched==SC_GUIDED){
                unsigned long long q=(left+team_size()-1)/team_size(); 
                if(q>ch) n = K.chunk==1? ch : K.chunk==2? ch + rng_next(&rs_chunk)%(q-ch+1) : q;
            }
            if(n>left) n=left;
            *a=w->next; w->next += n*(unsigned long long)w->incr; *b=w->next;
            if(n==left) { *b = *a + n*(unsigned long long)w->incr; w->next=w->end; if(w->is_ull? (w->up? *b>w->end : *b<w->end) : (w->incr>0? (long long)*b>(long long)w->end : (long long)*b<(long long)w->end)) *b=w->end; }
            ok=true;
        }
    }
    if(ok && in_region && !nest){ R->iters++; hmix(*a*31+my_tid); T[my_tid].ord_iter=(long)*a; }
    sim_depth--;
    return ok;
}
static bool loop_start(int sc,int ull,int up,unsigned long long s,unsigned long long e,long long inc,unsigned long long ch,unsigned long long *a,unsigned long long *b){
    sim_depth++; int nw; ws *w=ws_enter(&nw); if(nw) ws_setup(w,sc,ull,up,s,e,inc,ch); sim_depth--;
    return ws_take(a,b);
}
#define LOOPS(name,sc) \
bool GOMP_loop_##name##_start(long s,long e,long inc,long ch,long *a,long *b){ unsigned long long x,y; if(!loop_start(sc,0,inc>0,s,e,inc,ch,&x,&y)) return false; *a=(long)x;*b=(long)y; return true; } \
bool GOMP_loop_##name##_next(long *a,long *b){ unsigned long long x,y; if(!ws_take(&x,&y)) return false; *a=(long)x;*b=(long)y; return true; } \
bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long inc,unsigned long long ch,unsigned long long *a,unsigned long long *b){ return loop_start(sc,1,up,s,e,(long long)inc,ch,a,b); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *a,unsigned long long *b){ return ws_take(a,b); }
#define LOOPS_RT(name,sc) \
bool GOMP_loop_##name##_start(long s,long e,long inc,long *a,long *b){ unsigned long long x,y; if(!loop_start(sc,0,inc>0,s,e,inc,1,&x,&y)) return false; *a=(long)x;*b=(long)y; return true; } \
bool GOMP_loop_##name##_next(long *a,long *b){ unsigned long long x,y; if(!ws_take(&x,&y)) return false; *a=(long)x;*b=(long)y; return true; } \
bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long inc,unsigned long long *a,unsigned long long *b){ return loop_start(sc,1,up,s,e,(long long)inc,1,a,b); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *a,unsigned long long *b){ return ws_take(a,b); }
LOOPS(static,SC_STATIC) LOOPS(dynamic,SC_DYNAMIC) LOOPS(guided,SC_GUIDED)
LOOPS(nonmonotonic_dynamic,SC_DYNAMIC) LOOPS(nonmonotonic_guided,SC_GUIDED)
LOOPS(ordered_static,SC_STATIC) LOOPS(ordered_dynamic,SC_DYNAMIC) LOOPS(ordered_guided,SC_GUIDED)
LOOPS_RT(runtime,SC_DYNAMIC) LOOPS_RT(nonmonotonic_runtime,SC_DYNAMIC) LOOPS_RT(maybe_nonmonotonic_runtime,SC_DYNAMIC) LOOPS_RT(ordered_runtime,SC_DYNAMIC)

/* ---------------------------------------------------------------- regions */
void GOMP_barrier(void){
    if(nest||!in_region) return;
    sim_depth++;
    bar_waiting++;
    if(bar_waiting==N){
        bar_waiting=0; bar_gen++; race_barrier();
        for(int i=0;i<N;i++) if(T[i].state==ST_BARRIER) T[i].state=ST_RUN;
        sched_point(0);
    } else block(ST_BARRIER);
    sim_depth--;
}
bool GOMP_barrier_cancel(void){ GOMP_barrier(); return false; }
void GOMP_loop_end(void){ GOMP_barrier(); }
void GOMP_loop_end_nowait(void){ sim_depth++; sched_point(0); sim_depth--; }
bool GOMP_loop_end_cancel(void){ GOMP_barrier(); return false; }

static size_t STK = 8u<<20;
extern void sim_fill_garbage(void *p, size_t n);
static void *worker(void *a){
    int t=(int)(intptr_t)a; my_tid=t; sim_depth=1;
    for(;;){
        fwait(&T[t].go);
        sim_depth=0;
        T[t].fn(T[t].data);
        sim_depth=1;
        T[t].state=ST_DONE; R->steps++;
        int nx=pick(t,1); if(nx<0){ /* only the master can be waiting in ST_DONE for us */
            int all=1; for(int i=1;i<N;i++) if(T[i].state!=ST_DONE) all=0;
            if(all && T[0].state==ST_WS){ T[0].state=ST_RUN; nx=0; } else deadlock();
        } else { int all=1; for(int i=1;i<N;i++) if(T[i].state!=ST_DONE) all=0; if(all && T[0].state==ST_WS){ T[0].state=ST_RUN; } }
        draw_countdown();
        handoff(t,nx,0);
    }
    return NULL;
}
static void run_region(void (*fn)(void*),void *data,unsigned nreq,ws *init){
    if(in_region || nest){
        nest++; ws *save=T[my_tid].ws; 
        if(init){ ws *w=&serial_ws_store[nest&7]; *w=*init; T[my_tid].ws=w; }
        fn(data);
        T[my_tid].ws=save; nest--; return;
    }
    sim_depth++;
    int n = nreq? (int)nreq : omp_nthreads? omp_nthreads : K.nprocs;
    if(K.nthreads>0) n=K.nthreads;
    if(n>SIM_MAXT) n=SIM_MAXT;
    if(n<1) n=1;
    if(n>(int)R->maxthreads) R->maxthreads=n;
    for(ws *w=wslist;w;){ ws *x=w->nxt; __libc_free(w); w=x; } wslist=NULL;
    N=n; bar_waiting=0;
    for(int i=0;i<n;i++){ T[i].ws_count=0; T[i].ws=NULL; T[i].ws_static_done=0; T[i].state=ST_RUN; T[i].lock=NULL; }
    if(init){ int nw; ws *w=ws_get(0,&nw); ws *x=w->nxt; *w=*init; w->nxt=x; w->idx=0; for(int i=0;i<n;i++){ T[i].ws=w; T[i].ws_count=1; } }
    for(int i=1;i<n;i++){
        T[i].fn=fn; T[i].data=data;
        if(!T[i].created){
            T[i].created=1; char *stk=mmap(NULL,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
            T[i].stk_lo=(uintptr_t)stk; T[i].stk_hi=(uintptr_t)stk+STK;
            sim_fill_garbage(stk+STK-(192<<10),192<<10);
            pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,stk,STK);
            if(pthread_create(&T[i].th,&at,worker,(void*)(intptr_t)i)) { sim_die(96); }
            pthread_attr_destroy(&at);
        }
    }
    if(n>1){
        R->regions++;
        sim_region_sp=(uintptr_t)__builtin_frame_address(0);
        if(K.policy==1) pct_init();
        race_region_begin(n, sim_region_sp);
        in_region=1; cur=0; draw_countdown();
        sched_point(0);
        sim_depth--;
        fn(data);
        sim_depth++;
        int all=1; for(int i=1;i<N;i++) if(T[i].state!=ST_DONE) all=0;
        if(!all) block(ST_WS); else R->steps++;
        in_region=0; race_region_end();
        N=1; T[0].state=ST_RUN;
        sim_depth--;
    } else { sim_depth--; 
        if(init) { static ws one; one=*init; T[0].ws=&one; }
        fn(data); N=1; }
}
void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags){ (void)flags; run_region(fn,data,n,NULL); }
unsigned GOMP_parallel_reductions(void (*fn)(void*),void *data,unsigned n,unsigned flags){ (void)flags; run_region(fn,data,n,NULL); return K.nthreads>0?K.nthreads:n?n:omp_nthreads?omp_nthreads:K.nprocs; }
#define PLOOP(name,sc) void GOMP_parallel_loop_##name(void (*fn)(void*),void *data,unsigned n,long s,long e,long inc,long ch,unsigned flags){ (void)flags; ws w; memset(&w,0,sizeof w); ws_setup(&w,sc,0,inc>0,s,e,inc,ch); run_region(fn,data,n,&w); }
#define PLOOP_RT(name,sc) void GOMP_parallel_loop_##name(void (*fn)(void*),void *data,unsigned n,long s,long e,long inc,unsigned flags){ (void)flags; ws w; memset(&w,0,sizeof w); ws_setup(&w,sc,0,inc>0,s,e,inc,1); run_region(fn,data,n,&w); }
PLOOP(static,SC_STATIC) PLOOP(dynamic,SC_DYNAMIC) PLOOP(guided,SC_GUIDED) PLOOP(nonmonotonic_dynamic,SC_DYNAMIC) PLOOP(nonmonotonic_guided,SC_GUIDED)
PLOOP_RT(runtime,SC_DYNAMIC) PLOOP_RT(nonmonotonic_runtime,SC_DYNAMIC) PLOOP_RT(maybe_nonmonotonic_runtime,SC_DYNAMIC)

/* ---------------------------------------------------------------- locks */
typedef struct lk { void *key; int owner; int held; int count; uint32_t vc[SIM_MAXT]; struct lk *nxt; } lk;
static lk *locks;
static lk *lk_get(void *key){ for(lk *l=locks;l;l=l->nxt) if(l->key==key) return l; lk *l=__libc_calloc(1,sizeof *l); l->key=key; l->nxt=locks; locks=l; return l; }
static void lock_acq(void *key,int nestable){
    sim_depth++;
    lk *l=lk_get(key);
    sched_point(1);
    if(nestable && l->held && l->owner==my_tid){ l->count++; sim_depth--; return; }
    while(l->held){ T[my_tid].lock=l; if(!in_region) deadlock(); block(ST_LOCK); }
    l->held=1; l->owner=my_tid; l->count=1; R->crit_entries++; race_acquire(l->vc);
    sim_depth--;
    }
static void lock_rel(void *key,int nestable){
    sim_depth++;
    lk *l=lk_get(key);
    if(nestable && --l->count>0){ sim_depth--; return; }
    race_release(l->vc); l->held=0;
    if(in_region) for(int i=0;i<N;i++) if(T[i].state==ST_LOCK && T[i].lock==l){ T[i].state=ST_RUN; T[i].lock=NULL; }
    sched_point(1);
    sim_depth--;
}
static char k_default, k_atomic;
void GOMP_critical_start(void){ lock_acq(&k_default,0); }
void GOMP_critical_end(void){ lock_rel(&k_default,0); }
void GOMP_critical_name_start(void **p){ lock_acq(p,0); }
void GOMP_critical_name_end(void **p){ lock_rel(p,0); }
void GOMP_atomic_start(void){ lock_acq(&k_atomic,0); }
void GOMP_atomic_end(void){ lock_rel(&k_atomic,0); }
void omp_init_lock(void *l){ lk_get(l)->held=0; } void omp_destroy_lock(void *l){ (void)l; }
void omp_set_lock(void *l){ lock_acq(l,0); } void omp_unset_lock(void *l){ lock_rel(l,0); }
int omp_test_lock(void *l){ lk *k=lk_get(l); sim_depth++; sched_point(1); int ok=!k->held; if(ok){ k->held=1;k->owner=my_tid; race_acquire(k->vc);} sim_depth--; return ok; }
void omp_init_nest_lock(void *l){ lk_get(l)->held=0; } void omp_destroy_nest_lock(void *l){ (void)l; }
void omp_set_nest_lock(void *l){ lock_acq(l,1); } void omp_unset_nest_lock(void *l){ lock_rel(l,1); }
int omp_test_nest_lock(void *l){ lk *k=lk_get(l); if(k->held && k->owner!=my_tid) return 0; lock_acq(l,1); return k->count; }

/* ordered: run chunks' ordered blocks in iteration order at chunk granularity (chunk 1 assumed by the language) */
void GOMP_ordered_start(void){ lock_acq(&k_default,1); }
void GOMP_ordered_end(void){ lock_rel(&k_default,1); }

/* single / sections / tasks */
bool GOMP_single_start(void){ if(nest||!in_region) return true; sim_depth++; sched_point(0); int nw; ws_enter(&nw); sim_depth--; return nw; }
void *GOMP_single_copy_start(void){ if(nest||!in_region) return NULL; sim_depth++; sched_point(0); int nw; ws *w=ws_enter(&nw); sim_depth--; if(nw) return NULL; GOMP_barrier(); return w->copy; }
void GOMP_single_copy_end(void *d){ if(nest||!in_region) return; T[my_tid].ws->copy=d; GOMP_barrier(); }
static unsigned sec_next(void){ sim_depth++; sched_point(0); ws *w=T[my_tid].ws; unsigned r = w->sections_next<w->sections_n? ++w->sections_next : 0; hmix(r*131+my_tid); sim_depth--; return r; }
unsigned GOMP_sections_start(unsigned n){ sim_depth++; int nw; ws *w=ws_enter(&nw); if(nw){ w->sections_n=n; w->sections_next=0; } sim_depth--; return sec_next(); }
unsigned GOMP_sections_next(void){ return sec_next(); }
void GOMP_sections_end(void){ GOMP_barrier(); } void GOMP_sections_end_nowait(void){}
void GOMP_parallel_sections(void (*fn)(void*),void *data,unsigned n,unsigned count,unsigned flags){ (void)flags; ws w; memset(&w,0,sizeof w); w.sections_n=count; run_region(fn,data,n,&w); }
void GOMP_task(void (*fn)(void*),void *data,void (*cpy)(void*,void*),long sz,long al,bool ifc,unsigned fl,void **dep,int prio,void *det){
    (void)ifc;(void)fl;(void)dep;(void)prio;(void)det; sim_depth++; sched_point(0); sim_depth--;
    if(cpy){ char *b=__libc_malloc(sz+al); char *q=(char*)(((uintptr_t)b+al-1)/al*al); cpy(q,data); fn(q); __libc_free(b); } else fn(data); }
void GOMP_taskwait(void){} void GOMP_taskyield(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){}
bool GOMP_cancel(int a,bool b){ (void)a;(void)b; return false; } bool GOMP_cancellation_point(int a){ (void)a; return false; }

/* omp_* API */
int omp_get_thread_num(void){ return team_rank(); }
int omp_get_num_threads(void){ return team_size(); }
int omp_get_max_threads(void){ return K.nthreads>0? K.nthreads : omp_nthreads? omp_nthreads : K.nprocs; }
int omp_get_num_procs(void){ return K.nprocs; }
void omp_set_num_threads(int n){ if(n>0) omp_nthreads=n; }
int omp_in_parallel(void){ return in_region; }
int omp_get_level(void){ return (in_region?1:0)+nest; } int omp_get_active_level(void){ return in_region; }
void omp_set_dynamic(int x){ (void)x; } int omp_get_dynamic(void){ return 0; }
void omp_set_nested(int x){ (void)x; } int omp_get_nested(void){ return 0; }
void omp_set_max_active_levels(int x){ (void)x; } int omp_get_max_active_levels(void){ return 1; }
int omp_get_thread_limit(void){ return SIM_MAXT; } void omp_set_schedule(int a,int b){ (void)a;(void)b; } void omp_get_schedule(int *a,int *b){ *a=2;*b=1; }
double omp_get_wtime(void){ extern uint64_t sim_now_us(void); return sim_now_us()*1e-6; } double omp_get_wtick(void){ return 1e-6; }

/* ---------------------------------------------------------------- race detector */
int race_on=0;
static uint32_t VC[SIM_MAXT][SIM_MAXT];
static uint32_t gen=0;
#define PG_SHIFT 12
#define NCELL (1<<(PG_SHIFT-3))
typedef struct { uint32_t clk; uint8_t rm, wm; uint16_t g16; } acc;
typedef struct page { uintptr_t key; uint32_t gen; struct page *nxt; int cap; acc *a; uint32_t *pc; } page;
#define HB 16
static page *HT[1<<HB];
static page *pcache[64];
static page *page_get(uintptr_t a, int create){
    uintptr_t k=a>>PG_SHIFT; page *p=pcache[k&63];
    if(p && p->key==k) goto have;
    uint32_t h=(uint32_t)((k*0x9E3779B97F4A7C15ULL)>>(64-HB));
    for(p=HT[h];p;p=p->nxt) if(p->key==k) break;
    if(!p){ if(!create) return NULL; p=__libc_calloc(1,sizeof *p); p->key=k; p->nxt=HT[h]; HT[h]=p; p->gen=gen-1; }
    pcache[k&63]=p;
have:
    if(p->gen!=gen){ if(!create) return NULL; if(p->cap<N){ __libc_free(p->a); __libc_free(p->pc); p->cap=N; p->a=__libc_malloc(sizeof(acc)*NCELL*N); p->pc=__libc_malloc(sizeof(uint32_t)*NCELL*N); } memset(p->a,0,sizeof(acc)*NCELL*N); p->gen=gen; }
    return p;
}
void race_region_begin(int n,uintptr_t sp){ (void)sp; gen++; for(int i=0;i<n;i++){ memset(VC[i],0,sizeof VC[i]); VC[i][i]=1; }
    for(lk *l=locks;l;l=l->nxt) memset(l->vc,0,sizeof l->vc); race_on = K.race; }
void race_region_end(void){ race_on=0; }
void race_barrier(void){ uint32_t m[SIM_MAXT]; memset(m,0,sizeof m); for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(VC[i][j]>m[j]) m[j]=VC[i][j];
    for(int i=0;i<N;i++){ memcpy(VC[i],m,sizeof m); VC[i][i]++; } }
void race_acquire(uint32_t *vc){ if(!in_region) return; for(int j=0;j<N;j++) if(vc[j]>VC[my_tid][j]) VC[my_tid][j]=vc[j]; }
void race_release(uint32_t *vc){ if(!in_region) return; memcpy(vc,VC[my_tid],sizeof(uint32_t)*SIM_MAXT); VC[my_tid][my_tid]++; }
extern char __executable_start;
static void race_report(uintptr_t a,int t,int u,int w,int uw,uintptr_t pc,uint32_t upc){
    (void)t;(void)u;
    if(R->races==0){ R->race_pc1=pc-(uintptr_t)&__executable_start; R->race_pc2=upc; R->race_addr=a; R->race_w1=w; R->race_w2=uw; }
    R->races++;
}
static inline void cell_access(uintptr_t g, unsigned mask, int w, uintptr_t pc){
    page *p=page_get(g<<3,1); size_t c=g&(NCELL-1); acc *A=p->a+c*N; int t=my_tid;
    for(int u=0;u<N;u++){ if(u==t) continue; acc *x=A+u; if(!x->clk) continue;
        if(x->clk > VC[t][u] && ((x->wm&mask) || (w && (x->rm&mask)))) { race_report(g<<3,t,u,w,(x->wm&mask)!=0,pc,p->pc[c*N+u]); x->clk=0; } }
    acc *m=A+t; uint32_t now=VC[t][t];
    if(m->clk!=now){ m->clk=now; m->rm=m->wm=0; }
    if(w) m->wm|=mask; else m->rm|=mask;
    p->pc[c*N+t]=(uint32_t)(pc-(uintptr_t)&__executable_start);
}
void race_access(uintptr_t a,size_t n,int w,uintptr_t pc){
    if(!race_on || n==0) return;
    /* private stack: frames of this thread newer than the region */
    int t=my_tid;
    if(t==0){ if(a<sim_region_sp && a>sim_region_sp-(64u<<20) && a >= (uintptr_t)__builtin_frame_address(0)-4096) return; }
    else if(a>=T[t].stk_lo && a<T[t].stk_hi) return;
    uintptr_t e=a+n;
    while(a<e){ uintptr_t g=a>>3; unsigned lo=a&7, hi=(e-(g<<3))>8?8:(unsigned)(e-(g<<3)); cell_access(g,((1u<<hi)-1)&~((1u<<lo)-1),w,pc); a=(g+1)<<3; }
}
void race_forget(const void *p,size_t n){
    if(!race_on || !p || !n) return;
    uintptr_t a=(uintptr_t)p, e=a+n;
    for(uintptr_t g=a>>3; g<=(e-1)>>3; g++){ page *pg=page_get(g<<3,0); if(!pg){ g |= (NCELL-1); continue; } memset(pg->a+(g&(NCELL-1))*N,0,sizeof(acc)*N); }
}

/* ---------------------------------------------------------------- instrumentation entry points */
#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(a,n,w) do{ if(__builtin_expect(in_region,0) && !sim_depth){ race_access((uintptr_t)(a),n,w,PC); mem_step(); } }while(0)
void __tsan_init(void){} void __tsan_func_entry(void *p){ (void)p; } void __tsan_func_exit(void){}
#define D(n) \
void __tsan_read##n(void *a){ ACC(a,n,0); } void __tsan_write##n(void *a){ ACC(a,n,1); } \
void __tsan_read_write##n(void *a){ ACC(a,n,0); ACC(a,n,1); } \
void __tsan_unaligned_read##n(void *a){ ACC(a,n,0); } void __tsan_unaligned_write##n(void *a){ ACC(a,n,1); } \
void __tsan_volatile_read##n(void *a){ ACC(a,n,0); } void __tsan_volatile_write##n(void *a){ ACC(a,n,1); }
D(1) D(2) D(4) D(8) D(16)
void __tsan_read_range(void *a,unsigned long n){ ACC(a,n,0); }
void __tsan_write_range(void *a,unsigned long n){ ACC(a,n,1); }
void __tsan_vptr_update(void **a,void *v){ (void)a;(void)v; } void __tsan_vptr_read(void **a){ (void)a; }
/* atomics: sequentially consistent, synchronising through the address */
static char at_keys[1]; 
static lk *at_lk(void *a){ return lk_get((void*)((uintptr_t)a ^ 1)); }
static void at_begin(void *a){ (void)at_keys; if(in_region && !sim_depth){ sim_depth++; sched_point(1); lk *l=at_lk(a); race_acquire(l->vc); race_release(l->vc); sim_depth--; } }
#define AT(b,T_) \
T_ __tsan_atomic##b##_load(const volatile T_ *a,int mo){ (void)mo; at_begin((void*)a); return *a; } \
void __tsan_atomic##b##_store(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); *a=v; } \
T_ __tsan_atomic##b##_exchange(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=v; return o; } \
T_ __tsan_atomic##b##_fetch_add(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=o+v; return o; } \
T_ __tsan_atomic##b##_fetch_sub(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=o-v; return o; } \
T_ __tsan_atomic##b##_fetch_and(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=o&v; return o; } \
T_ __tsan_atomic##b##_fetch_or(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=o|v; return o; } \
T_ __tsan_atomic##b##_fetch_xor(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=o^v; return o; } \
T_ __tsan_atomic##b##_fetch_nand(volatile T_ *a,T_ v,int mo){ (void)mo; at_begin((void*)a); T_ o=*a; *a=~(o&v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T_ *a,T_ *c,T_ v,int mo,int f){ (void)mo;(void)f; at_begin((void*)a); if(*a==*c){ *a=v; return 1; } *c=*a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T_ *a,T_ *c,T_ v,int mo,int f){ (void)mo;(void)f; at_begin((void*)a); if(*a==*c){ *a=v; return 1; } *c=*a; return 0; } \
T_ __tsan_atomic##b##_compare_exchange_val(volatile T_ *a,T_ c,T_ v,int mo,int f){ (void)mo;(void)f; at_begin((void*)a); T_ o=*a; if(o==c) *a=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int mo){ (void)mo; } void __tsan_atomic_signal_fence(int mo){ (void)mo; }

/* memory functions called by the program under test (symbols redefined in its objects) */
void *sim_memcpy(void *d,const void *s,size_t n){ if(in_region && !sim_depth){ race_access((uintptr_t)s,n,0,PC); race_access((uintptr_t)d,n,1,PC); mem_step(); } return memcpy(d,s,n); }
void *sim_memmove(void *d,const void *s,size_t n){ if(in_region && !sim_depth){ race_access((uintptr_t)s,n,0,PC); race_access((uintptr_t)d,n,1,PC); mem_step(); } return memmove(d,s,n); }
void *sim_memset(void *d,int c,size_t n){ if(in_region && !sim_depth){ race_access((uintptr_t)d,n,1,PC); mem_step(); } return memset(d,c,n); }
/* library calls with hidden shared state: model that state as one word */
static uint64_t hid_strtok, hid_fftw, hid_time, hid_rand;
static uint64_t hid_nc;
static void hidden(uint64_t *w,uintptr_t pc){ if(in_region && !sim_depth){ race_access((uintptr_t)w,8,1,pc); mem_step(); } }
char *sim_strtok(char *s,const char *d){ hidden(&hid_strtok,PC); char *r=strtok(s,d); hidden(&hid_strtok,PC); return r; }
void sim_hidden_fftw(void){ hidden(&hid_fftw,PC); } void sim_hidden_nc(void){ hidden(&hid_nc,PC); } void sim_hidden_time(void){ hidden(&hid_time,PC); }
int sim_rand(void){ hidden(&hid_rand,PC); return rand(); }
