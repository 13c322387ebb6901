/* Simulated environment: disk operations, clock, allocator, process death. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <limits.h>
#include <malloc.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <setjmp.h>
#include <sys/file.h>
#include <sys/uio.h>

void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_calloc(size_t,size_t); void *__libc_realloc(void*,size_t); void *__libc_memalign(size_t,size_t);

static sim_report Rdummy; sim_report *R=&Rdummy;
sim_conf K; sim_fault *FA; int NFA; int sim_active=0; __thread int sim_depth=0;
extern void sched_flush(void);
extern int grt_real_main(int,char**);

uint64_t rng_next(uint64_t *s){ uint64_t z=(*s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
/* raw system call: returns -errno on failure, never touches errno */
long raw(long n,...){
    va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
    long ret; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
    __asm__ volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
    return ret;
}
void sim_die(int code){ sched_flush(); raw(SYS_exit_group,(long)code); for(;;); }
static void crash(void){ sched_flush(); if(K.sigkill) raw(SYS_kill,raw(SYS_getpid),(long)SIGKILL); raw(SYS_exit_group,137L); for(;;); }

/* ---------------------------------------------------------------- configuration */
static char *dupz(const char *s){ size_t n=strlen(s)+1; char *p=__libc_malloc(n); memcpy(p,s,n); return p; }
static int trace_fd=-1; static char rootbuf[PATH_MAX]; static size_t rootlen;
static int eqk(char *l,const char *k,char **v){ size_t n=strlen(k); if(strncmp(l,k,n)==0 && l[n]=='='){ *v=l+n+1; return 1; } return 0; }
static void conf_line(char *l){
    char *v;
    if(eqk(l,"seed",&v)) K.seed=strtoull(v,0,10);
    else if(eqk(l,"nthreads",&v)) K.nthreads=atoi(v);
    else if(eqk(l,"nprocs",&v)) K.nprocs=atoi(v);
    else if(eqk(l,"policy",&v)) K.policy=atoi(v);
    else if(eqk(l,"mean",&v)) K.mean=strtoull(v,0,10);
    else if(eqk(l,"pct_d",&v)) K.pct_d=atoi(v);
    else if(eqk(l,"chunk",&v)) K.chunk=atoi(v);
    else if(eqk(l,"race",&v)) K.race=atoi(v);
    else if(eqk(l,"garbage",&v)) K.garbage=strtoll(v,0,10);
    else if(eqk(l,"clock",&v)) K.clock=atoi(v);
    else if(eqk(l,"dirseed",&v)) K.dirseed=strtoull(v,0,10);
    else if(eqk(l,"maxsteps",&v)) K.maxsteps=strtoull(v,0,10);
    else if(eqk(l,"maxops",&v)) K.maxops=strtoull(v,0,10);
    else if(eqk(l,"root",&v)) K.root=dupz(v);
    else if(eqk(l,"sched_in",&v)) K.sched_in=dupz(v);
    else if(eqk(l,"sched_out",&v)) K.sched_out=dupz(v);
    else if(eqk(l,"optrace",&v)) K.optrace=dupz(v);
    else if(eqk(l,"report",&v)) K.report=dupz(v);
    else if(eqk(l,"alloc_fail",&v)) K.alloc_fail=strtoll(v,0,10);
    else if(eqk(l,"alloc_mode",&v)) K.alloc_mode=atoi(v);
    else if(eqk(l,"alloc_trace",&v)) K.alloc_trace=atoi(v);
    else if(eqk(l,"alloc_min",&v)) K.alloc_min=strtoull(v,0,10);
    else if(eqk(l,"rvz_req",&v)) K.rvz_req=atoi(v);
    else if(eqk(l,"rvz_grant",&v)) K.rvz_grant=atoi(v);
    else if(eqk(l,"sigkill",&v)) K.sigkill=atoi(v);
    else if(eqk(l,"fault",&v)){
        FA=__libc_realloc(FA,sizeof(sim_fault)*(NFA+1)); sim_fault *f=FA+NFA++; char *e=v;
        f->op=strtoull(e,&e,10); f->kind=strtol(e,&e,10); f->arg=strtoll(e,&e,10); f->arg2=strtoll(e,&e,10);
    }
}
static void conf_load(void){
    K.nprocs=4; K.mean=0; K.policy=3; K.garbage=-1; K.alloc_fail=-1; K.rvz_req=K.rvz_grant=-1; K.pct_d=3;
    const char *p=getenv("GRTSIM_CONF");
    if(p){ int fd=(int)raw(SYS_open,p,(long)O_RDONLY,0L); if(fd>=0){ size_t cap=1<<16; char *b=__libc_malloc(cap+1); size_t n=0; long r; while((r=raw(SYS_read,(long)fd,b+n,cap-n))>0){ n+=r; if(n==cap){ cap*=2; b=__libc_realloc(b,cap+1);} } b[n]=0; raw(SYS_close,(long)fd);
        for(char *l=b;*l;){ char *e=strchr(l,'\n'); if(e) *e=0; conf_line(l); if(!e) break; l=e+1; } __libc_free(b);} }
    if(K.root){ if(!realpath(K.root,rootbuf)) strcpy(rootbuf,K.root); } else if(!getcwd(rootbuf,sizeof rootbuf)) strcpy(rootbuf,"/nonexistent");
    rootlen=strlen(rootbuf);
    if(K.optrace) trace_fd=(int)raw(SYS_open,K.optrace,(long)(O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC),0644L);
    if(K.report){ int fd=(int)raw(SYS_open,K.report,(long)(O_RDWR|O_CREAT|O_TRUNC|O_CLOEXEC),0644L); if(fd>=0){ raw(SYS_ftruncate,(long)fd,(long)sizeof(sim_report)); void *m=mmap(NULL,sizeof(sim_report),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m!=MAP_FAILED) R=m; raw(SYS_close,(long)fd); } }
    R->magic=0x47525453494d3031ULL;
}

/* ---------------------------------------------------------------- garbage memory */
static uint64_t gs;
void sim_fill_garbage(void *p,size_t n){
    if(K.garbage<0) return;
    if(K.garbage==0){ memset(p,0,n); return; }
    uint64_t *q=p; size_t w=n/8; uint64_t x=rng_next(&gs); int mode=x&7;
    static const double dv[8]={1.0,-3.5e7,1e300,0.0/0.0,2.5e-3,-1.0,7e15,1e-200};
    for(size_t i=0;i<w;i++){
        uint64_t v; if((i&7)==0) x=rng_next(&gs);
        switch(mode){ case 0: v=0xFFFFFFFFFFFFFFFFULL; break; case 1: memcpy(&v,&dv[(x>>(i&31))&7],8); break; case 2: v=(x>>(i&15))&0xff; break; case 3: v=0x7ff8000000000001ULL; break; case 4: v=0x4040404041414141ULL; break; default: v=x^(i*0x9E3779B97F4A7C15ULL); }
        memcpy(q+i,&v,8);
    }
    memset((char*)p+w*8,(int)(x&0xff),n-w*8);
}
static uint64_t alloc_no;
static int alloc_fails(size_t n){
    if(!sim_active || sim_depth) return 0;
    R->allocs++; uint64_t i=alloc_no;
    if(n<K.alloc_min) return 0;
    alloc_no++;
    if(K.alloc_fail<0) return 0;
    if((int64_t)i==K.alloc_fail || (K.alloc_mode==1 && (int64_t)i>K.alloc_fail) || (K.alloc_mode==2 && (int64_t)i>=K.alloc_fail && (int64_t)i<K.alloc_fail+8)){
        /* allocations made on behalf of the NetCDF library are left alone: it ignores some of its own failures, which PyGRT cannot see; stdio recovers from a missing stream buffer by transferring single bytes, which is only slow */
        { sim_depth++; void *bt[24]; int nb=backtrace(bt,24), lib=0; for(int j=0;j<nb && j<12;j++){ Dl_info di; if(dladdr(bt[j],&di) && di.dli_fname && (strstr(di.dli_fname,"netcdf") || (di.dli_sname && !strcmp(di.dli_sname,"_IO_file_doallocate")))){ lib=1; break; } } sim_depth--; if(lib) return 0; }
        R->alloc_faults_fired++; if(K.alloc_trace && R->alloc_faults_fired<=2){ sim_depth++; void *bt[16]; int nb=backtrace(bt,16); backtrace_symbols_fd(bt,nb,2); sim_depth--; } errno=ENOMEM; return 1; }
    return 0;
}
void *malloc(size_t n){ if(alloc_fails(n)) return NULL; void *p=__libc_malloc(n); if(p && sim_active){ race_forget(p,n); sim_fill_garbage(p,n); } return p; }
void *calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return NULL; } if(alloc_fails(n)) return NULL; void *p=__libc_calloc(a,b); if(p && sim_active) race_forget(p,n); return p; }
void *realloc(void *o,size_t n){
    if(n && alloc_fails(n)) return NULL;
    if(!sim_active) return __libc_realloc(o,n);
    size_t old=o?malloc_usable_size(o):0;
    void *p=__libc_realloc(o,n);
    if(p && K.garbage>=0 && n>old) sim_fill_garbage((char*)p+old,n-old);
    if(p && p!=o){ if(n>0) race_forget(p,n); if(o) race_forget(o,old); }
    else if(p && n>old) race_forget((char*)p+old,n-old);
    return p;
}
void free(void *p){ if(p && sim_active && K.garbage>0){ size_t n=malloc_usable_size(p); race_forget(p,n); if(n<=(1u<<20)) memset(p,0xA5,n>64?64:n); } else if(p && race_on) race_forget(p,malloc_usable_size(p)); __libc_free(p); }
int posix_memalign(void **q,size_t al,size_t n){ if(alloc_fails(n)) return ENOMEM; void *p=__libc_memalign(al,n); if(!p) return ENOMEM; if(sim_active){ race_forget(p,n); sim_fill_garbage(p,n); } *q=p; return 0; }
void *memalign(size_t al,size_t n){ if(alloc_fails(n)) return NULL; void *p=__libc_memalign(al,n); if(p && sim_active){ race_forget(p,n); sim_fill_garbage(p,n); } return p; }
void *aligned_alloc(size_t al,size_t n){ return memalign(al,n); }

/* ---------------------------------------------------------------- clock */
static uint64_t clk_us=1700000000000000ULL, rs_clk=77;
uint64_t sim_now_us(void){
    R->clock_reads++;
    uint64_t x=rng_next(&rs_clk);
    switch(K.clock){
        case 0: clk_us+=1000; break;
        case 1: clk_us+=x%5000000; break;                               /* fast */
        case 2: if(x%3==0) clk_us-= (x>>8)%86400000000ULL; else clk_us+=(x>>8)%1000000; break;  /* jumps backwards */
        case 3: break;                                                  /* frozen */
        default: clk_us = (x%4==0)? 0 : (x>>20); break;                  /* wild */
    }
    R->clock_us=clk_us; return clk_us;
}
int gettimeofday(struct timeval *restrict tv,void *restrict tz){ (void)tz; if(!sim_active){ struct timespec ts; raw(SYS_clock_gettime,0L,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; } uint64_t u=sim_now_us(); tv->tv_sec=u/1000000; tv->tv_usec=u%1000000; return 0; }
time_t time(time_t *t){ if(!sim_active){ struct timespec ts; raw(SYS_clock_gettime,0L,&ts); if(t)*t=ts.tv_sec; return ts.tv_sec; } time_t v=sim_now_us()/1000000; if(t) *t=v; return v; }
int clock_gettime(clockid_t c,struct timespec *ts){ if(!sim_active){ long r=raw(SYS_clock_gettime,(long)c,ts); if(r<0){ errno=-r; return -1; } return 0; } uint64_t u=sim_now_us(); ts->tv_sec=u/1000000; ts->tv_nsec=(u%1000000)*1000; return 0; }
clock_t clock(void){ return sim_active? (clock_t)sim_now_us() : (clock_t)0; }

/* ---------------------------------------------------------------- disk operations */
/* is this path part of the simulated disk? (lexical resolution against cwd) */
static int onsim(const char *path,char *abs){
    char tmp[PATH_MAX*2]; if(!path||!*path) return 0;
    if(path[0]=='/') snprintf(tmp,sizeof tmp,"%s",path); else { char cw[PATH_MAX]; if(!getcwd(cw,sizeof cw)) return 0; snprintf(tmp,sizeof tmp,"%s/%s",cw,path); }
    char *out=abs; size_t n=0; char *p=tmp;
    while(*p){ while(*p=='/') p++; if(!*p) break; char *e=p; while(*e&&*e!='/') e++; size_t l=e-p;
        if(l==1&&p[0]=='.'){} else if(l==2&&p[0]=='.'&&p[1]=='.'){ while(n>0&&out[n-1]!='/') n--; if(n>0) n--; } else { if(n+l+2>=PATH_MAX) return 0; out[n++]='/'; memcpy(out+n,p,l); n+=l; } p=e; }
    out[n]=0; if(n==0){ out[0]='/'; out[1]=0; }
    const char *b=strrchr(abs,'/'); if(b && b[1]=='.') return 0;      /* rc files of libraries */
    return strncmp(abs,rootbuf,rootlen)==0 && (abs[rootlen]=='/'||abs[rootlen]==0);
}
static const char *rel(const char *abs){ if(strncmp(abs,rootbuf,rootlen)==0){ const char *r=abs+rootlen; while(*r=='/') r++; return r; } return abs; }
static const char *opname[OP_N]={"open_r","open_w","read","write","close_r","close_w","mkdir","opendir","readdir","stat","access","stdout","trunc","unlink","rename","fsync","seek","stdclose","lib_w","lib_r"};
static int disk_full=0; static char dead_path[PATH_MAX]; static int have_dead=0;
static void finfo(const char *what,int k,const char *path,uint64_t op){ if(R->nfault_info<8){ snprintf(R->fault_info[R->nfault_info],160,"%s@op%lu %s %s",what,(unsigned long)op,opname[k],rel(path)); } R->nfault_info++; }
typedef struct { int act; int err; size_t limit; int64_t arg; uint64_t op; } verdict;   /* act: 0 go, 1 fail(err), 2 short(limit), 3 partial then fail, 4 torn crash, 5 lose at close */
static verdict io_point(int k,const char *path,size_t n,int safe){
    verdict v; memset(&v,0,sizeof v);
    if(!sim_active){ return v; }
    uint64_t op=R->ops++; R->opcount[k]++; v.op=op;
    if(K.maxops && op>K.maxops){ R->steplimit=1; sim_die(97); }
    if(trace_fd>=0){ char b[PATH_MAX+64]; int l=snprintf(b,sizeof b,"%lu %s %zu %s\n",(unsigned long)op,opname[k],n,rel(path)); if(l>0) raw(SYS_write,(long)trace_fd,b,(long)l); }
    if(K.rvz_req>=0){ char c='R'; raw(SYS_write,(long)K.rvz_req,&c,1L); long r; do r=raw(SYS_read,(long)K.rvz_grant,&c,1L); while(r==-EINTR); if(r!=1||c=='k'){ R->faults_fired[F_CRASH]++; finfo("crash",k,path,op); crash(); } R->peer_wait++; }
    if(safe && sched_in_region()){ sched_point(1); }
    if(disk_full && (k==OP_WRITE||k==OP_OPEN_W||k==OP_MKDIR||k==OP_TRUNC) ){ v.act=1; v.err=ENOSPC; return v; }
    if(disk_full && k==OP_STDOUT){ v.act=1; v.err=ENOSPC; return v; }
    if(have_dead && strcmp(dead_path,path)==0 && k!=OP_CLOSE_R && k!=OP_CLOSE_W){ v.act=1; v.err=EIO; return v; }
    for(int i=0;i<NFA;i++) if(FA[i].op==op && FA[i].kind!=F_LIB){
        sim_fault *f=FA+i; int kk=f->kind; int fired=1;
        switch(kk){
            case F_ERR: v.act=1; v.err=(int)f->arg; if(k==OP_CLOSE_R) { v.act=0; fired=0; } break;
            case F_SHORT: if((k==OP_READ||k==OP_WRITE||k==OP_STDOUT)&&n>1){ v.act=2; v.limit= f->arg2>0? ((size_t)f->arg2<n? (size_t)f->arg2:n) : 1+(size_t)((n-1)*(f->arg%1000)/1000); } else fired=0; break;
            case F_PARTIAL_ERR: if((k==OP_WRITE||k==OP_STDOUT)&&n>0){ v.act=3; v.err=ENOSPC; v.limit=(size_t)(n*(f->arg%1000)/1000); disk_full=1; } else fired=0; break;
            case F_FULL: if(k==OP_WRITE||k==OP_OPEN_W||k==OP_MKDIR||k==OP_STDOUT||k==OP_TRUNC){ v.act=1; v.err=ENOSPC; } disk_full=1; break;
            case F_CLOSE_LOSE: if(k==OP_CLOSE_W){ v.act=5; v.err=(f->arg2?(int)f->arg2:EIO); v.arg=f->arg; } else fired=0; break;
            case F_CRASH: R->faults_fired[kk]++; finfo("crash",k,path,op); crash(); break;
            case F_TORN: if((k==OP_WRITE||k==OP_STDOUT)&&n>0){ v.act=4; v.limit=(size_t)(n*(f->arg%1000)/1000); } else { R->faults_fired[F_CRASH]++; finfo("crash",k,path,op); crash(); } break;
            case F_DEAD: v.act=1; v.err=EIO; have_dead=1; snprintf(dead_path,sizeof dead_path,"%s",path); if(k==OP_CLOSE_R||k==OP_CLOSE_W) v.act=0; break;
            case F_EINTR: v.act=0; fired=0; break;
        }
        if(fired){ R->faults_fired[kk]++; static const char *fk[]={"none","err","short","partial-enospc","full","close-lose","crash","torn","dead-file","eintr"}; char w[48]; snprintf(w,sizeof w,"%s(%d)",fk[kk],v.err); finfo(w,k,path,op); }
    }
    return v;
}
static void escape(const char *abs){ R->escapes++; if(R->escapes==1) snprintf(R->escape_path,sizeof R->escape_path,"%s",abs); }
static int allowed_outside(const char *abs){ return strncmp(abs,"/dev/",5)==0; }

/* waiting: simulated time passes at once; counts as a step, at which the process can be killed and other processes run.
   blocked: the step cannot get anywhere before another process has made one */
static void wait_point(uint64_t us,int blocked){
    uint64_t op=R->ops++; clk_us+=us;
    if(K.maxops && op>K.maxops){ R->steplimit=1; sim_die(97); }
    if(trace_fd>=0){ char b[64]; int l=snprintf(b,sizeof b,"%lu wait 0 <clock>\n",(unsigned long)op); if(l>0) raw(SYS_write,(long)trace_fd,b,(long)l); }
    if(K.rvz_req>=0){ char c=blocked?'W':'R'; raw(SYS_write,(long)K.rvz_req,&c,1L); long r; do r=raw(SYS_read,(long)K.rvz_grant,&c,1L); while(r==-EINTR); if(r!=1||c=='k'){ R->faults_fired[F_CRASH]++; crash(); } R->peer_wait++; }
    for(int i=0;i<NFA;i++) if(FA[i].op==op && (FA[i].kind==F_CRASH||FA[i].kind==F_TORN)){ R->faults_fired[F_CRASH]++; crash(); }
    if(sched_in_region()) sched_point(1);
}
int usleep(useconds_t us){ if(!sim_active){ struct timespec t={us/1000000,(us%1000000)*1000}; raw(SYS_nanosleep,&t,NULL); return 0; } wait_point(us,0); return 0; }
unsigned sleep(unsigned s){ if(!sim_active){ struct timespec t={s,0}; raw(SYS_nanosleep,&t,NULL); return 0; } wait_point((uint64_t)s*1000000,0); return 0; }
int nanosleep(const struct timespec *t,struct timespec *rem){ if(!sim_active){ long r=raw(SYS_nanosleep,t,rem); if(r<0){ errno=-r; return -1; } return 0; } wait_point((uint64_t)t->tv_sec*1000000+t->tv_nsec/1000,0); if(rem) memset(rem,0,sizeof *rem); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec *t,struct timespec *rem){ if(!sim_active) return (int)-raw(SYS_clock_nanosleep,(long)c,(long)fl,t,rem); wait_point(fl?1000:(uint64_t)t->tv_sec*1000000+t->tv_nsec/1000,0); return 0; }
int sched_yield(void){ if(sim_active && sched_in_region()) sched_point(1); return 0; }
int flock(int fd,int op){
    long r; while((r=raw(SYS_flock,(long)fd,(long)(op|LOCK_NB)))==-EWOULDBLOCK && sim_active && !(op&LOCK_NB)) wait_point(1000,1);
    if(r<0){ errno=(int)-r; return -1; } return 0;
}

/* table of descriptors on the simulated disk */
#define MAXFD 4096
static struct { int on; int w; char *path; } FT[MAXFD];
static int fd_on(int fd){ return fd>=0 && fd<MAXFD && FT[fd].on; }
static int do_open(const char *path,int flags,mode_t mode,int safe){
    char abs[PATH_MAX]; int acc=flags&O_ACCMODE; int w=(acc!=O_RDONLY)||(flags&(O_CREAT|O_TRUNC));
    int on= sim_active && onsim(path,abs);
    if(sim_active && !on && w){ if(strrchr(abs,'/') && strrchr(abs,'/')[1]!='.' && !allowed_outside(abs)){ escape(abs); errno=EACCES; return -1; } }
    if(on){ verdict v=io_point(w?OP_OPEN_W:OP_OPEN_R,abs,0,safe); if(v.act==1){ errno=v.err; return -1; } }
    long r=raw(SYS_openat,(long)AT_FDCWD,path,(long)flags,(long)mode); if(r<0){ errno=(int)-r; return -1; }
    if(on && r<MAXFD){ sim_depth++; FT[r].on=1; FT[r].w=w; FT[r].path=dupz(abs); sim_depth--; }
    return (int)r;
}
static ssize_t do_write(int fd,const void *b,size_t n,off_t off,int pw){
    if(fd_on(fd)){
        verdict v=io_point(OP_WRITE,FT[fd].path,n,0);
        if(v.act==1){ errno=v.err; return -1; }
        size_t m=n; if(v.act==2||v.act==3||v.act==4) m=v.limit;
        long r= m==0? 0 : pw? raw(SYS_pwrite64,(long)fd,b,(long)m,(long)off) : raw(SYS_write,(long)fd,b,(long)m);
        if(r>0) R->bytes_written+=r;
        if(v.act==4) crash();
        if(v.act==3 && m==0){ errno=v.err; return -1; }
        if(r<0){ errno=(int)-r; return -1; } return r;
    }
    long r= pw? raw(SYS_pwrite64,(long)fd,b,(long)n,(long)off) : raw(SYS_write,(long)fd,b,(long)n); if(r<0){ errno=(int)-r; return -1; } return r;
}
static ssize_t do_read(int fd,void *b,size_t n,off_t off,int pr){
    size_t m=n;
    if(fd_on(fd)){ verdict v=io_point(OP_READ,FT[fd].path,n,0); if(v.act==1){ errno=v.err; return -1; } if(v.act==2) m=v.limit; }
    long r= pr? raw(SYS_pread64,(long)fd,b,(long)m,(long)off) : raw(SYS_read,(long)fd,b,(long)m); if(r<0){ errno=(int)-r; return -1; } return r;
}
static int do_close(int fd){
    int err=0;
    if(fd_on(fd)){
        verdict v=io_point(FT[fd].w?OP_CLOSE_W:OP_CLOSE_R,FT[fd].path,0,0);
        if(v.act==1) err=v.err;
        if(v.act==5){ err=v.err; struct stat st; if(raw(SYS_fstat,(long)fd,&st)==0 && S_ISREG(st.st_mode)){ off_t keep=(off_t)((__int128)st.st_size*(v.arg%1000)/1000); if(raw(SYS_ftruncate,(long)fd,(long)keep)<0){ /* read-only descriptor */ } } }
        FT[fd].on=0; sim_depth++; __libc_free(FT[fd].path); FT[fd].path=NULL; sim_depth--;
    }
    long r=raw(SYS_close,(long)fd); if(err){ errno=err; return -1; } if(r<0){ errno=(int)-r; return -1; } return 0;
}
int open(const char *p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a);} return do_open(p,fl,m,1); }
int open64(const char *p,int fl,...){ mode_t m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a);} return do_open(p,fl,m,1); }
int __open_2(const char *p,int fl){ return do_open(p,fl,0,1); } int __open64_2(const char *p,int fl){ return do_open(p,fl,0,1); }
int openat(int d,const char *p,int fl,...){ mode_t m=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a);} if(d==AT_FDCWD||(p&&p[0]=='/')) return do_open(p,fl,m,1); long r=raw(SYS_openat,(long)d,p,(long)fl,(long)m); if(r<0){ errno=-r; return -1; } return (int)r; }
int creat(const char *p,mode_t m){ return do_open(p,O_WRONLY|O_CREAT|O_TRUNC,m,1); }
int creat64(const char *p,mode_t m){ return do_open(p,O_WRONLY|O_CREAT|O_TRUNC,m,1); }
static ssize_t ck_write_std1(const void *b,size_t n){ verdict v=io_point(OP_STDOUT,"<stdout>",n,0); if(v.act==1){ errno=v.err; return -1; } size_t m=n; if(v.act>=2&&v.act<=4) m=v.limit; long r=m?raw(SYS_write,1L,b,(long)m):0; if(r>0) R->stdout_bytes+=r; if(v.act==4) crash(); if(v.act==3&&m==0){ errno=v.err; return -1; } if(r<0){ errno=(int)-r; return -1; } return r; }
ssize_t write(int fd,const void *b,size_t n){ if(fd==1 && sim_active && !sim_depth) return ck_write_std1(b,n); return do_write(fd,b,n,0,0); }
ssize_t read(int fd,void *b,size_t n){ return do_read(fd,b,n,0,0); }
ssize_t __read_chk(int fd,void *b,size_t n,size_t l){ (void)l; return do_read(fd,b,n,0,0); }
ssize_t pwrite(int fd,const void *b,size_t n,off_t o){ return do_write(fd,b,n,o,1); }
ssize_t pwrite64(int fd,const void *b,size_t n,off_t o){ return do_write(fd,b,n,o,1); }
ssize_t pread(int fd,void *b,size_t n,off_t o){ return do_read(fd,b,n,o,1); }
ssize_t pread64(int fd,void *b,size_t n,off_t o){ return do_read(fd,b,n,o,1); }
int close(int fd){ return do_close(fd); }
ssize_t writev(int fd,const struct iovec *v,int n){ ssize_t t=0; for(int i=0;i<n;i++){ if(!v[i].iov_len) continue; ssize_t r=write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
static ssize_t copy_fd(int in,off_t *oi,int out,off_t *oo,size_t n){ char b[16384]; if(n>sizeof b) n=sizeof b; ssize_t r= oi? do_read(in,b,n,*oi,1) : do_read(in,b,n,0,0); if(r<=0) return r; ssize_t w= oo? do_write(out,b,r,*oo,1) : do_write(out,b,r,0,0); if(w<0) return w; if(oi) *oi+=w; else if(w<r) raw(SYS_lseek,(long)in,(long)(w-r),(long)SEEK_CUR); if(oo) *oo+=w; return w; }
ssize_t sendfile(int out,int in,off_t *o,size_t n){ return copy_fd(in,o,out,NULL,n); } ssize_t sendfile64(int out,int in,off64_t *o,size_t n){ return copy_fd(in,o,out,NULL,n); }
ssize_t copy_file_range(int in,off64_t *oi,int out,off64_t *oo,size_t n,unsigned fl){ (void)fl; return copy_fd(in,oi,out,oo,n); }
int ftruncate(int fd,off_t l){ if(fd_on(fd)){ verdict v=io_point(OP_TRUNC,FT[fd].path,0,0); if(v.act==1){ errno=v.err; return -1; } } long r=raw(SYS_ftruncate,(long)fd,(long)l); if(r<0){ errno=-r; return -1; } return 0; }
int ftruncate64(int fd,off_t l){ return ftruncate(fd,l); }
int fsync(int fd){ if(fd_on(fd)){ verdict v=io_point(OP_FSYNC,FT[fd].path,0,0); if(v.act==1){ errno=v.err; return -1; } } return 0; }
int fdatasync(int fd){ return fsync(fd); }

#define PATHOP(kind,p,call) do{ char abs[PATH_MAX]; int on=sim_active&&onsim(p,abs); if(on){ verdict v=io_point(kind,abs,0,1); if(v.act==1){ errno=v.err; return -1; } } long r=call; if(r<0){ errno=(int)-r; return -1; } return 0; }while(0)
#define MUTOP(kind,p,call) do{ char abs[PATH_MAX]; int on=sim_active&&onsim(p,abs); if(sim_active&&!on){ escape(abs); errno=EACCES; return -1; } if(on){ verdict v=io_point(kind,abs,0,1); if(v.act==1){ errno=v.err; return -1; } } long r=call; if(r<0){ errno=(int)-r; return -1; } return 0; }while(0)
int mkdir(const char *p,mode_t m){ char ab[PATH_MAX]; if(sim_active && !onsim(p,ab)){ struct stat st; if(raw(SYS_stat,p,&st)==0){ errno=EEXIST; return -1; } } MUTOP(OP_MKDIR,p,raw(SYS_mkdir,p,(long)m)); }
int access(const char *p,int m){ PATHOP(OP_ACCESS,p,raw(SYS_access,p,(long)m)); }
int stat(const char *restrict p,struct stat *restrict s){ PATHOP(OP_STAT,p,raw(SYS_stat,p,s)); }
int stat64(const char *restrict p,struct stat64 *restrict s){ PATHOP(OP_STAT,p,raw(SYS_stat,p,s)); }
int lstat(const char *restrict p,struct stat *restrict s){ PATHOP(OP_STAT,p,raw(SYS_lstat,p,s)); }
int lstat64(const char *restrict p,struct stat64 *restrict s){ PATHOP(OP_STAT,p,raw(SYS_lstat,p,s)); }
int unlink(const char *p){ MUTOP(OP_UNLINK,p,raw(SYS_unlink,p)); }
int rmdir(const char *p){ MUTOP(OP_UNLINK,p,raw(SYS_rmdir,p)); }
int remove(const char *p){ MUTOP(OP_UNLINK,p,({ long q=raw(SYS_unlink,p); if(q==-EISDIR) q=raw(SYS_rmdir,p); q; })); }
int rename(const char *p,const char *q){ char ab[PATH_MAX]; if(sim_active && !onsim(q,ab)){ escape(ab); errno=EACCES; return -1; } MUTOP(OP_RENAME,p,raw(SYS_rename,p,q)); }
int link(const char *p,const char *q){ MUTOP(OP_RENAME,q,raw(SYS_link,p,q)); }
int symlink(const char *p,const char *q){ MUTOP(OP_RENAME,q,raw(SYS_symlink,p,q)); }
int truncate(const char *p,off_t l){ MUTOP(OP_TRUNC,p,raw(SYS_truncate,p,(long)l)); }
int truncate64(const char *p,off_t l){ MUTOP(OP_TRUNC,p,raw(SYS_truncate,p,(long)l)); }
int chmod(const char *p,mode_t m){ MUTOP(OP_UNLINK,p,raw(SYS_chmod,p,(long)m)); }

/* ---------------------------------------------------------------- stdio streams over the simulated disk */
typedef struct ck { int fd; int std; FILE *fp; struct ck *nxt; } ck;
static ck *cks; static pthread_mutex_t ckm=PTHREAD_MUTEX_INITIALIZER;
static void ck_del(ck *k){ pthread_mutex_lock(&ckm); for(ck **q=&cks;*q;q=&(*q)->nxt) if(*q==k){ *q=k->nxt; break; } pthread_mutex_unlock(&ckm); __libc_free(k); }
int fileno(FILE *f){ int fd=-2; pthread_mutex_lock(&ckm); for(ck *k=cks;k;k=k->nxt) if(k->fp==f){ fd=k->fd; break; } pthread_mutex_unlock(&ckm); if(fd!=-2) return fd; fd=f->_fileno; if(fd<0){ errno=EBADF; return -1; } return fd; }
int fileno_unlocked(FILE *f){ return fileno(f); }
static ssize_t ck_write(void *c,const char *b,size_t n){
    ck *k=c; size_t done=0; sim_depth++;
    while(done<n){
        if(k->std==1){
            verdict v=io_point(OP_STDOUT,"<stdout>",n-done,0);
            if(v.act==1){ errno=v.err; break; }
            size_t m=n-done; if(v.act>=2&&v.act<=4) m=v.limit;
            long r=m?raw(SYS_write,(long)k->fd,b+done,(long)m):0; if(r>0){ done+=r; R->stdout_bytes+=r; }
            if(v.act==4) crash();
            if(r<0){ errno=(int)-r; break; } if(v.act==3){ errno=v.err; break; }
        } else if(k->std==2){ long r=raw(SYS_write,(long)k->fd,b+done,(long)(n-done)); if(r<0){ errno=(int)-r; break; } done+=r; }
        else { ssize_t r=do_write(k->fd,b+done,n-done,0,0); if(r<0) break; done+=r; }
    }
    sim_depth--; return (ssize_t)done;
}
static ssize_t ck_read(void *c,char *b,size_t n){ ck *k=c; sim_depth++; ssize_t r=do_read(k->fd,b,n,0,0); sim_depth--; return r; }
static int ck_seek(void *c,off64_t *o,int w){ ck *k=c; if(k->std) { errno=ESPIPE; return -1; } long r=raw(SYS_lseek,(long)k->fd,(long)*o,(long)w); if(r<0){ errno=(int)-r; return -1; } *o=r; return 0; }
static int ck_close(void *c){ ck *k=c; sim_depth++; int r; 
    if(k->std==1){ verdict v=io_point(OP_STDCLOSE,"<stdout>",0,0); r=0; if(v.act==1){ errno=v.err; r=-1; } }
    else if(k->std) r=0; else r=do_close(k->fd);
    int e=errno; ck_del(k); errno=e; sim_depth--; return r; }
static FILE *mk(int fd,const char *mode,int std){ ck *k=__libc_malloc(sizeof *k); k->fd=fd; k->std=std; cookie_io_functions_t f={ck_read,ck_write,ck_seek,ck_close}; FILE *fp=fopencookie(k,mode,f); if(!fp) __libc_free(k); else { if(!std) setvbuf(fp,__libc_malloc(4096),_IOFBF,4096);      /* the block size real files have */
    k->fp=fp; pthread_mutex_lock(&ckm); k->nxt=cks; cks=k; pthread_mutex_unlock(&ckm); } return fp; }
static FILE *do_fopen(const char *path,const char *mode){
    int fl; switch(mode[0]){ case 'r': fl=O_RDONLY; break; case 'w': fl=O_WRONLY|O_CREAT|O_TRUNC; break; case 'a': fl=O_WRONLY|O_CREAT|O_APPEND; break; default: errno=EINVAL; return NULL; }
    if(strchr(mode,'+')) fl=(fl&~O_ACCMODE)|O_RDWR; if(strchr(mode,'e')) fl|=O_CLOEXEC; if(strchr(mode,'x')) fl|=O_EXCL;
    char m2[4]={mode[0],strchr(mode,'+')?'+':0,0,0};
    sim_depth++; int fd=do_open(path,fl,0666,1); sim_depth--;
    if(fd<0) return NULL;
    FILE *f=mk(fd,m2,0); if(!f){ int e=errno; raw(SYS_close,(long)fd); FT[fd].on=0; errno=e; }
    return f;
}
FILE *fopen(const char *restrict p,const char *restrict m){ return do_fopen(p,m); }
FILE *fopen64(const char *restrict p,const char *restrict m){ return do_fopen(p,m); }

FILE *fdopen(int fd,const char *m){ char m2[4]={m[0],strchr(m,'+')?'+':0,0,0}; return mk(fd,m2,0); }
static uint64_t tmpno;
static int mktmp(char *t,int suf,int dir){
    size_t n=strlen(t); if(n<6u+suf||strncmp(t+n-6-suf,"XXXXXX",6)){ errno=EINVAL; return -1; }
    for(int i=0;i<100;i++){ uint64_t s=K.seed*977+K.garbage+(++tmpno); char c[8]; snprintf(c,sizeof c,"%06lx",(unsigned long)(rng_next(&s)&0xffffff)); memcpy(t+n-6-suf,c,6);
        if(dir){ if(mkdir(t,0700)==0) return 0; if(errno!=EEXIST) return -1; } else { int fd=do_open(t,O_RDWR|O_CREAT|O_EXCL,0600,1); if(fd>=0||errno!=EEXIST) return fd; } }
    errno=EEXIST; return -1;
}
int mkstemp(char *t){ return mktmp(t,0,0); } int mkstemp64(char *t){ return mktmp(t,0,0); } int mkstemps(char *t,int s){ return mktmp(t,s,0); } int mkostemp(char *t,int f){ (void)f; return mktmp(t,0,0); }
char *mkdtemp(char *t){ return mktmp(t,0,1)==0?t:NULL; }

/* ---------------------------------------------------------------- directories */
typedef struct { char abs[PATH_MAX]; int on; size_t n,i; struct dirent *e; int fd; } sdir;
static int cmpde(const void *a,const void *b){ return strcmp(((const struct dirent*)a)->d_name,((const struct dirent*)b)->d_name); }
DIR *opendir(const char *p){
    char abs[PATH_MAX]; abs[0]=0; int on=sim_active&&onsim(p,abs);
    if(on){ verdict v=io_point(OP_OPENDIR,abs,0,1); if(v.act==1){ errno=v.err; return NULL; } }
    long fd=raw(SYS_openat,(long)AT_FDCWD,p,(long)(O_RDONLY|O_DIRECTORY|O_CLOEXEC),0L); if(fd<0){ errno=(int)-fd; return NULL; }
    sdir *d=__libc_calloc(1,sizeof *d); snprintf(d->abs,sizeof d->abs,"%s",abs); d->on=on; d->fd=-1;
    char buf[32768]; long r; size_t cap=0;
    while((r=raw(SYS_getdents64,fd,buf,(long)sizeof buf))>0){ for(long o=0;o<r;){ struct { uint64_t ino; int64_t off; unsigned short rl; unsigned char ty; char nm[]; } *x=(void*)(buf+o);
        if(d->n==cap){ cap=cap?cap*2:64; d->e=__libc_realloc(d->e,cap*sizeof(struct dirent)); } struct dirent *q=d->e+d->n++; memset(q,0,sizeof *q); q->d_ino=x->ino; q->d_off=d->n; q->d_reclen=sizeof *q; q->d_type=x->ty; snprintf(q->d_name,sizeof q->d_name,"%s",x->nm); o+=x->rl; } }
    raw(SYS_close,fd);
    if(d->n) qsort(d->e,d->n,sizeof(struct dirent),cmpde);
    if(on && K.dirseed){ R->dir_scans++; uint64_t s=K.dirseed*7919+d->n; for(size_t i=d->n;i>1;i--){ size_t j=rng_next(&s)%i; struct dirent t=d->e[i-1]; d->e[i-1]=d->e[j]; d->e[j]=t; }
        for(size_t i=0;i<d->n;i++) if(K.dirseed&1) d->e[i].d_type=DT_UNKNOWN; }
    return (DIR*)d;
}
struct dirent *readdir(DIR *D_){ sdir *d=(sdir*)D_; if(d->on){ verdict v=io_point(OP_READDIR,d->abs,0,1); if(v.act==1){ errno=v.err; return NULL; } } if(d->i>=d->n) return NULL; return d->e+d->i++; }
struct dirent64 *readdir64(DIR *D_){ return (struct dirent64*)readdir(D_); }
int closedir(DIR *D_){ sdir *d=(sdir*)D_; __libc_free(d->e); __libc_free(d); return 0; }
int alphasort(const struct dirent **a,const struct dirent **b){ return strcoll((*a)->d_name,(*b)->d_name); }
int scandir(const char *restrict p,struct dirent ***restrict out,int (*sel)(const struct dirent*),int (*cmp)(const struct dirent**,const struct dirent**)){
    DIR *d=opendir(p); if(!d) return -1;
    struct dirent **l=NULL; int n=0; for(;;){ errno=0; struct dirent *e=readdir(d); if(!e) break; if(sel&&!sel(e)) continue; l=realloc(l,(n+1)*sizeof *l); l[n]=malloc(sizeof **l); memcpy(l[n++],e,sizeof *e); }
    int err=errno; closedir(d); if(err){ while(n>0) free(l[--n]); free(l); errno=err; return -1; }
    if(cmp&&n) qsort(l,n,sizeof *l,(int(*)(const void*,const void*))cmp);
    *out=l; return n;
}
void rewinddir(DIR *D_){ ((sdir*)D_)->i=0; }

/* ---------------------------------------------------------------- fftw planner has hidden shared state */
extern void sim_hidden_fftw(void);
#define FW(ret,name,args,call) ret name args; ret sim_##name args { sim_hidden_fftw(); return name call; }
FW(void*,fftw_plan_dft_c2r_1d,(int n,void*a,void*b,unsigned f),(n,a,b,f))
FW(void*,fftw_plan_dft_r2c_1d,(int n,void*a,void*b,unsigned f),(n,a,b,f))
FW(void*,fftwf_plan_dft_c2r_1d,(int n,void*a,void*b,unsigned f),(n,a,b,f))
FW(void*,fftwf_plan_dft_r2c_1d,(int n,void*a,void*b,unsigned f),(n,a,b,f))
void fftw_destroy_plan(void*); void fftwf_destroy_plan(void*);
void sim_fftw_destroy_plan(void *p){ sim_hidden_fftw(); fftw_destroy_plan(p); } void sim_fftwf_destroy_plan(void *p){ sim_hidden_fftw(); fftwf_destroy_plan(p); }

/* ---------------------------------------------------------------- the NetCDF library as a fallible component */
static uint64_t libno; static int lib_dead;
static int lib_point(int k,const char *fn){
    if(!sim_active) return 0;
    uint64_t op=libno++; R->opcount[k]++;
    if(trace_fd>=0){ char b[128]; int l=snprintf(b,sizeof b,"%lu %s 0 %s\n",(unsigned long)op,opname[k],fn); if(l>0) raw(SYS_write,(long)trace_fd,b,(long)l); }
    if(lib_dead) return lib_dead;
    for(int i=0;i<NFA;i++) if(FA[i].kind==F_LIB && FA[i].op==op){ R->faults_fired[F_LIB]++; char w[48]; snprintf(w,sizeof w,"lib(%ld)",(long)FA[i].arg); finfo(w,k,fn,op); if(FA[i].arg2==1) lib_dead=(int)FA[i].arg; return (int)FA[i].arg; }
    return 0;
}
#define LW(k,name,args,call) int name args; int sim_##name args { int e=lib_point(k,#name); if(e) return e; return name call; }
typedef const size_t cz;
LW(OP_LIBW,nc_put_var_double,(int f,int v,const void *p),(f,v,p)) LW(OP_LIBW,nc_put_var_float,(int f,int v,const void *p),(f,v,p)) LW(OP_LIBW,nc_put_var_int,(int f,int v,const void *p),(f,v,p))
LW(OP_LIBW,nc_put_vara_double,(int f,int v,cz *a,cz *b,const void *p),(f,v,a,b,p)) LW(OP_LIBW,nc_put_vara_float,(int f,int v,cz *a,cz *b,const void *p),(f,v,a,b,p)) LW(OP_LIBW,nc_put_vara_int,(int f,int v,cz *a,cz *b,const void *p),(f,v,a,b,p))
LW(OP_LIBW,nc_put_var1_double,(int f,int v,cz *a,const void *p),(f,v,a,p)) LW(OP_LIBW,nc_put_var1_int,(int f,int v,cz *a,const void *p),(f,v,a,p))
LW(OP_LIBW,nc_put_att_double,(int f,int v,const char *n,int t,size_t l,const void *p),(f,v,n,t,l,p)) LW(OP_LIBW,nc_put_att_float,(int f,int v,const char *n,int t,size_t l,const void *p),(f,v,n,t,l,p))
LW(OP_LIBW,nc_put_att_int,(int f,int v,const char *n,int t,size_t l,const void *p),(f,v,n,t,l,p)) LW(OP_LIBW,nc_put_att_text,(int f,int v,const char *n,size_t l,const void *p),(f,v,n,l,p))
LW(OP_LIBW,nc_def_dim,(int f,const char *n,size_t l,int *d),(f,n,l,d)) LW(OP_LIBW,nc_def_var,(int f,const char *n,int t,int nd,const int *d,int *v),(f,n,t,nd,d,v))
LW(OP_LIBW,nc_enddef,(int f),(f)) LW(OP_LIBW,nc_redef,(int f),(f)) LW(OP_LIBW,nc_create,(const char *p,int m,int *f),(p,m,f)) LW(OP_LIBW,nc_sync,(int f),(f))
LW(OP_LIBR,nc_get_var_double,(int f,int v,void *p),(f,v,p)) LW(OP_LIBR,nc_get_var_float,(int f,int v,void *p),(f,v,p)) LW(OP_LIBR,nc_get_var_int,(int f,int v,void *p),(f,v,p))
LW(OP_LIBR,nc_get_vara_double,(int f,int v,cz *a,cz *b,void *p),(f,v,a,b,p)) LW(OP_LIBR,nc_get_vara_float,(int f,int v,cz *a,cz *b,void *p),(f,v,a,b,p)) LW(OP_LIBR,nc_get_vara_int,(int f,int v,cz *a,cz *b,void *p),(f,v,a,b,p))
LW(OP_LIBR,nc_get_var1_double,(int f,int v,cz *a,void *p),(f,v,a,p)) LW(OP_LIBR,nc_get_var1_int,(int f,int v,cz *a,void *p),(f,v,a,p))
LW(OP_LIBR,nc_open,(const char *p,int m,int *f),(p,m,f))
int nc_close(int); int sim_nc_close(int f){ int e=lib_point(OP_LIBW,"nc_close"); int r=nc_close(f); return e?e:r; }

/* ---------------------------------------------------------------- entry */
static int g_argc; static char **g_argv; 
extern int sim_lib_main(int,char**) __attribute__((weak));
static void *prog(void *x){ (void)x;
    sim_depth=0; sim_active=1;
    int rc = (g_argc>1 && !strcmp(g_argv[1],"__lib") && sim_lib_main)? sim_lib_main(g_argc-1,g_argv+1) : grt_real_main(g_argc,g_argv);
    exit(rc);
    return NULL;
}
extern uintptr_t sim_main_stack_lo, sim_main_stack_hi; uintptr_t sim_main_stack_lo, sim_main_stack_hi;
static void at_end(void){ R->exited=1; sched_flush(); }
int main(int argc,char **argv){
    sim_depth=1; conf_load(); gs=(uint64_t)(K.garbage>0?K.garbage:1)*0x2545F4914F6CDD1DULL; rs_clk=K.seed*31+7; sched_init();
    atexit(at_end);
    g_argc=argc; g_argv=argv;
    signal(SIGPIPE,SIG_DFL);
    stdout=mk(1,"w",1); stderr=mk(2,"w",2); setvbuf(stderr,NULL,_IONBF,0);
    size_t S=64u<<20; char *stk=mmap(NULL,S,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    sim_main_stack_lo=(uintptr_t)stk; sim_main_stack_hi=(uintptr_t)stk+S;
    sim_fill_garbage(stk+S-(256<<10),256<<10);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,stk,S); pthread_t th;
    if(pthread_create(&th,&at,prog,NULL)) sim_die(95);
    pthread_join(th,NULL);
    return 0;
}
