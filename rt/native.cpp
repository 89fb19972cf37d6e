// native implementation of the harness interface: replays one concrete input vector (and thread schedule)
// FSX_INPUT: file with one decimal value per line; FSX_SCHED: file with thread ids; FSX_FILL: byte for fresh memory
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <unistd.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <time.h>
#include <cxxabi.h>
extern "C" void fsx_main(void);
static unsigned long long inputs[4096]; static int ninputs, pos_in; static int sched_[65536]; static volatile int nsched; static volatile int pos_s; static int fillb=0xAA; static long live_; static long failIn; static bool failAny; static int unlockVis;
static void die(int c){ fflush(stdout); fflush(stderr); syscall(SYS_exit_group,c); __builtin_unreachable(); }
extern "C" {
uint64_t fsx_sym(const char*,unsigned bits){ unsigned long long v= pos_in<ninputs? inputs[pos_in]:0; pos_in++; if(bits<64) v&=(1ull<<bits)-1; return v; }
void fsx_assume(int c){ if(!c){ printf("FSX-ASSUME-FALSE\n"); die(78); } }
void fsx_check(int c,const char*m){ if(!c){ printf("FSX-FAIL %s\n",m); die(77); } }
void fsx_reach(const char*){} 
void fsx_observe(const char*t,uint64_t v){ printf("OBS %s=%llu\n",t,(unsigned long long)v); }
long fsx_live(void){ return __atomic_load_n(&live_,__ATOMIC_RELAXED); }
long fsx_param(const char*n,long d){ char b[100]; snprintf(b,100,"FSX_P_%s",n); const char*e=getenv(b); return e?atol(e):d; }
uint64_t fsx_conc(uint64_t v){ return v; }
int fsx_symbolic(void){ return 0; }
__attribute__((noinline,optimize("O0"))) void fsx_dirty(void){ volatile unsigned char b[65536]; for(unsigned i=0;i<sizeof b;i++) b[i]=(unsigned char)fillb; }
void fsx_fail_alloc(long n){ failAny=n>0; failIn=n; }
void __fsx_debug(const char*,...){}
long fsx_file_read(const char*nm,char*buf,long cap){ FILE*f=fopen(nm,"rb"); if(!f) return -1; long k=fread(buf,1,cap,f); fseek(f,0,SEEK_END); long n=ftell(f); fclose(f); return n>cap?n:k; }
}
// ---- allocation tracking: table ptr -> kind, guarded by a raw spin lock (this file is not instrumented) ----
struct Ent { void*p; int k; }; static Ent tab[1<<16]; static volatile int tlock; static int track=1;
static void tl(){ while(__sync_lock_test_and_set(&tlock,1)) syscall(SYS_sched_yield); } static void tu(){ __sync_lock_release(&tlock); }
static void put(void*p,int k){ tl(); unsigned h=(unsigned)(((uintptr_t)p>>4)*2654435761u)>>16; for(int i=0;i<(1<<16);i++){ Ent&e=tab[(h+i)&0xffff]; if(!e.p||e.p==(void*)1){ e.p=p; e.k=k; break; } } tu(); }
static int take(void*p){ tl(); unsigned h=(unsigned)(((uintptr_t)p>>4)*2654435761u)>>16; int r=-1; for(int i=0;i<(1<<16);i++){ Ent&e=tab[(h+i)&0xffff]; if(!e.p) break; if(e.p==p){ r=e.k; e.p=(void*)1; break; } } tu(); return r; }
static __thread int inGuard; // what a function-static initialiser allocates is not counted: it lives as long as the program
static bool failNow(){ if(!failAny) return false; if(--failIn==0){ failAny=false; return true; } return false; }
static void* al(size_t n,int k,bool nt){ if(failNow()||n>(8u<<20)){ if(nt) return 0; throw std::bad_alloc(); } void*p=malloc(n?n:1); if(fillb>=0) memset(p,fillb,n); if(track){ put(p,inGuard?k|256:k); if(!inGuard) __atomic_fetch_add(&live_,1,__ATOMIC_RELAXED); } return p; }
static void fr(void*p,int k){ if(!p) return; if(track){ int r=take(p); if(r<0){ printf("FSX-BADFREE\n"); free(p); die(76); } if((r&255)!=k){ printf("FSX-MISMATCH\n"); die(76); } if(!(r&256)) __atomic_fetch_sub(&live_,1,__ATOMIC_RELAXED); } free(p); }
void* operator new(size_t n){ return al(n,1,false); } void* operator new[](size_t n){ return al(n,2,false); } void* operator new(size_t n,const std::nothrow_t&) noexcept { return al(n,1,true); } void* operator new[](size_t n,const std::nothrow_t&) noexcept { return al(n,2,true); }
void operator delete(void*p) noexcept { fr(p,1); } void operator delete[](void*p) noexcept { fr(p,2); } void operator delete(void*p,size_t) noexcept { fr(p,1); } void operator delete[](void*p,size_t) noexcept { fr(p,2); } void operator delete(void*p,const std::nothrow_t&) noexcept { fr(p,1); } void operator delete[](void*p,const std::nothrow_t&) noexcept { fr(p,2); }
// ---- threads under a token scheduler ----
static __thread int me=0; static volatile int nthreads=1; static volatile int notified[64]; static void* volatile waiting[64];
static double nowd(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void turn(){ if(nthreads<2) return; double t0=nowd(); int last=pos_s; while(pos_s<nsched&&sched_[pos_s]!=me){ if(pos_s!=last){ last=pos_s; t0=nowd(); } if(nowd()-t0>2.0){ fprintf(stderr,"FSX-DIVERGED at %d\n",pos_s); nsched=0; break; } syscall(SYS_sched_yield); } }
static void adv(){ if(nthreads<2) return; if(pos_s<nsched) __sync_fetch_and_add(&pos_s,1); }
extern "C" {
int fsx_tid(void){ return me; }
void fsxn_pre(void*){ turn(); } void fsxn_post(void*){ adv(); }
static bool held(pthread_mutex_t*m){ return m->__data.__kind==1&&m->__data.__count>0&&m->__data.__owner==(int)syscall(SYS_gettid); }
int fsxn_mutex_lock(pthread_mutex_t*m){ if(held(m)) return pthread_mutex_lock(m); turn(); int r=pthread_mutex_lock(m); adv(); return r; }
int fsxn_mutex_trylock(pthread_mutex_t*m){ if(held(m)) return pthread_mutex_trylock(m); turn(); int r=pthread_mutex_trylock(m); adv(); return r; }
int fsxn_mutex_unlock(pthread_mutex_t*m){ if(held(m)&&m->__data.__count>1) return pthread_mutex_unlock(m); if(unlockVis) turn(); int r=pthread_mutex_unlock(m); if(unlockVis) adv(); return r; }
int fsxn_mutex_clocklock(pthread_mutex_t*m,int,const struct timespec*){ turn(); int r=pthread_mutex_trylock(m); adv(); return r?110:0; }
int fsxn_rw_rdlock(pthread_rwlock_t*m){ turn(); int r=pthread_rwlock_rdlock(m); adv(); return r; }
int fsxn_rw_wrlock(pthread_rwlock_t*m){ turn(); int r=pthread_rwlock_wrlock(m); adv(); return r; }
int fsxn_rw_tryrd(pthread_rwlock_t*m){ turn(); int r=pthread_rwlock_tryrdlock(m); adv(); return r; }
int fsxn_rw_trywr(pthread_rwlock_t*m){ turn(); int r=pthread_rwlock_trywrlock(m); adv(); return r; }
int fsxn_rw_unlock(pthread_rwlock_t*m){ if(unlockVis) turn(); int r=pthread_rwlock_unlock(m); if(unlockVis) adv(); return r; }
static pthread_mutex_t spm=PTHREAD_MUTEX_INITIALIZER; void fsxn_sp_lock(void*,const void*){ fsxn_mutex_lock(&spm); } void fsxn_sp_unlock(void*){ fsxn_mutex_unlock(&spm); }
static int waitc(void*cv,pthread_mutex_t*m,bool timed){ turn(); notified[me]=0; waiting[me]=cv; adv(); pthread_mutex_unlock(m); double t0=nowd(); while(1){ if(pos_s<nsched){ if(sched_[pos_s]==me) break; } else { if(notified[me]) break; if(timed&&nowd()-t0>0.3) break; } syscall(SYS_sched_yield); } waiting[me]=0; pthread_mutex_lock(m); adv(); int r=notified[me]?0:110; notified[me]=0; return timed?r:0; }
void fsxn_cv_wait(void*cv,std::unique_lock<std::mutex>*l){ waitc(cv,l->mutex()->native_handle(),false); }
int fsxn_cv_timed(void*cv,pthread_mutex_t*m,int,const struct timespec*){ return waitc(cv,m,true); }
void fsxn_cv_one(void*cv){ turn(); int w=-1; if(pos_s+1<nsched&&sched_[pos_s+1]>=200){ w=sched_[pos_s+1]-200; __sync_fetch_and_add(&pos_s,1); } else for(int i=0;i<nthreads&&w<0;i++) if(waiting[i]==cv&&!notified[i]) w=i; if(w>=0) notified[w]=1; adv(); }
void fsxn_cv_all(void*cv){ turn(); for(int i=0;i<nthreads;i++) if(waiting[i]==cv) notified[i]=1; adv(); }
int fsxn_guard_acquire(int64_t*g){ turn(); int r=abi::__cxa_guard_acquire((abi::__guard*)g); if(r) inGuard++; adv(); return r; }
void fsxn_guard_release(int64_t*g){ turn(); abi::__cxa_guard_release((abi::__guard*)g); inGuard--; adv(); }
void fsxn_guard_abort(int64_t*g){ turn(); abi::__cxa_guard_abort((abi::__guard*)g); inGuard--; adv(); }
__attribute__((weak)) int __real___cxa_guard_acquire(int64_t*); __attribute__((weak)) void __real___cxa_guard_release(int64_t*); __attribute__((weak)) void __real___cxa_guard_abort(int64_t*); // linked with --wrap where the code is not instrumented
int __wrap___cxa_guard_acquire(int64_t*g){ int r=__real___cxa_guard_acquire(g); if(r) inGuard++; return r; }
void __wrap___cxa_guard_release(int64_t*g){ __real___cxa_guard_release(g); inGuard--; }
void __wrap___cxa_guard_abort(int64_t*g){ __real___cxa_guard_abort(g); inGuard--; }
void* fsxn_id(void*p){ return p; }
int fsxn_yield(void){ syscall(SYS_sched_yield); return 0; }
}
struct W:std::thread::_State { std::unique_ptr<std::thread::_State> o; int id; void _M_run() override { me=id; o->_M_run(); o.reset(); } };
extern "C" void fsxn_thread_start(std::thread*t,std::unique_ptr<std::thread::_State>*s,void(*d)()){ W*w; track=track; w=new W; w->o=std::move(*s); w->id=__sync_fetch_and_add(&nthreads,1); std::unique_ptr<std::thread::_State> u(w); t->_M_start_thread(std::move(u),d); }
int main(){ setvbuf(stdout,0,_IOLBF,0); if(const char*f=getenv("FSX_INPUT")){ FILE*h=fopen(f,"r"); if(h){ unsigned long long v; while(ninputs<4096&&fscanf(h,"%llu",&v)==1) inputs[ninputs++]=v; fclose(h); } } if(const char*f=getenv("FSX_SCHED")){ FILE*h=fopen(f,"r"); if(h){ int v; while(nsched<65536&&fscanf(h,"%d",&v)==1){ if(v==-1){ unlockVis=1; continue; } sched_[nsched]=v; nsched=nsched+1; } fclose(h); } } if(const char*f=getenv("FSX_FILL")) fillb=atoi(f);
  fsx_main(); printf("FSX-DONE\n"); fflush(stdout); if(getenv("FSX_SCHED")) fprintf(stderr,"sched used %d/%d\n",pos_s,nsched); die(0); }
