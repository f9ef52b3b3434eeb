/* a small OpenMP runtime on pthreads for clang's code, so that the thread sanitizer
   sees every thread and every lock; library state is made visible by wrappers */
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_spline2d.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>
#include <gsl/gsl_monte_plain.h>
#include <gsl/gsl_monte_miser.h>
#include <gsl/gsl_monte_vegas.h>
#define T 4
typedef struct { int id, n; void (*fn)(); void *a[40]; int na; pthread_barrier_t *b; } job;
static __thread int tid, team = 1;
static __thread uint64_t dlo, dhi; static __thread int ddone;
static pthread_mutex_t table = PTHREAD_MUTEX_INITIALIZER, red = PTHREAD_MUTEX_INITIALIZER;
static struct { void *k; pthread_mutex_t m; } locks[256]; static int nl;
static pthread_mutex_t *lock_of(void *k){ pthread_mutex_lock(&table); int i; for(i=0;i<nl;++i) if(locks[i].k==k) break;
  if(i==nl){ locks[i].k=k; pthread_mutex_init(&locks[i].m,0); ++nl; } pthread_mutex_unlock(&table); return &locks[i].m; }
static void invoke(job *j){ int g=j->id,b=j->id; void **a=j->a; void (*f)()=j->fn;
  f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19]); }
static void *start(void *p){ job *j=p; tid=j->id; team=j->n; invoke(j); return 0; }
void __kmpc_fork_call(void *loc, int n, void *fn, ...){
  job j[T]; pthread_t t[T]; va_list v; va_start(v,fn); void *a[40]={0}; for(int i=0;i<n&&i<40;++i) a[i]=va_arg(v,void*); va_end(v);
  for(int i=0;i<T;++i){ j[i].id=i; j[i].n=T; j[i].fn=fn; memcpy(j[i].a,a,sizeof a); pthread_create(&t[i],0,start,&j[i]); }
  for(int i=0;i<T;++i) pthread_join(t[i],0); }
void __kmpc_push_num_threads(void *l,int g,int n){} int __kmpc_global_thread_num(void *l){ return tid; }
#define INIT(S,I) void __kmpc_for_static_init_##S(void*l,int g,int s,int*last,I*lo,I*hi,I*st,I inc,I ch){ \
  I n=*hi-*lo+1, a=*lo, q=n/team, r=n%team; if(*hi<*lo){ return; } I k=tid; *lo=a+k*q+(k<r?k:r); *hi=*lo+q-1+(k<r?1:0); *last=(k==(I)(team-1)); *st=n; }
INIT(4,int32_t) INIT(4u,uint32_t) INIT(8,int64_t) INIT(8u,uint64_t)
void __kmpc_for_static_fini(void*l,int g){}
#define DISP(S,I) void __kmpc_dispatch_init_##S(void*l,int g,int s,I lo,I hi,I st,I ch){ I n=hi-lo+1,q=n/team,r=n%team,k=tid; \
  dlo=lo+k*q+(k<r?k:r); dhi=dlo+q-1+(k<r?1:0); ddone=(dhi+1==dlo); } \
 int __kmpc_dispatch_next_##S(void*l,int g,int*last,I*lo,I*hi,I*st){ if(ddone) return 0; ddone=1; *lo=dlo; *hi=dhi; *st=1; *last=0; return 1; } \
 void __kmpc_dispatch_fini_##S(void*l,int g){}
DISP(4,int32_t) DISP(4u,uint32_t) DISP(8,int64_t) DISP(8u,uint64_t)
void __kmpc_dispatch_deinit(void*l,int g){}
void __kmpc_critical(void*l,int g,void*k){ pthread_mutex_lock(lock_of(k)); } void __kmpc_end_critical(void*l,int g,void*k){ pthread_mutex_unlock(lock_of(k)); }
void __kmpc_critical_with_hint(void*l,int g,void*k,uint32_t h){ pthread_mutex_lock(lock_of(k)); }
int __kmpc_reduce(void*l,int g,int n,size_t s,void*d,void*f,void*k){ pthread_mutex_lock(&red); return 1; }
int __kmpc_reduce_nowait(void*l,int g,int n,size_t s,void*d,void*f,void*k){ pthread_mutex_lock(&red); return 1; }
void __kmpc_end_reduce(void*l,int g,void*k){ pthread_mutex_unlock(&red); } void __kmpc_end_reduce_nowait(void*l,int g,void*k){ pthread_mutex_unlock(&red); }
void __kmpc_barrier(void*l,int g){} int __kmpc_single(void*l,int g){ return tid==0; } void __kmpc_end_single(void*l,int g){}
int __kmpc_master(void*l,int g){ return tid==0; } void __kmpc_end_master(void*l,int g){}
int omp_get_thread_num(void){ return tid; } int omp_get_num_threads(void){ return team; } int omp_get_max_threads(void){ return T; } int omp_get_num_procs(void){ return T; }
int omp_in_parallel(void){ return team>1; } void omp_set_num_threads(int n){} double omp_get_wtime(void){ return 0; }
/* state of the libraries */
static volatile int rng_defaults, planner, handler;
__attribute__((noinline)) static void accelerator_is_modified(gsl_interp_accel *a){ if(a) ((volatile size_t*)a)[1]++; }
__attribute__((noinline)) static void planner_is_used(void){ planner++; }
__attribute__((noinline)) static void generator_defaults_are_set(void){ rng_defaults++; }
__attribute__((noinline)) static void error_handler_is_set(void){ handler++; }
double __real_gsl_spline_eval(const gsl_spline*,double,gsl_interp_accel*); double __real_gsl_spline_eval_deriv(const gsl_spline*,double,gsl_interp_accel*);
double __real_gsl_spline2d_eval(const gsl_spline2d*,double,double,gsl_interp_accel*,gsl_interp_accel*);
double __wrap_gsl_spline_eval(const gsl_spline*s,double x,gsl_interp_accel*a){ accelerator_is_modified(a); return __real_gsl_spline_eval(s,x,0); }
double __wrap_gsl_spline_eval_deriv(const gsl_spline*s,double x,gsl_interp_accel*a){ accelerator_is_modified(a); return __real_gsl_spline_eval_deriv(s,x,0); }
double __wrap_gsl_spline2d_eval(const gsl_spline2d*s,double x,double y,gsl_interp_accel*a,gsl_interp_accel*b){ accelerator_is_modified(a); accelerator_is_modified(b);
  return __real_gsl_spline2d_eval(s,x,y,0,0); }
static pthread_mutex_t quiet = PTHREAD_MUTEX_INITIALIZER;
const gsl_rng_type *__real_gsl_rng_env_setup(void);
const gsl_rng_type *__wrap_gsl_rng_env_setup(void){ generator_defaults_are_set(); pthread_mutex_lock(&quiet); const gsl_rng_type*r=__real_gsl_rng_env_setup(); pthread_mutex_unlock(&quiet); return r; }
gsl_error_handler_t *__real_gsl_set_error_handler_off(void); gsl_error_handler_t *__real_gsl_set_error_handler(gsl_error_handler_t*);
gsl_error_handler_t *__wrap_gsl_set_error_handler_off(void){ error_handler_is_set(); return __real_gsl_set_error_handler_off(); }
gsl_error_handler_t *__wrap_gsl_set_error_handler(gsl_error_handler_t*h){ error_handler_is_set(); return __real_gsl_set_error_handler(h); }
typedef void *plan; typedef double cx[2];
static pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER;
plan __real_fftw_plan_dft_r2c_1d(int,double*,cx*,unsigned); plan __real_fftw_plan_dft_c2r_1d(int,cx*,double*,unsigned);
plan __real_fftw_plan_dft_r2c_2d(int,int,double*,cx*,unsigned); plan __real_fftw_plan_dft_c2r_2d(int,int,cx*,double*,unsigned); void __real_fftw_destroy_plan(plan);
#define GUARD(X) planner_is_used(); pthread_mutex_lock(&pm); X; pthread_mutex_unlock(&pm);
plan __wrap_fftw_plan_dft_r2c_1d(int n,double*a,cx*b,unsigned f){ plan p; GUARD(p=__real_fftw_plan_dft_r2c_1d(n,a,b,f)) return p; }
plan __wrap_fftw_plan_dft_c2r_1d(int n,cx*a,double*b,unsigned f){ plan p; GUARD(p=__real_fftw_plan_dft_c2r_1d(n,a,b,f)) return p; }
plan __wrap_fftw_plan_dft_r2c_2d(int n,int m,double*a,cx*b,unsigned f){ plan p; GUARD(p=__real_fftw_plan_dft_r2c_2d(n,m,a,b,f)) return p; }
plan __wrap_fftw_plan_dft_c2r_2d(int n,int m,cx*a,double*b,unsigned f){ plan p; GUARD(p=__real_fftw_plan_dft_c2r_2d(n,m,a,b,f)) return p; }
void __wrap_fftw_destroy_plan(plan p){ GUARD(__real_fftw_destroy_plan(p)) }
/* the points of the quadratures do not matter here */
int __wrap_gsl_integration_qag(const gsl_function*F,double a,double b,double ea,double er,size_t lim,int key,gsl_integration_workspace*w,double*r,double*e){
  double s=0; ((volatile size_t*)w)[0]=((volatile size_t*)w)[0]; for(int i=0;i<5;++i) s+=F->function(a+(b-a)*(i+.5)/5,F->params)/5; *r=s*(b-a); *e=0; return 0; }
static double mc(gsl_monte_function*F,double*lo,double*up,size_t d,gsl_rng*g,void*w){ double s=0,x[16]; ((volatile char*)w)[0]=((volatile char*)w)[0];
  for(int k=0;k<7;++k){ for(size_t i=0;i<d;++i) x[i]=lo[i]+(up[i]-lo[i])*((k*(2*i+3))%7+.5)/7; s+=F->f(x,d,F->params)/7; } return s; }
#define MC(n) int __wrap_gsl_monte_##n##_integrate(gsl_monte_function*F,double*lo,double*up,size_t d,size_t c,gsl_rng*g,gsl_monte_##n##_state*w,double*r,double*e){ *r=mc(F,lo,up,d,g,w); *e=0; return 0; }
MC(plain) MC(miser)
int __wrap_gsl_monte_vegas_integrate(gsl_monte_function*F,double*lo,double*up,size_t d,size_t c,gsl_rng*g,gsl_monte_vegas_state*w,double*r,double*e){ *r=mc(F,lo,up,d,g,w); *e=0; return 0; }
