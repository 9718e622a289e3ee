// Native side of the harness API: runs one harness entry with concrete inputs against the real build.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <chrono>
#include <fstream>
#include <sstream>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/resource.h>
static std::map<std::string,std::string>* in; static std::map<std::string,int>* cnt; static std::vector<long>* par; static int tryDepth; static jmp_buf* jb; static bool leakOK; static int asum;
struct Quit{ int c; };
static void quit(int c){ fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
__attribute__((weak)) void __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
long native_live; bool native_count;
int __sym_native(){ return 1; }
static std::string nm(const char*n){ int k=(*cnt)[n]++; return k? std::string(n)+"#"+std::to_string(k):n; }
int __sym_int(const char*n,int lo,int hi){ native_count=false; std::string s=nm(n); auto it=in->find(s); long v= it==in->end()? (lo>0?lo:hi<0?hi:0): strtol(it->second.c_str(),0,10); native_count=true; if(v<lo||v>hi){ printf("ASSUME %s\n",n); quit(0);} return (int)v; }
double __sym_real_range(const char*n,double lo,double hi){ native_count=false; std::string s=nm(n); auto it=in->find(s); double v= it==in->end()? (lo>0?lo:hi<0?hi:0): strtod(it->second.c_str(),0); native_count=true; return v; }
double __sym_real(const char*n){ return __sym_real_range(n,-128,128); }
void __sym_assume(int c){ if(!c){ printf("ASSUME\n"); quit(0);} }
void __sym_check(int c,const char*m){ if(!c){ printf("FAIL check: %s\n",m); quit(7);} }
int __sym_eq(double a,double b){ if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b); if(a==b) return 1; if(std::isinf(a)||std::isinf(b)) return 0; static const bool strict=getenv("SYM_STRICT"); // replaying a violation the solver has found: only rounding noise is forgiven
  return strict? std::fabs(a-b)<=1e-14*(std::fabs(a)+std::fabs(b)) : std::fabs(a-b)<=1e-7*(1+std::fabs(a)+std::fabs(b)); }
void __sym_check_eq(double a,double b,const char*m){ if(!__sym_eq(a,b)){ printf("FAIL check: %s (%.17g vs %.17g)\n",m,a,b); quit(7);} }
int __sym_conc(int x){ return x; } int __sym_fork(int x){ return x!=0; } void __sym_cover(const char*){}
void __sym_log_i(const char*l,long v){ printf("LOG %s\t%ld\n",l,v); } void __sym_log_d(const char*l,double v){ printf("LOG %s\t%a\n",l,v); }
int __sym_param(int i){ return i<(int)par->size()?(int)(*par)[i]:0; } int __sym_is_symbolic_d(double){ return 0; } int __sym_is_symbolic_i(long){ return 0; } int __sym_is_undef_d(double){ return 0; }
int __sym_try(void(*f)(void*),void*p){ jmp_buf here; jmp_buf*old=jb; int r=0; tryDepth++; jb=&here; if(setjmp(here)==0){ try { f(p); } catch(...){ r=1; leakOK=true; } } else { r=2; leakOK=true; } jb=old; tryDepth--; return r; }
void __sym_fail(const char*m){ printf("FAIL check: %s\n",m); quit(7); }
void __sym_end(){ quit(0); } void __sym_abandon(const char*){ quit(0); } void __sym_leak_ok(){ leakOK=true; }
double __sym_uf1(const char*n,double x){ return 0.375*x+std::strlen(n); } double __sym_uf2(const char*n,double x,double y){ return 0.375*x-0.25*y+std::strlen(n); }
double __sym_round_digits(double x,int k){ char b[64]; snprintf(b,64,"%.*g",k,x); return strtod(b,0); }
#if defined(__SANITIZE_ADDRESS__)
void* __asan_region_is_poisoned(void*,size_t);
int __sym_readable(const void*p,unsigned long n){ return n==0||(p&&!__asan_region_is_poisoned((void*)p,n)); }
int __asan_address_is_poisoned(void const volatile*); int __sym_addr_alive(const void*p){ return p&&!__asan_address_is_poisoned(p); }
#else
int __sym_readable(const void*,unsigned long){ return 1; } int __sym_addr_alive(const void*){ return 1; }
#endif
int __sym_same_object(const void*,const void*){ return 1; }
// fibers: threads that hand one baton around
struct Baton{ std::mutex m; std::condition_variable c; long turn=0; long n=0; long ready=0; }; static Baton* bat; static thread_local long me; static Baton& baton(){ if(!bat){ bool s=native_count; native_count=false; bat=new Baton; native_count=s; } return *bat; }
void __sym_switch(long id){ Baton&b=baton(); std::unique_lock<std::mutex> l(b.m); b.turn=id; b.c.notify_all(); while(b.turn!=me) b.c.wait(l); }
long __sym_fiber(void(*f)(void*),void*p){ bool s=native_count; native_count=false; Baton&b=baton(); long id=++b.n; std::thread([f,p,id]{ me=id; { Baton&b=baton(); std::unique_lock<std::mutex> l(b.m); b.ready=id; b.c.notify_all(); while(b.turn!=id) b.c.wait(l); } try { f(p); } catch(std::exception&e){ printf("FAIL exception: uncaught exception: %s\n",e.what()); quit(7); } catch(...){ printf("FAIL exception: uncaught exception\n"); quit(7); } }).detach(); { std::unique_lock<std::mutex> l(b.m); while(b.ready!=id) b.c.wait(l); } native_count=s; return id; }
void __assert_fail(const char*e,const char*f,unsigned l,const char*) noexcept { if(jb) longjmp(*jb,1); const char*s=strrchr(f,'/'); printf("FAIL assertion: assertion failed: %s at %s:%u\n",e,s?s+1:f,l); quit(7); abort(); }
}
// the clock advances by the replayed inputs
static long lastTick; static long tick(){ int d=__sym_int("clock_ms",0,100000); lastTick+=(long)d*1000003; return lastTick; }
extern "C" long __symclock_last(){ return lastTick; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick())); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick())); } } } }
static void onTerm(){ if(jb) longjmp(*jb,1); printf("FAIL terminate: std::terminate called\n"); quit(7); abort(); }
static void hm(const volatile void*,size_t){ if(native_count) native_live++; } static void hf(const volatile void*p){ if(p&&native_count) native_live--; }
static const char* rep; 
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:exitcode=9:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=1:handle_abort=0:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options(){ return "print_stacktrace=0"; }
extern "C" __attribute__((weak)) void native_setup(){}
int main(int argc,char**argv){ in=new std::map<std::string,std::string>; cnt=new std::map<std::string,int>; par=new std::vector<long>; std::string entry; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--entry") entry=argv[++i]; else if(a=="--param") par->push_back(atol(argv[++i])); else if(a=="--inputs"){ std::ifstream f(argv[++i]); std::string l; while(std::getline(f,l)){ std::istringstream s(l); std::string n,v; if(!(s>>n>>v)||n[0]=='@') { if(n=="@entry") entry=v; else if(n=="@param"){ par->push_back(atol(v.c_str())); } continue; } (*in)[n]=v; } } }
  setvbuf(stdout,0,_IOLBF,1<<16); std::set_terminate(onTerm); native_setup(); struct rlimit rl{ (rlim_t)60,(rlim_t)60 }; setrlimit(RLIMIT_CPU,&rl); struct rlimit rc{0,0}; setrlimit(RLIMIT_CORE,&rc);
  void(*f)()=(void(*)())dlsym(RTLD_DEFAULT,entry.c_str()); if(!f){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  for(auto&s:*in) (*cnt)[s.first]; 
  { std::vector<std::string> pre; for(auto&s:*in){ auto p=s.first.find('#'); pre.push_back(s.first.substr(0,p)); } for(auto&s:pre) (*cnt)[s]; for(auto&c:*cnt) c.second=0; }
  if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hm,hf);
  printf("RUN\n"); fflush(stdout); native_live=0; native_count=true;
  try { f(); } catch(std::exception&e){ printf("FAIL exception: uncaught exception: %s\n",e.what()); quit(7); } catch(...){ printf("FAIL exception: uncaught exception\n"); quit(7); }
  native_count=false; if(__sanitizer_install_malloc_and_free_hooks&&!leakOK&&native_live>0){ printf("FAIL leak: %ld objects still allocated\n",native_live); quit(7); }
  printf("OK\n"); quit(0); }
