// C++ runtime and libstdc++ out-of-line pieces for the symbolic build (linked as bitcode with the code under test).
#include <cstddef>
#include <cstring>
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <list>
#include <map>
#include <unordered_map>
#include <functional>
#include <chrono>
#include <typeinfo>
#include "symio.hpp"
extern "C" { void* __sym_new(size_t); void* __sym_newarr(size_t); void __sym_delete(void*); void __sym_deletearr(void*); void __sym_throw(void*,void*); void __sym_rethrow(void*); void __sym_refuse_term(); double __sym_real_range(const char*,double,double); int __sym_int(const char*,int,int); void __sym_assume(int); void abort(); }
template class std::basic_string<char>;
static const size_t LIMIT=1ull<<24;
void* operator new(size_t n){ if(n>LIMIT) throw std::bad_alloc(); return __sym_new(n); }
void* operator new[](size_t n){ if(n>LIMIT) throw std::bad_alloc(); return __sym_newarr(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return n>LIMIT?nullptr:__sym_new(n); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return n>LIMIT?nullptr:__sym_newarr(n); }
void operator delete(void*p) noexcept { __sym_delete(p); }
void operator delete[](void*p) noexcept { __sym_deletearr(p); }
void operator delete(void*p,size_t) noexcept { __sym_delete(p); }
void operator delete[](void*p,size_t) noexcept { __sym_deletearr(p); }

namespace { struct ExcHdr { void(*dtor)(void*); void*ti; long handlers; ExcHdr*next; long rethrown; long pad; }; ExcHdr* caught; }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char*p=(char*)__sym_rt_alloc(n+sizeof(ExcHdr)); return p+sizeof(ExcHdr); }
void __cxa_free_exception(void*) noexcept {}
void __cxa_throw(void*p,std::type_info*ti,void(*dtor)(void*)){ ExcHdr*h=(ExcHdr*)p-1; h->dtor=dtor; h->ti=ti; h->handlers=0; h->rethrown=0; __sym_throw(p,ti); __builtin_unreachable(); }
void* __cxa_begin_catch(void*p) noexcept { ExcHdr*h=(ExcHdr*)p-1; h->handlers++; h->rethrown=0; if(caught!=h){ h->next=caught; caught=h; } return p; }
void __cxa_end_catch(){ ExcHdr*h=caught; if(!h) return; if(--h->handlers==0){ caught=h->next; if(!h->rethrown&&h->dtor) h->dtor(h+1); } }
void* __cxa_get_exception_ptr(void*p) noexcept { return p; }
void __cxa_rethrow(){ ExcHdr*h=caught; if(!h) __sym_refuse_term(); h->rethrown=1; __sym_rethrow(h+1); __builtin_unreachable(); }
void __cxa_call_unexpected(void*){ __sym_refuse_term(); }
void __cxa_bad_cast(){ throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length(){ throw std::bad_alloc(); }
}
static char* dupstr(const char*s,size_t n){ char*p=(char*)__sym_rt_alloc(n+1); if(n) memcpy(p,s,n); p[n]=0; return p; }
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string():_M_p(""){} __cow_string::__cow_string(const string&s):_M_p(dupstr(s.data(),s.size())){} __cow_string::__cow_string(const char*s,size_t n):_M_p(dupstr(s,n)){} __cow_string::__cow_string(const __cow_string&o) noexcept :_M_p(o._M_p){} __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { _M_p=o._M_p; return *this; } __cow_string::~__cow_string(){} __cow_string::__cow_string(__cow_string&&o) noexcept :_M_p(o._M_p){} __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { _M_p=o._M_p; return *this; }
#define EXC(C,B) C::C(const string&s):B(s){} C::C(const char*s):B(s){} C::~C() noexcept {}
#define EXR(C) C::C(const string&s):_M_msg(s){} C::C(const char*s):_M_msg(s,strlen(s)){} C::C(const C&o) noexcept :exception(o),_M_msg(o._M_msg){} C& C::operator=(const C&o) noexcept { _M_msg=o._M_msg; return *this; } C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; }
EXR(logic_error) EXR(runtime_error)
EXC(domain_error,logic_error) EXC(invalid_argument,logic_error) EXC(length_error,logic_error) EXC(out_of_range,logic_error) EXC(range_error,runtime_error) EXC(overflow_error,runtime_error) EXC(underflow_error,runtime_error)
void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_alloc(); } void __throw_bad_cast(){ throw bad_cast(); }
void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_bad_exception(){ throw bad_exception(); }
bool uncaught_exception() noexcept { return false; }

namespace __detail {
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ _List_node_base*t=x._M_next; x._M_next=y._M_next; y._M_next=t; t=x._M_prev; x._M_prev=y._M_prev; y._M_prev=t; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_transfer(_List_node_base*const first,_List_node_base*const last) noexcept { if(this!=last){ last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first; _List_node_base*const t=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do{ _List_node_base*u=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=u; t=u; }while(t!=this); }
void _List_node_base::_M_hook(_List_node_base*const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base*const n=this->_M_next,*const p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,5,11,23,47,97,199,409,823,1741,3739,7517,15173}; for(size_t p:pr) if(p>=n){ _M_next_resize=(size_t)(p*1); return p; } abort(); return 0; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=ne+ni+1; if(want>=nb){ size_t b=_M_next_bkt(want>nb*2?want:nb*2); return {true,b}; } _M_next_resize=nb; } return {false,0}; }
}
// red-black trees: a plain (unbalanced) search tree has the same observable behaviour
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) throw() { if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw() { x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_black; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw() { _Rb_tree_node_base*&root=h._M_parent; _Rb_tree_node_base*&lm=h._M_left; _Rb_tree_node_base*&rm=h._M_right; _Rb_tree_node_base*y=z,*x=nullptr; if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; }
  else { if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { lm=x; while(lm->_M_left) lm=lm->_M_left; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { rm=x; while(rm->_M_right) rm=rm->_M_right; } } }
  return y; }
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=h*131+c[i]; return h; }

static basic_ostream<char>* cout_;
basic_ostream<char>& __symio_cout(){ if(!cout_){ cout_=new(__sym_rt_alloc(sizeof(__SinkStream))) __SinkStream; } return *cout_; }

// the clock: every reading is an arbitrary time not before the previous one
static long lastTick; static int ticks;
static long tick(){ static const char*nm="clock_ms"; int d=__sym_int(nm,0,100000); lastTick+=(long)d*1000003; ticks++; return lastTick; }
extern "C" long __symclock_last(){ return lastTick; }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick())); }
} }
}
// ---- tokens for symbolic numbers in text, and the in-memory file system
namespace { struct Tok{ double d; long i; }; Tok*toks; int ntok,captok; struct File{ char name[64]; char*data; size_t n; }; File*files; int nfiles; }
extern "C" {
static Tok* newTok(){ if(ntok==captok){ int c=captok?captok*2:64; Tok*t=(Tok*)__sym_rt_alloc(c*sizeof(Tok)); if(ntok) memcpy(t,toks,ntok*sizeof(Tok)); toks=t; captok=c; } return &toks[ntok++]; }
int __symio_tok_d(double v){ Tok*t=newTok(); t->d=v; return ntok-1; } int __symio_tok_i(long v){ Tok*t=newTok(); t->i=v; return ntok-1; }
double __symio_get_d(int k){ return toks[k].d; } long __symio_get_i(int k){ return toks[k].i; }
int __symio_fs_find(const char*name,int create){ if(strncmp(name,"/nonexistent",12)==0||name[0]==0) return -1; for(int i=0;i<nfiles;i++) if(strcmp(files[i].name,name)==0) return i; if(!create) return -1; if(!files) files=(File*)__sym_rt_alloc(32*sizeof(File)); if(nfiles==32||strlen(name)>63) __sym_abandon("file table full"); strcpy(files[nfiles].name,name); files[nfiles].data=(char*)""; files[nfiles].n=0; return nfiles++; }
const char* __symio_fs_data(int i){ return files[i].data; } unsigned long __symio_fs_size(int i){ return files[i].n; }
void __symio_fs_store(int i,const char*p,unsigned long n){ char*b=(char*)__sym_rt_alloc(n+1); if(n) memcpy(b,p,n); files[i].data=b; files[i].n=n; }
int rand(){ return __sym_int("crand",0,2147483647); } void srand(unsigned){} long time(long*p){ long t=std::chrono::system_clock::now().time_since_epoch().count()/1000000000; if(p) *p=t; return t; }
char* strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
int strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ if(*a!=*b) return (unsigned char)*a<(unsigned char)*b?-1:1; if(!*a) return 0; } return 0; }
int printf(const char*,...){ return 0; } int fprintf(struct _IO_FILE*,const char*,...){ return 0; } int puts(const char*){ return 0; } int fflush(struct _IO_FILE*){ return 0; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
}
