// fsx runtime model: the non-template part of libstdc++/libc that the analysed code needs, written over the engine's
// primitives. Compiled to LLVM IR and linked with the real code under test; it replaces only library code.
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <locale>
#include <list>
#include <map>
#include <system_error>
#include <functional>
#include <regex>
#include <memory>
#include <typeinfo>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <iomanip>
#include <cxxabi.h>
#include <ctime>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <sys/time.h>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <filesystem>
#include <vector>
namespace std {
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n,int d){ _M_gcount=0; sentry s(*this,true); if(s){ ios_base::iostate e=ios_base::goodbit; while(_M_gcount<n||n==numeric_limits<streamsize>::max()){ int c=rdbuf()->sbumpc(); if(c==-1){ e|=ios_base::eofbit; break; } ++_M_gcount; if(c==d) break; } if(e) setstate(e); } return *this; }
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n){ return ignore(n,-1); }
}
extern "C" { void* __fsx_malloc(size_t n,int kind); void __fsx_free(void*,int kind); void __fsx_abort(const char*) __attribute__((noreturn)); void __fsx_unwind(void*) __attribute__((noreturn)); int fsx_tid(); 
long fsx_param(const char*,long); }
// ------------------------------------------------------------------ allocation
static long fail_in; static bool fail_any;
extern "C" void fsx_fail_alloc(long n){ fail_any=n>0; fail_in=n; }
static bool failNow(){ if(!fail_any) return false; if(--fail_in==0){ fail_any=false; return true; } return false; }
static void* xnew(size_t n,int k){ if(failNow()) throw std::bad_alloc(); void*p=__fsx_malloc(n?n:1,k); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n){ return xnew(n,1); }
void* operator new[](size_t n){ return xnew(n,2); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { if(failNow()) return 0; return __fsx_malloc(n?n:1,1); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { if(failNow()) return 0; return __fsx_malloc(n?n:1,2); }
void operator delete(void*p) noexcept { if(p) __fsx_free(p,1); }
void operator delete[](void*p) noexcept { if(p) __fsx_free(p,2); }
void operator delete(void*p,size_t) noexcept { if(p) __fsx_free(p,1); }
void operator delete[](void*p,size_t) noexcept { if(p) __fsx_free(p,2); }
void operator delete(void*p,const std::nothrow_t&) noexcept { if(p) __fsx_free(p,1); }
void operator delete[](void*p,const std::nothrow_t&) noexcept { if(p) __fsx_free(p,2); }
void* operator new(size_t n,std::align_val_t) { return xnew(n,1); }
void operator delete(void*p,std::align_val_t) noexcept { if(p) __fsx_free(p,1); }
void operator delete(void*p,size_t,std::align_val_t) noexcept { if(p) __fsx_free(p,1); }
extern "C" void* malloc(size_t n){ if(failNow()) return 0; return __fsx_malloc(n?n:1,3); }
extern "C" void free(void*p){ if(p) __fsx_free(p,3); }
extern "C" void* calloc(size_t a,size_t b){ if(failNow()) return 0; void*p=__fsx_malloc(a*b?a*b:1,3); if(p) memset(p,0,a*b); return p; }
extern "C" void* realloc(void*p,size_t n) { __fsx_abort("realloc is not modelled"); }
const std::nothrow_t std::nothrow{};
char __libc_single_threaded=0;
// ------------------------------------------------------------------ exceptions
struct Hdr { void* ti; void(*dtor)(void*); Hdr* next; void* adj; int handlers; int rethrown; int refs; int pad; void* fill[2]; };
static_assert(sizeof(Hdr)==64,"");
struct Eh { Hdr* caught; unsigned uncaught; };
static thread_local Eh eh;
static inline void* objOf(Hdr*h){ return (char*)h+64; }
static inline Hdr* hdrOf(void*p){ return (Hdr*)((char*)p-64); }
static void relEx(Hdr*h){ if(--h->refs==0){ if(h->dtor) h->dtor(objOf(h)); __fsx_free(h,8); } }
namespace std { 
void terminate() noexcept { __fsx_abort("std::terminate called"); }
void unexpected() { __fsx_abort("std::unexpected called"); }
bool uncaught_exception() noexcept { return eh.uncaught!=0; }
int uncaught_exceptions() noexcept { return (int)eh.uncaught; }
namespace __exception_ptr {
 exception_ptr::exception_ptr(void*p) noexcept { _M_exception_object=p; if(p) hdrOf(p)->refs++; }
 void exception_ptr::_M_addref() noexcept { if(_M_exception_object) hdrOf(_M_exception_object)->refs++; }
 void exception_ptr::_M_release() noexcept { if(_M_exception_object){ relEx(hdrOf(_M_exception_object)); _M_exception_object=0; } }
}
exception_ptr current_exception() noexcept { return eh.caught? exception_ptr(objOf(eh.caught)): exception_ptr(); }
void rethrow_exception(exception_ptr p){ void*o=p._M_exception_object; Hdr*h=hdrOf(o); h->refs++; eh.uncaught++; p._M_release(); __fsx_unwind(o); }
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr*h=(Hdr*)__fsx_malloc(n+64,8); memset(h,0,64); return objOf(h); }
void __cxa_free_exception(void*p) noexcept { __fsx_free(hdrOf(p),8); }
void __cxa_throw(void*p,std::type_info*ti,void(*d)(void*)) { Hdr*h=hdrOf(p); h->ti=ti; h->dtor=d; h->refs=1; h->adj=p; eh.uncaught++; __fsx_unwind(p); }
void* __cxa_begin_catch(void*p) noexcept { Hdr*h=hdrOf(p); h->rethrown=0; if(h->handlers==0){ h->next=eh.caught; eh.caught=h; } h->handlers++; eh.uncaught--; return h->adj; }
void __cxa_end_catch() { Hdr*h=eh.caught; if(!h) return; if(--h->handlers==0){ eh.caught=h->next; if(!h->rethrown) relEx(h); } }
void __cxa_rethrow() { Hdr*h=eh.caught; if(!h) __fsx_abort("rethrow with no exception"); h->rethrown=1; eh.uncaught++; 
  // the handler is left by unwinding through its __cxa_end_catch cleanup, which must not release the object
  __fsx_unwind(objOf(h)); }
void* __cxa_get_exception_ptr(void*p) noexcept { return hdrOf(p)->adj; }
std::type_info* __cxa_current_exception_type() { return eh.caught?(std::type_info*)eh.caught->ti:0; }
void __cxa_pure_virtual(){ __fsx_abort("pure virtual function called"); }
void __cxa_deleted_virtual(){ __fsx_abort("deleted virtual function called"); }
int __gxx_personality_v0(...){ return 0; }
void __cxa_throw_bad_array_new_length(){ throw std::bad_array_new_length(); }
void __cxa_bad_cast(){ throw std::bad_cast(); }
void __cxa_bad_typeid(){ throw std::bad_typeid(); }
void abort(){ __fsx_abort("abort called"); }
void __assert_fail(const char*,const char*,unsigned,const char*){ __fsx_abort("assert failed"); }
void* _ZTVN10__cxxabiv117__class_type_infoE[12]; void* _ZTVN10__cxxabiv120__si_class_type_infoE[12]; void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[12]; void* _ZTVN10__cxxabiv119__pointer_type_infoE[12]; void* _ZTVN10__cxxabiv120__function_type_infoE[12]; void* _ZTVN10__cxxabiv123__fundamental_type_infoE[12]; void* _ZTVN10__cxxabiv116__enum_type_infoE[12]; void* _ZTVN10__cxxabiv117__array_type_infoE[12];
struct FTI { void* vt; const char* name; };
#define FUND(c) FTI _ZTI##c={ &_ZTVN10__cxxabiv123__fundamental_type_infoE[2], #c };
FUND(i) FUND(b) FUND(c) FUND(a) FUND(h) FUND(s) FUND(t) FUND(j) FUND(l) FUND(m) FUND(x) FUND(y) FUND(f) FUND(d) FUND(e) FUND(v)
struct PTI { void* vt; const char* name; unsigned flags; const void* pointee; };
PTI _ZTIPKc={ &_ZTVN10__cxxabiv119__pointer_type_infoE[2],"PKc",1,&_ZTIc }; PTI _ZTIPc={ &_ZTVN10__cxxabiv119__pointer_type_infoE[2],"Pc",0,&_ZTIc }; PTI _ZTIPv={ &_ZTVN10__cxxabiv119__pointer_type_infoE[2],"Pv",0,&_ZTIv };
}
namespace std {
type_info::~type_info(){} bool type_info::__is_pointer_p() const{return false;} bool type_info::__is_function_p() const{return false;} bool type_info::__do_catch(const type_info*,void**,unsigned) const{return false;} bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*,void**) const{return false;}
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static char* dupz(const char*s,size_t n){ char*p=(char*)__fsx_malloc(n+1,8); memcpy(p,s,n); p[n]=0; return p; }
__cow_string::__cow_string(){ _M_p=dupz("",0); } __cow_string::__cow_string(const std::string&s){ _M_p=dupz(s.data(),s.size()); } __cow_string::__cow_string(const char*s,size_t n){ _M_p=dupz(s,n); } __cow_string::__cow_string(const __cow_string&o) noexcept { _M_p=dupz(o._M_p,strlen(o._M_p)); } __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ __fsx_free((void*)_M_p,8); _M_p=dupz(o._M_p,strlen(o._M_p)); } return *this; } __cow_string::~__cow_string(){ __fsx_free((void*)_M_p,8); } __cow_string::__cow_string(__cow_string&&o) noexcept { _M_p=dupz(o._M_p,strlen(o._M_p)); } __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { return *this=(const __cow_string&)o; }
#define EXC(c,b) c::c(const string&s):b(s){} c::c(const char*s):b(s){} c::~c() noexcept {}
logic_error::logic_error(const string&s):_M_msg(s){} logic_error::logic_error(const char*s):_M_msg(s,strlen(s)){} logic_error::logic_error(logic_error&&o) noexcept:_M_msg(o._M_msg){} logic_error::logic_error(const logic_error&o) noexcept:exception(o),_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error&o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string&s):_M_msg(s){} runtime_error::runtime_error(const char*s):_M_msg(s,strlen(s)){} runtime_error::runtime_error(runtime_error&&o) noexcept:_M_msg(o._M_msg){} runtime_error::runtime_error(const runtime_error&o) noexcept:exception(o),_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error&o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error,logic_error) EXC(invalid_argument,logic_error) EXC(length_error,logic_error) EXC(out_of_range,logic_error) EXC(range_error,runtime_error) EXC(overflow_error,runtime_error) EXC(underflow_error,runtime_error)
system_error::~system_error() noexcept {}
regex_error::regex_error(regex_constants::error_type e):runtime_error("regex_error"),_M_code(e){} regex_error::~regex_error() noexcept {}
void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); } void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); } void __throw_ios_failure(const char*s){ throw ios_base::failure(s); } void __throw_ios_failure(const char*s,int){ throw ios_base::failure(s); } void __throw_bad_function_call(){ throw bad_function_call(); } void __throw_regex_error(regex_constants::error_type e){ throw regex_error(e); } void __throw_system_error(int e){ throw system_error(e,generic_category()); }
// system_error support
error_category::~error_category() = default; 
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
bool error_category::equivalent(int i,const error_condition&c) const noexcept { return default_error_condition(i)==c; } bool error_category::equivalent(const error_code&c,int i) const noexcept { return *this==c.category()&&c.value()==i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error",5); }
namespace { struct GenCat:error_category { const char*name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } __cow_string _M_message(int) const override { return __cow_string("error",5); } }; }
static GenCat gencat,syscat,ioscat; 
inline namespace _V2 { const error_category& generic_category() noexcept { return gencat; } const error_category& system_category() noexcept { return syscat; } }
const error_category& iostream_category() noexcept { return ioscat; }
error_condition error_code::default_error_condition() const noexcept { return error_condition(_M_value,*_M_cat); }
ios_base::failure::failure(const string&s):system_error(io_errc::stream,s){} ios_base::failure::failure(const string&s,const error_code&e):system_error(e,s){} ios_base::failure::failure(const char*s,const error_code&e):system_error(e,s){} ios_base::failure::~failure(){} const char* ios_base::failure::what() const noexcept { return runtime_error::what(); }
}
// ------------------------------------------------------------------ containers
namespace std { namespace __detail {
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { auto*t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::_M_hook(_List_node_base*const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { auto*n=this->_M_next; auto*p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,5,11,23,47,97,199,409,823,1741,3739,7517}; for(size_t p:pr) if(p>=n){ _M_next_resize=(size_t)(p*(double)_M_max_load_factor); return p; } _M_next_resize=15000; return 15013; }
std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t mn=std::max(ne+ni,_M_next_resize?0ul:11ul); if(mn>=nb) return {true,_M_next_bkt(std::max(mn+1,nb*2))}; _M_next_resize=nb; return {false,0}; } return {false,0}; }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ size_t h=seed; const char*c=(const char*)p; for(size_t i=0;i<n;i++) h=h*131+(unsigned char)c[i]; return h; }
static _Rb_tree_node_base* rbinc(_Rb_tree_node_base*x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { auto*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static _Rb_tree_node_base* rbdec(_Rb_tree_node_base*x) throw(){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ auto*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { auto*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) throw() { return rbinc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) throw() { return rbinc(const_cast<_Rb_tree_node_base*>(x)); } _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) throw() { return rbdec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) throw() { return rbdec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ auto*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotR(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ auto*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw() { auto*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ auto*xpp=x->_M_parent->_M_parent; if(x->_M_parent==xpp->_M_left){ auto*y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotL(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotR(xpp,root); } } else { auto*y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotR(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotL(xpp,root); } } }
  root->_M_color=_S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw() { auto*&root=h._M_parent; auto*&leftmost=h._M_left; auto*&rightmost=h._M_right; auto*y=z; _Rb_tree_node_base*x=0; _Rb_tree_node_base*xp=0; if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(leftmost==z){ if(!z->_M_right) leftmost=z->_M_parent; else { auto*t=x; while(t->_M_left) t=t->_M_left; leftmost=t; } } if(rightmost==z){ if(!z->_M_left) rightmost=z->_M_parent; else { auto*t=x; while(t->_M_right) t=t->_M_right; rightmost=t; } } }
  if(y->_M_color!=_S_red){ while(x!=root&&(!x||x->_M_color==_S_black)) if(x==xp->_M_left){ auto*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotL(xp,root); w=xp->_M_right; } if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotR(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotL(xp,root); break; } } else { auto*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotR(xp,root); w=xp->_M_left; } if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotL(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotR(xp,root); break; } } if(x) x->_M_color=_S_black; }
  return y; }
}
// ------------------------------------------------------------------ filesystem::path (the text only, nothing touches a disk)
namespace std::filesystem { inline namespace __cxx11 {
struct path::_List::_Impl { std::vector<path::_Cmpt> v; };
using PL_=path::_List; static PL_::_Impl* pimpl(const PL_&l){ return reinterpret_cast<PL_::_Impl*>(reinterpret_cast<uintptr_t>(l._M_impl.get())&~(uintptr_t)3); }
void PL_::_Impl_deleter::operator()(_Impl*p) const noexcept { auto q=reinterpret_cast<_Impl*>(reinterpret_cast<uintptr_t>(p)&~(uintptr_t)3); if(q) delete q; }
path::_List::_List(): _M_impl(reinterpret_cast<_Impl*>(_Type::_Filename)) {}
path::_List::_List(const _List&o) { if(auto p=pimpl(o)){ auto n=new _Impl(*p); _M_impl.reset(reinterpret_cast<_Impl*>(reinterpret_cast<uintptr_t>(n)|(uintptr_t)o.type())); } else type(o.type()); }
path::_List& path::_List::operator=(const _List&o) { if(this!=&o){ _List t(o); swap(t); } return *this; }
void path::_List::type(_Type t) noexcept { auto p=reinterpret_cast<uintptr_t>(_M_impl.release())&~(uintptr_t)3; if(p&&t!=_Type::_Multi){ delete reinterpret_cast<_Impl*>(p); p=0; } _M_impl.reset(reinterpret_cast<_Impl*>(p|(uintptr_t)t)); }
int path::_List::size() const noexcept { auto p=pimpl(*this); return p?(int)p->v.size():0; } bool path::_List::empty() const noexcept { return size()==0; } void path::_List::clear() { if(auto p=pimpl(*this)) p->v.clear(); }
path::_List::iterator path::_List::begin() noexcept { return pimpl(*this)->v.data(); } path::_List::iterator path::_List::end() noexcept { auto&v=pimpl(*this)->v; return v.data()+v.size(); }
path::_List::const_iterator path::_List::begin() const noexcept { return pimpl(*this)->v.data(); } path::_List::const_iterator path::_List::end() const noexcept { auto&v=pimpl(*this)->v; return v.data()+v.size(); }
path::path(basic_string_view<char> s,_Type t): _M_pathname(s) { _M_cmpts.type(t); }
path::_Cmpt::_Cmpt(basic_string_view<char> s,_Type t,size_t pos): path(s,t), _M_pos(pos) {}
void path::_M_split_cmpts() { const std::string&s=_M_pathname; size_t n=s.size(), i=0; while(i<n&&s[i]=='/') i++; if(i&&i==n){ _M_cmpts.type(_Type::_Root_dir); return; } if(s.find('/')==std::string::npos){ _M_cmpts.type(_Type::_Filename); return; }
  auto l=new _List::_Impl; if(i) l->v.emplace_back(basic_string_view<char>("/",1),_Type::_Root_dir,i-1);
  while(i<n){ size_t k=i; while(k<n&&s[k]!='/') k++; l->v.emplace_back(basic_string_view<char>(s.data()+i,k-i),_Type::_Filename,i); i=k; while(i<n&&s[i]=='/') i++; }
  if(s[n-1]=='/') l->v.emplace_back(basic_string_view<char>(),_Type::_Filename,n);
  _M_cmpts._M_impl.reset(l); }
pair<const std::string*,size_t> path::_M_find_extension() const noexcept { const std::string*s=nullptr; if(_M_type()==_Type::_Filename) s=&_M_pathname; else if(_M_type()==_Type::_Multi&&!_M_cmpts.empty()){ const auto&c=*(_M_cmpts.end()-1); if(c._M_type()==_Type::_Filename) s=&c._M_pathname; }
  if(s&&s->size()){ if(s->size()<=2&&(*s)[0]=='.') return {s,std::string::npos}; size_t p=s->rfind('.'); return {s,p?p:string::npos}; } return {}; }
path path::parent_path() const { const std::string&s=_M_pathname; size_t n=s.size(), p=s.rfind('/'); if(p==std::string::npos) return path(); if(_M_type()==_Type::_Root_dir) return *this; while(p>0&&s[p-1]=='/') p--; if(p==0){ size_t r=0; while(r<n&&s[r]=='/') r++; return path(s.substr(0,r)); } return path(s.substr(0,p)); }
bool path::has_filename() const noexcept { return !_M_pathname.empty()&&_M_pathname.back()!='/'; } bool path::has_parent_path() const noexcept { return !parent_path().empty(); } bool path::has_root_directory() const noexcept { return !_M_pathname.empty()&&_M_pathname[0]=='/'; }
int path::compare(const path&o) const noexcept { if(has_root_directory()!=o.has_root_directory()) return has_root_directory()?1:-1; auto next=[](const std::string&s,size_t&i){ while(i<s.size()&&s[i]=='/') i++; size_t k=i; while(k<s.size()&&s[k]!='/') k++; std::string r=s.substr(i,k-i); i=k; return r; }; auto more=[](const std::string&s,size_t i){ return i<s.size(); }; size_t i=0,j=0; const std::string&a=_M_pathname,&b=o._M_pathname; while(more(a,i)&&more(b,j)){ std::string x=next(a,i), y=next(b,j); if(int c=x.compare(y)) return c; } return more(a,i)?1:more(b,j)?-1:0; }
int path::compare(basic_string_view<char> s) const noexcept { return compare(path(s)); }
path& path::operator/=(const path&o) { if(o.has_root_directory()){ if(this!=&o) *this=o; return *this; } std::string t=_M_pathname; if(has_filename()) t+='/'; t+=o._M_pathname; _M_pathname.swap(t); _M_split_cmpts(); return *this; }
path& path::operator=(const path&o) { if(this!=&o){ _M_pathname=o._M_pathname; _M_cmpts=o._M_cmpts; } return *this; }
} }
// ------------------------------------------------------------------ C library
extern "C" {
static int errno_v; int* __errno_location() noexcept { return &errno_v; }
int strcmp(const char*a,const char*b) noexcept { while(*a&&*a==*b){a++;b++;} return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n) noexcept { for(;n;n--,a++,b++){ if(*a!=*b) return (unsigned char)*a-(unsigned char)*b; if(!*a) return 0; } return 0; }
char* strcpy(char*d,const char*s) noexcept { char*r=d; while((*d++=*s++)); return r; }
char* strncpy(char*d,const char*s,size_t n) noexcept { size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s) noexcept { strcpy(d+strlen(d),s); return d; }
char* fsx_strchr(const char*s,int c) noexcept __asm__("strchr"); char* fsx_strchr(const char*s,int c) noexcept { for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* fsx_strrchr(const char*s,int c) noexcept __asm__("strrchr"); char* fsx_strrchr(const char*s,int c) noexcept { const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; } int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; } int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; } int pthread_rwlock_init(pthread_rwlock_t*m,const pthread_rwlockattr_t*) noexcept { memset(m,0,sizeof *m); return 0; }
char* strdup(const char*s) noexcept { size_t n=strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
static int isspc(int c){ return c==' '||(c>=9&&c<=13); }
static unsigned long long strtoX(const char*s,char**e,int base,bool sg,unsigned long long lim,unsigned long long limneg,bool&over,bool&neg){ const char*p=s; neg=false; over=false; while(isspc((unsigned char)*p)) p++; if(*p=='-'){neg=true;p++;} else if(*p=='+') p++; if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')){ p+=2; base=16; } else if(base==0) base=*p=='0'?8:10; unsigned long long v=0; bool any=false; unsigned long long L=neg?limneg:lim; while(1){ int c=(unsigned char)*p,d; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; any=true; if(!over){ unsigned long long q=L/base; if(v>q||(v==q&&(unsigned long long)d>L%base)) over=true; else v=v*base+d; } p++; } if(e) *e=(char*)(any?p:s); if(over) v=L; return v; }
long long strtoll(const char*s,char**e,int b) noexcept { bool o,n; unsigned long long v=strtoX(s,e,b,true,9223372036854775807ull,9223372036854775808ull,o,n); if(o) errno_v=34; return n?(long long)(0-v):(long long)v; }
long strtol(const char*s,char**e,int b) noexcept { return strtoll(s,e,b); }
unsigned long long strtoull(const char*s,char**e,int b) noexcept { bool o,n; unsigned long long v=strtoX(s,e,b,false,18446744073709551615ull,18446744073709551615ull,o,n); if(o){ errno_v=34; return v; } return n?0-v:v; }
unsigned long strtoul(const char*s,char**e,int b) noexcept { return strtoull(s,e,b); }
int isspace(int c) noexcept { return isspc(c); } int isdigit(int c) noexcept { return c>='0'&&c<='9'; } int isalpha(int c) noexcept { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int isalnum(int c) noexcept { return isdigit(c)||isalpha(c); } int tolower(int c) noexcept { return c>='A'&&c<='Z'?c+32:c; } int toupper(int c) noexcept { return c>='a'&&c<='z'?c-32:c; } int isupper(int c) noexcept { return c>='A'&&c<='Z'; } int islower(int c) noexcept { return c>='a'&&c<='z'; } int isprint(int c) noexcept { return c>=32&&c<127; } int ispunct(int c) noexcept { return isprint(c)&&c!=' '&&!isalnum(c); }
int isxdigit(int c) noexcept { return isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int iscntrl(int c) noexcept { return (c>=0&&c<32)||c==127; } int isgraph(int c) noexcept { return c>32&&c<127; } int isblank(int c) noexcept { return c==' '||c==9; }
int fsx_atoi(const char*s) noexcept __asm__("atoi"); int fsx_atoi(const char*s) noexcept { return (int)strtol(s,0,10); } long fsx_atol(const char*s) noexcept __asm__("atol"); long fsx_atol(const char*s) noexcept { return strtol(s,0,10); } long long fsx_atoll(const char*s) noexcept __asm__("atoll"); long long fsx_atoll(const char*s) noexcept { return strtoll(s,0,10); } double fsx_atof(const char*s) noexcept __asm__("atof"); double fsx_atof(const char*s) noexcept { return strtod(s,0); }
float strtof(const char*s,char**e) noexcept { return (float)strtod(s,e); } long double strtold(const char*s,char**e) noexcept { return strtod(s,e); }
size_t strnlen(const char*s,size_t n) noexcept { size_t k=0; while(k<n&&s[k]) k++; return k; }
size_t strspn(const char*s,const char*a) noexcept { size_t k=0; for(;s[k];k++){ const char*p=a; while(*p&&*p!=s[k]) p++; if(!*p) break; } return k; } size_t strcspn(const char*s,const char*a) noexcept { size_t k=0; for(;s[k];k++){ const char*p=a; while(*p&&*p!=s[k]) p++; if(*p) break; } return k; }
char* fsx_strpbrk(const char*s,const char*a) noexcept __asm__("strpbrk"); char* fsx_strpbrk(const char*s,const char*a) noexcept { s+=strcspn(s,a); return *s?(char*)s:0; }
char* fsx_strstr(const char*h,const char*n) noexcept __asm__("strstr"); char* fsx_strstr(const char*h,const char*n) noexcept { size_t k=strlen(n); for(;;h++){ if(strncmp(h,n,k)==0) return (char*)h; if(!*h) return 0; } }
char* strncat(char*d,const char*s,size_t n) noexcept { char*r=d; d+=strlen(d); while(n--&&*s) *d++=*s++; *d=0; return r; }
char* strtok_r(char*s,const char*a,char**sv) noexcept { if(!s) s=*sv; if(!s) return 0; s+=strspn(s,a); if(!*s){ *sv=0; return 0; } char*r=s; s+=strcspn(s,a); if(*s){ *s=0; *sv=s+1; } else *sv=0; return r; } char* strtok(char*s,const char*a) noexcept { static char*sv; return strtok_r(s,a,&sv); }
int strcasecmp(const char*a,const char*b) noexcept { for(;;a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y||!x) return x-y; } } int strncasecmp(const char*a,const char*b,size_t n) noexcept { for(;n;n--,a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y||!x) return x-y; } return 0; }
int abs(int x) noexcept { return x<0?-x:x; } long labs(long x) noexcept { return x<0?-x:x; } long long llabs(long long x) noexcept { return x<0?-x:x; }
char* getenv(const char*) noexcept { return 0; } clock_t clock() noexcept { return 0; }
// sscanf: numbers, characters, strings, sets
static int scan(const char*s,const char*f,va_list va){ const char*b=s; int n=0; for(;*f;f++){ if(isspc((unsigned char)*f)){ while(isspc((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(!*s) return n?n:-1; if(*s!=*f) return n; s++; continue; }
  f++; bool skip=false; if(*f=='*'){ skip=true; f++; } size_t w=0; while(isdigit(*f)) w=w*10+(*f++-'0'); int l=0; while(*f=='l'||*f=='h'||*f=='z'||*f=='j'){ if(*f=='h') l--; else if(*f=='l') l++; else l=2; f++; }
  char c=*f; if(c=='n'){ if(!skip) *va_arg(va,int*)=(int)(s-b); continue; } if(c!='c'&&c!='['&&c!='%') while(isspc((unsigned char)*s)) s++; if(c=='%'){ while(isspc((unsigned char)*s)) s++; if(*s!='%') return n; s++; continue; } if(!*s) return n?n:-1;
  if(c=='d'||c=='i'||c=='u'||c=='x'||c=='X'||c=='o'||c=='f'||c=='g'||c=='e'){ char tmp[48]; size_t k=0, m=w&&w<47?w:47; while(k<m&&s[k]&&!isspc((unsigned char)s[k])){ tmp[k]=s[k]; k++; } tmp[k]=0; char*e=tmp;
    if(c=='f'||c=='g'||c=='e'){ double d=strtod(tmp,&e); if(e==tmp) return n; if(!skip){ if(l>0) *va_arg(va,double*)=d; else *va_arg(va,float*)=(float)d; } }
    else { int base=c=='d'||c=='u'?10:c=='i'?0:c=='o'?8:16; long long v=c=='d'||c=='i'?strtoll(tmp,&e,base):(long long)strtoull(tmp,&e,base); if(e==tmp) return n; if(!skip){ if(l>0) *va_arg(va,long long*)=v; else if(l==0) *va_arg(va,int*)=(int)v; else if(l==-1) *va_arg(va,short*)=(short)v; else *va_arg(va,char*)=(char)v; } }
    s+=e-tmp; if(!skip) n++; continue; }
  char*d=skip?0:va_arg(va,char*);
  if(c=='c'){ if(!w) w=1; for(size_t i=0;i<w;i++){ if(!*s) return n?n:-1; if(d) d[i]=*s; s++; } if(d) n++; continue; }
  bool inv=false; const char*set=0,*end=0; if(c=='['){ f++; if(*f=='^'){ inv=true; f++; } set=f; if(*f==']') f++; while(*f&&*f!=']') f++; end=f; } else if(c!='s') return n;
  size_t k=0; while(s[k]&&(!w||k<w)){ char x=s[k]; bool in; if(set){ in=false; for(const char*q=set;q<end;q++){ if(q+2<end&&q[1]=='-'){ if(x>=q[0]&&x<=q[2]) in=true; q+=2; } else if(*q==x) in=true; } in=in!=inv; } else in=!isspc((unsigned char)x); if(!in) break; if(d) d[k]=x; k++; } if(!k) return n; if(d){ d[k]=0; n++; } s+=k; }
  return n; }
#define SCANF(N) int fsx_##N(const char*,const char*,...) __asm__(#N); int fsx_##N(const char*s,const char*f,...) { va_list va; va_start(va,f); int r=scan(s,f,va); va_end(va); return r; }
SCANF(sscanf) SCANF(__isoc99_sscanf) SCANF(__isoc23_sscanf)
int fsx_vsscanf(const char*,const char*,va_list) __asm__("vsscanf"); int fsx_vsscanf(const char*s,const char*f,va_list va) { return scan(s,f,va); } int fsx_vsscanf99(const char*,const char*,va_list) __asm__("__isoc99_vsscanf"); int fsx_vsscanf99(const char*s,const char*f,va_list va) { return scan(s,f,va); }
static unsigned long fsx_seed=1; void srand(unsigned s) noexcept { fsx_seed=s; } int rand() noexcept { fsx_seed=fsx_seed*6364136223846793005ul+1442695040888963407ul; return (int)(fsx_seed>>33); }
// C standard output: discarded, like the standard streams
struct _IO_FILE; static char io_[3][8]; FILE*fsx_stdin __asm__("stdin")=(FILE*)io_[0]; FILE*fsx_stdout __asm__("stdout")=(FILE*)io_[1]; FILE*fsx_stderr __asm__("stderr")=(FILE*)io_[2];
int printf(const char*,...) { return 1; } int fprintf(FILE*,const char*,...) { return 1; } int fsx_vprintf(const char*,va_list) __asm__("vprintf"); int fsx_vprintf(const char*,va_list) { return 1; } int vfprintf(FILE*,const char*,va_list) { return 1; } int puts(const char*) { return 1; } int fputs(const char*,FILE*) { return 1; } int fsx_putchar(int c) __asm__("putchar"); int fsx_putchar(int c) { return c; } int fputc(int c,FILE*) { return c; } int putc(int c,FILE*) { return c; } size_t fwrite(const void*,size_t,size_t n,FILE*) { return n; } int fflush(FILE*) { return 0; } void perror(const char*) {}
locale_t uselocale(locale_t l) noexcept { return l; } locale_t __uselocale(locale_t l) noexcept { return l; } char* setlocale(int,const char*) noexcept { return (char*)"C"; }
// time: overridable by the harness (weak)
__attribute__((weak)) int gettimeofday(struct timeval*tv,void*) noexcept { tv->tv_sec=1000; tv->tv_usec=0; return 0; }
__attribute__((weak)) time_t time(time_t*t) noexcept { if(t) *t=1000; return 1000; }
__attribute__((weak)) struct tm* localtime_r(const time_t*t,struct tm*r) noexcept { memset(r,0,sizeof *r); r->tm_year=70; r->tm_mday=1; return r; }
__attribute__((weak)) struct tm* localtime(const time_t*t) noexcept { static struct tm r; return localtime_r(t,&r); }
static char* tput(char*d,int v,int w){ char b[12]; int n=0; bool neg=v<0; unsigned u=neg?-(unsigned)v:v; do b[n++]=(char)('0'+u%10); while(u/=10); while(n<w) b[n++]='0'; if(neg) *d++='-'; while(n) *d++=b[--n]; return d; }
static char* tspec(char*d,char c,const struct tm*t){ static const char*const days[]={"Sunday","Monday","Tuesday","Wednesday","Thursday","Friday","Saturday"}; static const char*const mons[]={"January","February","March","April","May","June","July","August","September","October","November","December"};
  switch(c){ case 'Y': return tput(d,t->tm_year+1900,1); case 'm': return tput(d,t->tm_mon+1,2); case 'd': return tput(d,t->tm_mday,2); case 'H': return tput(d,t->tm_hour,2); case 'M': return tput(d,t->tm_min,2); case 'S': return tput(d,t->tm_sec,2); case 'y': return tput(d,t->tm_year%100,2); case 'I': { int h=t->tm_hour%12; return tput(d,h?h:12,2); } case 'e': if(t->tm_mday<10) *d++=' '; return tput(d,t->tm_mday,1); case 'j': return tput(d,t->tm_yday+1,3); case 'p': *d++=t->tm_hour<12?'A':'P'; *d++='M'; return d; case '%': *d++='%'; return d; case 'n': *d++='\n'; return d; case 't': *d++='\t'; return d;
   case 'F': d=tspec(d,'Y',t); *d++='-'; d=tspec(d,'m',t); *d++='-'; return tspec(d,'d',t); case 'T': d=tspec(d,'H',t); *d++=':'; d=tspec(d,'M',t); *d++=':'; return tspec(d,'S',t); case 'R': d=tspec(d,'H',t); *d++=':'; return tspec(d,'M',t); case 'D': d=tspec(d,'m',t); *d++='/'; d=tspec(d,'d',t); *d++='/'; return tspec(d,'y',t);
   case 'a': memcpy(d,days[t->tm_wday%7],3); return d+3; case 'b': case 'h': memcpy(d,mons[t->tm_mon%12],3); return d+3; }
  __fsx_abort("time format not modelled"); }
size_t strftime(char*o,size_t n,const char*f,const struct tm*t) noexcept { char b[64]; size_t k=0; for(;*f;f++){ if(*f!='%'){ if(k+1>=n) return 0; o[k++]=*f; continue; } f++; if(!*f) break; size_t w=tspec(b,*f,t)-b; if(k+w>=n) return 0; memcpy(o+k,b,w); k+=w; } if(k>=n) return 0; o[k]=0; return k; }
__attribute__((weak)) struct tm* gmtime_r(const time_t*t,struct tm*r) noexcept { return localtime_r(t,r); }
__attribute__((weak)) struct tm* gmtime(const time_t*t) noexcept { return localtime(t); }
__attribute__((weak)) int usleep(useconds_t) { return 0; }
__attribute__((weak)) int nanosleep(const struct timespec*,struct timespec*) { return 0; }
__attribute__((weak)) int clock_gettime(clockid_t,struct timespec*t) noexcept { t->tv_sec=1000; t->tv_nsec=0; return 0; }
__attribute__((weak)) unsigned int sleep(unsigned int) { return 0; }
static char* dg2(char*p,int v){ *p++='0'+v/10%10; *p++='0'+v%10; return p; }
}
// chrono clocks
namespace std { namespace chrono { inline namespace _V2 { __attribute__((weak)) system_clock::time_point system_clock::now() noexcept { struct timespec t; clock_gettime(0,&t); return time_point(duration(chrono::seconds(t.tv_sec)+chrono::nanoseconds(t.tv_nsec))); } __attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { struct timespec t; clock_gettime(1,&t); return time_point(duration(chrono::seconds(t.tv_sec)+chrono::nanoseconds(t.tv_nsec))); } } } }
// ------------------------------------------------------------------ threads
namespace std { thread::_State::~_State()=default; condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {} unsigned thread::hardware_concurrency() noexcept { return 4; }
 void __throw_bad_weak_ptr_x(){ throw bad_weak_ptr(); } }
namespace std { template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) { streamsize n=0; eof=true; for(int c=in->sgetc(); c!=char_traits<char>::eof(); c=in->snextc(), ++n) if(out->sputc((char)c)==char_traits<char>::eof()) { eof=false; break; } return n; } }
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy(void){ std::__once_call(); }
extern "C" int pthread_once(pthread_once_t*c,void(*f)(void)){ auto*g=(__cxxabiv1::__guard*)c; if(__cxxabiv1::__cxa_guard_acquire(g)){ try { f(); } catch(...) { __cxxabiv1::__cxa_guard_abort(g); throw; } __cxxabiv1::__cxa_guard_release(g); } return 0; }
extern "C" void fsx_thread_main(std::thread::_State*s){ s->_M_run(); delete s; }
namespace std { namespace this_thread { void __sleep_for(chrono::seconds,chrono::nanoseconds){} } }
// ------------------------------------------------------------------ locale
namespace std {
enum { NF=64 };
static const locale::facet* facets_[NF]; static const locale::facet* caches_[NF]; static size_t nextId;
alignas(locale::_Impl) static char implbuf[sizeof(locale::_Impl)]; alignas(locale) static char classicbuf[sizeof(locale)];
locale::_Impl* locale::_S_classic; locale::_Impl* locale::_S_global;
locale::locale() throw():_M_impl(_S_global) { if((void*)_M_impl!=implbuf) _M_impl->_M_add_reference(); } locale::locale(const locale&o) throw():_M_impl(o._M_impl) { if((void*)_M_impl!=implbuf) _M_impl->_M_add_reference(); } locale::locale(_Impl*i) throw():_M_impl(i){} locale::locale(const char*):_M_impl((_Impl*)implbuf){} locale::~locale() throw() { if((void*)_M_impl!=implbuf) _M_impl->_M_remove_reference(); }
const locale& locale::operator=(const locale&o) throw() { if((void*)o._M_impl!=implbuf) o._M_impl->_M_add_reference(); if((void*)_M_impl!=implbuf) _M_impl->_M_remove_reference(); _M_impl=o._M_impl; return *this; } bool locale::operator==(const locale&o) const throw() { return _M_impl==o._M_impl; } string locale::name() const { return (void*)_M_impl==implbuf?"C":"*"; } const locale& locale::classic(){ return *(const locale*)classicbuf; }
locale locale::global(const locale&l){ locale old; if((void*)l._M_impl!=implbuf) l._M_impl->_M_add_reference(); if((void*)_S_global!=implbuf) _S_global->_M_remove_reference(); _S_global=l._M_impl; return old; }
locale::_Impl::_Impl(const _Impl&o,size_t r):_M_refcount((int)r),_M_facets(new const facet*[NF]),_M_facets_size(NF),_M_caches(new const facet*[NF]),_M_names(new char*[1]) { _M_names[0]=0; for(size_t k=0;k<NF;++k) { _M_facets[k]=o._M_facets[k]; if(_M_facets[k]) _M_facets[k]->_M_add_reference(); _M_caches[k]=0; } }
locale::_Impl::~_Impl() throw() { for(size_t k=0;k<NF;++k) { if(_M_facets[k]) _M_facets[k]->_M_remove_reference(); if(_M_caches[k]) _M_caches[k]->_M_remove_reference(); } delete[] _M_facets; delete[] _M_caches; delete[] _M_names[0]; delete[] _M_names; }
void locale::_Impl::_M_install_facet(const locale::id*d,const facet*f) { size_t k=d->_M_id(); f->_M_add_reference(); if(_M_facets[k]) _M_facets[k]->_M_remove_reference(); _M_facets[k]=f; for(size_t c=0;c<NF;++c) if(_M_caches[c]) { _M_caches[c]->_M_remove_reference(); _M_caches[c]=0; } }
size_t locale::id::_M_id() const throw() { if(!_M_index) _M_index=++nextId; return _M_index-1; }
void locale::_Impl::_M_install_cache(const facet*c,size_t i){ if(_M_caches[i]) delete c; else { c->_M_add_reference(); _M_caches[i]=c; } }
locale::facet::~facet(){} const char* locale::facet::_S_get_c_name() throw() { return "C"; } __c_locale locale::facet::_S_get_c_locale(){ return 0; } __c_locale locale::facet::_S_clone_c_locale(__c_locale&) throw() { return 0; } void locale::facet::_S_create_c_locale(__c_locale&c,const char*,__c_locale){ c=0; } void locale::facet::_S_destroy_c_locale(__c_locale&){} 
locale::id ctype<char>::id; locale::id codecvt<char,char,mbstate_t>::id;
static ctype_base::mask ctab[256];
const ctype_base::mask ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::xdigit, ctype_base::space, ctype_base::print, ctype_base::graph, ctype_base::cntrl, ctype_base::punct, ctype_base::alnum, ctype_base::blank;
static void initTab(){ for(int c=0;c<128;c++){ ctype_base::mask m=0; bool U=c>='A'&&c<='Z',L=c>='a'&&c<='z',D=c>='0'&&c<='9'; if(U) m|=ctype_base::upper; if(L) m|=ctype_base::lower; if(U||L) m|=ctype_base::alpha; if(D) m|=ctype_base::digit; if(D||(c>='a'&&c<='f')||(c>='A'&&c<='F')) m|=ctype_base::xdigit; if(isspc(c)) m|=ctype_base::space; if(c>=32&&c<127) m|=ctype_base::print; if(c>32&&c<127) m|=ctype_base::graph; if(c<32||c==127) m|=ctype_base::cntrl; if(c>32&&c<127&&!U&&!L&&!D) m|=ctype_base::punct; if(c==' '||c=='\t') m|=ctype_base::blank; m|=(U||L||D)?(ctype_base::alnum&~(ctype_base::alpha|ctype_base::digit)):0; ctab[c]=m; } }
ctype<char>::ctype(const mask*t,bool d,size_t r):facet(r),_M_c_locale_ctype(0),_M_del(d),_M_toupper(0),_M_tolower(0),_M_table(t?t:ctab),_M_widen_ok(0),_M_narrow_ok(0){ for(int i=0;i<256;i++){ _M_widen[i]=(char)i; _M_narrow[i]=(char)i; } _M_widen_ok=1; _M_narrow_ok=1; }
ctype<char>::~ctype(){} const ctype_base::mask* ctype<char>::classic_table() throw() { return ctab; } char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); } const char* ctype<char>::do_toupper(char*l,const char*h) const { for(;l<h;l++) *l=do_toupper(*l); return h; } char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); } const char* ctype<char>::do_tolower(char*l,const char*h) const { for(;l<h;l++) *l=do_tolower(*l); return h; } void ctype<char>::_M_widen_init() const { _M_widen_ok=1; } void ctype<char>::_M_narrow_init() const { _M_narrow_ok=1; }
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale){ if(!_M_data) _M_data=new __numpunct_cache<char>; _M_data->_M_grouping=""; _M_data->_M_grouping_size=0; _M_data->_M_use_grouping=false; _M_data->_M_decimal_point='.'; _M_data->_M_thousands_sep=','; for(size_t i=0;i<__num_base::_S_oend;i++) _M_data->_M_atoms_out[i]=__num_base::_S_atoms_out[i]; for(size_t i=0;i<__num_base::_S_iend;i++) _M_data->_M_atoms_in[i]=__num_base::_S_atoms_in[i]; _M_data->_M_truename="true"; _M_data->_M_truename_size=4; _M_data->_M_falsename="false"; _M_data->_M_falsename_size=5; }
template<> numpunct<char>::~numpunct(){ delete _M_data; }
const char* __num_base::_S_atoms_in="-+xX0123456789abcdefABCDEF"; const char* __num_base::_S_atoms_out="-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base&io,char*f,char mod) throw() { auto fl=io.flags(); *f++='%'; if(fl&ios_base::showpos) *f++='+'; if(fl&ios_base::showpoint) *f++='#'; auto ff=fl&ios_base::floatfield; if(ff!=(ios_base::fixed|ios_base::scientific)){ *f++='.'; *f++='*'; } if(mod) *f++=mod; bool up=fl&ios_base::uppercase; if(ff==ios_base::fixed) *f++='f'; else if(ff==ios_base::scientific) *f++=up?'E':'e'; else if(ff==(ios_base::fixed|ios_base::scientific)) *f++=up?'A':'a'; else *f++=up?'G':'g'; *f=0; }
void __convert_to_v_x(){}
template<> void __convert_to_v(const char*s,float&v,ios_base::iostate&e,const __c_locale&) throw() { char*q; double d=strtod(s,&q); v=(float)d; if(q==s||*q) { v=0; e=ios_base::failbit; } }
template<> void __convert_to_v(const char*s,double&v,ios_base::iostate&e,const __c_locale&) throw() { char*q; v=strtod(s,&q); if(q==s||*q){ v=0; e=ios_base::failbit; } }
template<> void __convert_to_v(const char*s,long double&v,ios_base::iostate&e,const __c_locale&) throw() { char*q; v=strtod(s,&q); if(q==s||*q){ v=0; e=ios_base::failbit; } }
bool __verify_grouping(const char*,size_t,const string&) throw() { return true; }
template<> void __timepunct<char>::_M_put(char*o,size_t n,const char*f,const tm*t) const throw() { if(!strftime(o,n,f,t)) *o=0; } template<> void __timepunct<char>::_M_initialize_timepunct(__c_locale){ if(!_M_data) _M_data=new __timepunct_cache<char>; }
template<> int collate<char>::_M_compare(const char*a,const char*b) const throw() { return strcmp(a,b); } template<> size_t collate<char>::_M_transform(char*d,const char*s,size_t n) const throw() { size_t k=strlen(s); if(n){ strncpy(d,s,n); } return k; }
codecvt<char,char,mbstate_t>::codecvt(size_t r):__codecvt_abstract_base<char,char,mbstate_t>(r),_M_c_locale_codecvt(0){} codecvt<char,char,mbstate_t>::~codecvt(){}
codecvt_base::result codecvt<char,char,mbstate_t>::do_out(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; } codecvt_base::result codecvt<char,char,mbstate_t>::do_unshift(state_type&,char*t,char*,char*&tn) const { tn=t; return noconv; } codecvt_base::result codecvt<char,char,mbstate_t>::do_in(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; } int codecvt<char,char,mbstate_t>::do_encoding() const throw() { return 1; } bool codecvt<char,char,mbstate_t>::do_always_noconv() const throw() { return true; } int codecvt<char,char,mbstate_t>::do_length(state_type&,const char*f,const char*e,size_t m) const { return (int)std::min((size_t)(e-f),m); } int codecvt<char,char,mbstate_t>::do_max_length() const throw() { return 1; }
// ------------------------------------------------------------------ istream members kept in the library
nested_exception::~nested_exception() noexcept {}
// ------------------------------------------------------------------ ios_base
const ios_base::fmtflags ios_base::boolalpha, ios_base::dec, ios_base::fixed, ios_base::hex, ios_base::internal, ios_base::left, ios_base::oct, ios_base::right, ios_base::scientific, ios_base::showbase, ios_base::showpoint, ios_base::showpos, ios_base::skipws, ios_base::unitbuf, ios_base::uppercase, ios_base::adjustfield, ios_base::basefield, ios_base::floatfield; const ios_base::iostate ios_base::badbit, ios_base::eofbit, ios_base::failbit, ios_base::goodbit; const ios_base::openmode ios_base::app, ios_base::ate, ios_base::binary, ios_base::in, ios_base::out, ios_base::trunc; const ios_base::seekdir ios_base::beg, ios_base::cur, ios_base::end;
ios_base::ios_base() throw():_M_precision(),_M_width(),_M_flags(),_M_exception(),_M_streambuf_state(),_M_callbacks(0),_M_word_zero(),_M_word_size(_S_local_word_size),_M_word(_M_local_word){} ios_base::~ios_base(){ _M_call_callbacks(erase_event); _M_dispose_callbacks(); } void ios_base::_M_init() throw() { _M_precision=6; _M_width=0; _M_flags=skipws|dec; _M_ios_locale=locale(); } void ios_base::_M_call_callbacks(event) throw(){} void ios_base::_M_dispose_callbacks() throw(){} locale ios_base::imbue(const locale&l) throw() { locale o=_M_ios_locale; _M_ios_locale=l; return o; } bool ios_base::sync_with_stdio(bool){ return true; } void ios_base::_M_swap(ios_base&o) noexcept { std::swap(_M_precision,o._M_precision); std::swap(_M_width,o._M_width); std::swap(_M_flags,o._M_flags); std::swap(_M_exception,o._M_exception); std::swap(_M_streambuf_state,o._M_streambuf_state); } void ios_base::_M_move(ios_base&o) noexcept { _M_precision=o._M_precision; _M_width=o._M_width; _M_flags=o._M_flags; _M_exception=o._M_exception; _M_streambuf_state=o._M_streambuf_state; } ios_base::_Words& ios_base::_M_grow_words(int,bool){ return _M_word_zero; } void ios_base::register_callback(event_callback,int){} int ios_base::xalloc() throw() { static int n; return n++; }
ios_base::Init::Init(){} ios_base::Init::~Init(){} void ios_base_library_init(){} 
// ------------------------------------------------------------------ in-memory files
struct MFile { char name[64]; char* data; size_t n,cap,pos; bool used,wr; };
static MFile mfiles[4];
static char* iname(size_t n){ return (char*)__fsx_malloc(n,9); }
__basic_file<char>::__basic_file(__c_lock*) throw():_M_cfile(0),_M_cfile_created(false){} __basic_file<char>::~__basic_file(){ close(); }
static bool openfail;
__basic_file<char>* __basic_file<char>::open(const char*nm,ios_base::openmode m,int){ if(is_open()||openfail) return 0; MFile*f=0; for(auto&x:mfiles) if(x.used&&strcmp(x.name,nm)==0) f=&x; if(!f){ if(!(m&ios_base::out)) return 0; if(strlen(nm)>60||!*nm) return 0; for(auto&x:mfiles) if(!x.used){ f=&x; break; } if(!f) __fsx_abort("too many files"); f->used=true; strcpy(f->name,nm); f->data=iname(1<<18); f->cap=1<<18; f->n=0; } if((m&ios_base::out)&&!(m&ios_base::app)&&!((m&ios_base::in)&&!(m&ios_base::trunc))) f->n=0; f->pos=(m&ios_base::app)?f->n:0; _M_cfile=(__c_file*)f; _M_cfile_created=true; return this; }
__basic_file<char>* __basic_file<char>::close(){ if(!is_open()) return 0; _M_cfile=0; return this; } bool __basic_file<char>::is_open() const throw() { return _M_cfile!=0; } int __basic_file<char>::fd() throw() { return 3; } 
streamsize __basic_file<char>::xsputn(const char*s,streamsize n){ MFile*f=(MFile*)_M_cfile; if(f->pos+n>f->cap) __fsx_abort("in-memory file too large"); memcpy(f->data+f->pos,s,n); f->pos+=n; if(f->pos>f->n) f->n=f->pos; return n; } streamsize __basic_file<char>::xsputn_2(const char*a,streamsize n,const char*b,streamsize k){ if(n) xsputn(a,n); xsputn(b,k); return n+k; } streamsize __basic_file<char>::xsgetn(char*s,streamsize n){ MFile*f=(MFile*)_M_cfile; streamsize k=std::min<streamsize>(n,f->n-f->pos); memcpy(s,f->data+f->pos,k); f->pos+=k; return k; } streamoff __basic_file<char>::seekoff(streamoff o,ios_base::seekdir w) throw() { MFile*f=(MFile*)_M_cfile; streamoff b= w==ios_base::beg?0: w==ios_base::cur?(streamoff)f->pos:(streamoff)f->n; f->pos=b+o; return f->pos; } int __basic_file<char>::sync(){ return 0; } streamsize __basic_file<char>::showmanyc(){ MFile*f=(MFile*)_M_cfile; return f->n-f->pos; }
}
extern "C" long fsx_file_read(const char*nm,char*buf,long cap){ for(auto&x:std::mfiles) if(x.used&&strcmp(x.name,nm)==0){ long k=(long)x.n<cap?(long)x.n:cap; memcpy(buf,x.data,k); return (long)x.n; } return -1; }
// ------------------------------------------------------------------ standard streams (discarding sinks until redirected)
namespace { struct Sink:std::streambuf { int_type overflow(int_type c) override { return c==traits_type::eof()?0:c; } std::streamsize xsputn(const char*,std::streamsize n) override { return n; } int sync() override { return 0; } }; }
alignas(std::ostream) char g_cout[sizeof(std::ostream)] asm("_ZSt4cout"); alignas(std::ostream) char g_cerr[sizeof(std::ostream)] asm("_ZSt4cerr"); alignas(std::ostream) char g_clog[sizeof(std::ostream)] asm("_ZSt4clog"); alignas(std::istream) char g_cin[sizeof(std::istream)] asm("_ZSt3cin");
alignas(Sink) static char sinks[4][sizeof(Sink)];
alignas(8) static char fbuf[9][sizeof(std::ctype<char>)+64];
__attribute__((constructor(101))) static void fsx_rt_init(){ using namespace std; initTab(); auto*im=(locale::_Impl*)implbuf; im->_M_refcount=1000; im->_M_facets=facets_; im->_M_facets_size=NF; im->_M_caches=caches_; im->_M_names=0; locale::_S_classic=im; locale::_S_global=im; new(classicbuf) locale(im);
  facets_[ctype<char>::id._M_id()]=new(fbuf[0]) ctype<char>(0,false,1); facets_[numpunct<char>::id._M_id()]=new(fbuf[1]) numpunct<char>(1); facets_[num_put<char>::id._M_id()]=new(fbuf[2]) num_put<char>(1); facets_[num_get<char>::id._M_id()]=new(fbuf[3]) num_get<char>(1); facets_[codecvt<char,char,mbstate_t>::id._M_id()]=new(fbuf[4]) codecvt<char,char,mbstate_t>(1); facets_[collate<char>::id._M_id()]=new(fbuf[5]) collate<char>(1); facets_[__timepunct<char>::id._M_id()]=new(fbuf[7]) __timepunct<char>(1); facets_[time_put<char>::id._M_id()]=new(fbuf[6]) time_put<char>(1);
  { std::__use_cache<std::__numpunct_cache<char>> uc; uc(locale::classic()); }
  new(sinks[0]) Sink; new(sinks[1]) Sink; new(sinks[2]) Sink; new(sinks[3]) Sink; new(g_cout) ostream((streambuf*)sinks[0]); new(g_cerr) ostream((streambuf*)sinks[1]); ((ostream*)g_cerr)->setf(ios_base::unitbuf); new(g_clog) ostream((streambuf*)sinks[2]); new(g_cin) istream((streambuf*)sinks[3]); ((istream*)g_cin)->tie((ostream*)g_cout); ((ostream*)g_cerr)->tie((ostream*)g_cout); }
// ------------------------------------------------------------------ instantiations of the real libstdc++ templates
namespace std {
template class basic_string<char>; template basic_string<char>::basic_string(const char*,const allocator<char>&); template basic_string<char> operator+(const char*,const basic_string<char>&); template basic_string<char> operator+(char,const basic_string<char>&); template bool operator==(const char*,const basic_string<char>&);
template basic_istream<char>& operator>>(basic_istream<char>&,basic_string<char>&); template basic_ostream<char>& operator<<(basic_ostream<char>&,const basic_string<char>&); template basic_istream<char>& getline(basic_istream<char>&,basic_string<char>&,char); template basic_istream<char>& getline(basic_istream<char>&,basic_string<char>&);
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>; template class basic_stringbuf<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_stringstream<char>; template class basic_filebuf<char>; template class basic_ofstream<char>; template class basic_ifstream<char>; template class basic_fstream<char>;
template basic_ostream<char>& operator<<(basic_ostream<char>&,char); template basic_ostream<char>& operator<<(basic_ostream<char>&,unsigned char); template basic_ostream<char>& operator<<(basic_ostream<char>&,signed char); template basic_ostream<char>& operator<<(basic_ostream<char>&,const char*); template basic_ostream<char>& operator<<(basic_ostream<char>&,const unsigned char*); template basic_ostream<char>& endl(basic_ostream<char>&); template basic_ostream<char>& ends(basic_ostream<char>&); template basic_ostream<char>& flush(basic_ostream<char>&);
template basic_ostream<char>& basic_ostream<char>::_M_insert(long); template basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long); template basic_ostream<char>& basic_ostream<char>::_M_insert(bool); template basic_ostream<char>& basic_ostream<char>::_M_insert(long long); template basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long long); template basic_ostream<char>& basic_ostream<char>::_M_insert(double); template basic_ostream<char>& basic_ostream<char>::_M_insert(long double); template basic_ostream<char>& basic_ostream<char>::_M_insert(const void*);
template basic_istream<char>& basic_istream<char>::_M_extract(unsigned short&); template basic_istream<char>& basic_istream<char>::_M_extract(unsigned int&); template basic_istream<char>& basic_istream<char>::_M_extract(long&); template basic_istream<char>& basic_istream<char>::_M_extract(unsigned long&); template basic_istream<char>& basic_istream<char>::_M_extract(bool&); template basic_istream<char>& basic_istream<char>::_M_extract(long long&); template basic_istream<char>& basic_istream<char>::_M_extract(unsigned long long&); template basic_istream<char>& basic_istream<char>::_M_extract(double&); template basic_istream<char>& basic_istream<char>::_M_extract(float&); template basic_istream<char>& ws(basic_istream<char>&); template basic_istream<char>& operator>>(basic_istream<char>&,char&); template basic_istream<char>& operator>>(basic_istream<char>&,unsigned char&);
template basic_ostream<char>& operator<<(basic_ostream<char>&,_Setw); template basic_ostream<char>& operator<<(basic_ostream<char>&,_Setfill<char>); template basic_ostream<char>& operator<<(basic_ostream<char>&,_Setprecision); template basic_ostream<char>& operator<<(basic_ostream<char>&,_Setbase); template basic_ostream<char>& operator<<(basic_ostream<char>&,_Setiosflags); template basic_ostream<char>& operator<<(basic_ostream<char>&,_Resetiosflags);
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&,const char*,streamsize); template class numpunct<char>; template class num_put<char>; template class num_get<char>; template class collate<char>; template class time_put<char>; template class __timepunct<char>; template class __timepunct_cache<char>;
}
// ---- explicit specialisations libstdc++ keeps in its library (istream-string extraction) ----
namespace std {
template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) {
  size_t got = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, false);
  if (ok) { try {
    str.erase(); const streamsize w = in.width(); const size_t n = w > 0 ? (size_t)w : str.max_size(); const ctype<char>& ct = use_facet<ctype<char>>(in.getloc());
    streambuf* sb = in.rdbuf(); int c = sb->sgetc();
    while (got < n && c != EOF && !ct.is(ctype_base::space, (char)c)) { str += (char)c; ++got; c = sb->snextc(); }
    if (got < n && c == EOF) err |= ios_base::eofbit; in.width(0);
  } catch (...) { in._M_setstate(ios_base::badbit); } }
  if (!got) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
template<> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim) {
  size_t got = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, true);
  if (ok) { try {
    str.erase(); streambuf* sb = in.rdbuf(); int c = sb->sgetc();
    while (c != EOF && (char)c != delim) { str += (char)c; ++got; c = sb->snextc(); }
    if (c == EOF) err |= ios_base::eofbit; else { ++got; sb->sbumpc(); }
  } catch (...) { in._M_setstate(ios_base::badbit); } }
  if (!got) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
}
// the free functions for atomic access to a shared_ptr take a lock of the library
#include <bits/shared_ptr_atomic.h>
static pthread_mutex_t spMtx=PTHREAD_MUTEX_INITIALIZER;
std::_Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&spMtx); }
std::_Sp_locker::_Sp_locker(const void*,const void*) noexcept { pthread_mutex_lock(&spMtx); }
std::_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&spMtx); }
