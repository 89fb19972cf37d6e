// fsx: expression DAG (hash-consed bit-vector terms), simplifier, evaluator, z3 lowering.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>
typedef unsigned __int128 u128; typedef __int128 i128; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FNAN, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FEXT, O_FTRUNC, O_FRND };

struct Expr { Op op; u32 w; u32 aux; const Expr *a,*b,*c; u128 val; u32 id; std::vector<u32>* vars; mutable Z3_ast zb, zv; mutable u64 estamp; mutable u128 ev; };
typedef const Expr* E;

static inline u128 maskw(u32 w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sextw(u128 v,u32 w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^m)-m); }

struct ExprPool {
  std::unordered_multimap<u64,Expr*> tab; std::vector<Expr*> all;
  std::vector<std::pair<std::string,u32>> syms; // name,width
  std::unordered_map<std::string,u32> symIdx;
  static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdULL; }
  E mk(Op op,u32 w,E a=0,E b=0,E c=0,u32 aux=0,u128 val=0){
    u64 h=mix(mix(mix(mix(mix(mix(op,w),(u64)a),(u64)b),(u64)c),aux),mix((u64)val,(u64)(val>>64)));
    auto r=tab.equal_range(h);
    for(auto i=r.first;i!=r.second;++i){ Expr*e=i->second; if(e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->aux==aux&&e->val==val) return e; }
    Expr*e=new Expr{op,w,aux,a,b,c,val,(u32)all.size(),nullptr,nullptr,nullptr,0,0};
    if(op==O_SYM){ e->vars=new std::vector<u32>{aux}; }
    else { std::vector<u32>*best=nullptr; bool same=true; const Expr* ks[3]={a,b,c}; for(auto k:ks) if(k&&k->vars){ if(!best) best=k->vars; else if(best!=k->vars){ if(*best!=*k->vars) same=false; } }
      if(best){ if(same) e->vars=best; else { auto*v=new std::vector<u32>; for(auto k:ks) if(k&&k->vars){ std::vector<u32> t; std::set_union(v->begin(),v->end(),k->vars->begin(),k->vars->end(),std::back_inserter(t)); v->swap(t);} e->vars=v; } } }
    all.push_back(e); tab.emplace(h,e); return e; }
};
extern ExprPool P;
static inline E kc(u128 v,u32 w){ return P.mk(O_CONST,w,0,0,0,0,v&maskw(w)); }
static inline bool isc(E e){ return e->op==O_CONST; }
static inline E ksym(const std::string&name,u32 w){ auto it=P.symIdx.find(name); u32 i; if(it==P.symIdx.end()){ i=P.syms.size(); P.syms.push_back({name,w}); P.symIdx[name]=i; } else i=it->second; return P.mk(O_SYM,w,0,0,0,i); }

// floating-point helpers on bit patterns (32/64/80)
static inline long double f_of(u128 v,u32 w){ if(w==32){float f; u32 t=(u32)v; memcpy(&f,&t,4); return f;} if(w==64){double d; u64 t=(u64)v; memcpy(&d,&t,8); return d;} long double l=0; memcpy(&l,&v,10); return l; }
static inline u128 f_to(long double x,u32 w){ if(w==32){float f=(float)x; u32 t; memcpy(&t,&f,4); return t;} if(w==64){double d=(double)x; u64 t; memcpy(&t,&d,8); return t;} u128 v=0; memcpy(&v,&x,10); return v; }
static inline u128 f_bin(Op op,u128 a,u128 b,u32 w){
  if(w==64){ double x,y,r; u64 t=(u64)a; memcpy(&x,&t,8); t=(u64)b; memcpy(&y,&t,8); switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;default:r=x/y;} memcpy(&t,&r,8); return t; }
  if(w==32){ float x,y,r; u32 t=(u32)a; memcpy(&x,&t,4); t=(u32)b; memcpy(&y,&t,4); switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;default:r=x/y;} memcpy(&t,&r,4); return t; }
  long double x=f_of(a,w),y=f_of(b,w),r; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;default:r=x/y;} return f_to(r,w); }

// concrete semantics of every operator (shared by the constant folder and the model evaluator)
static inline u128 opval(Op op,u32 w,u32 aux,u128 a,u32 wa,u128 b,u32 wb,u128 c){
  u128 m=maskw(w);
  switch(op){
  case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
  case O_UDIV: return b==0? m : a/b; case O_UREM: return b==0? a : a%b;
  case O_SDIV: { i128 x=sextw(a,w),y=sextw(b,w); if(y==0) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
  case O_SREM: { i128 x=sextw(a,w),y=sextw(b,w); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
  case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
  case O_SHL: return b>=w?0:(a<<(u32)b)&m; case O_LSHR: return b>=w?0:a>>(u32)b; case O_ASHR: { i128 x=sextw(a,w); u32 s=b>=w? w-1:(u32)b; return (u128)(x>>s)&m; }
  case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b; case O_SLT: return sextw(a,wa)<sextw(b,wb); case O_SLE: return sextw(a,wa)<=sextw(b,wb);
  case O_ITE: return a? b:c; case O_CONCAT: return ((a<<wb)|b)&m; case O_EXTRACT: return (a>>aux)&m; case O_ZEXT: return a; case O_SEXT: return (u128)sextw(a,wa)&m;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return f_bin(op,a,b,w)&m;
  case O_FEQ: return f_of(a,wa)==f_of(b,wb); case O_FLT: return f_of(a,wa)<f_of(b,wb); case O_FLE: return f_of(a,wa)<=f_of(b,wb); case O_FNAN: return std::isnan(f_of(a,wa));
  case O_FTOSI: { long double x=f_of(a,wa); if(std::isnan(x)||std::fabs(x)>=9.3e18L) return w==32?(u128)0x80000000u:((u128)1<<63)&m; i128 r=(i128)x; if(w==64&&(r> (i128)INT64_MAX||r<(i128)INT64_MIN)) return (u128)1<<63; if(w==32&&(r>(i128)INT32_MAX||r<(i128)INT32_MIN)) return 0x80000000u; return (u128)r&m; }
  case O_FTOUI: { long double x=f_of(a,wa); if(std::isnan(x)||x<=-1||x>=1.8446744073709551616e19L) return ((u128)1<<63)&m; return (u128)(u64)x&m; }
  case O_SITOF: { i128 x=sextw(a,wa); if(w==64){double d=(double)x; u64 t; memcpy(&t,&d,8); return t;} if(w==32){ float f=(float)x; u32 t; memcpy(&t,&f,4); return t;} return f_to((long double)x,w); }
  case O_UITOF: { if(w==64){double d=(double)a; u64 t; memcpy(&t,&d,8); return t;} if(w==32){ float f=(float)a; u32 t; memcpy(&t,&f,4); return t;} return f_to((long double)a,w); }
  case O_FEXT: case O_FTRUNC: return f_to(f_of(a,wa),w);
  case O_FRND: { long double x=f_of(a,wa); switch(aux){case 0:x=floorl(x);break;case 1:x=ceill(x);break;case 2:x=truncl(x);break;case 3:x=roundl(x);break;default:x=rintl(x);} return f_to(x,w); }
  default: return 0; }
}
E mkE(Op op,u32 w,E a,E b=0,E c=0,u32 aux=0);
static inline E mkNot(E a){ return mkE(O_XOR,1,a,kc(1,1)); }
static inline E mkEx(E a,u32 lo,u32 w){ if(lo==0&&w==a->w) return a; return mkE(O_EXTRACT,w,a,0,0,lo); }
static inline E mkZ(E a,u32 w){ return w==a->w?a:mkE(O_ZEXT,w,a); }
static inline E mkS(E a,u32 w){ return w==a->w?a:mkE(O_SEXT,w,a); }
static inline E mkAnd(E a,E b){ return mkE(O_AND,a->w,a,b); }
static inline E mkOr(E a,E b){ return mkE(O_OR,a->w,a,b); }
static inline E mkEq(E a,E b){ return mkE(O_EQ,1,a,b); }
static inline E mkIte(E c,E a,E b){ return mkE(O_ITE,a->w,c,a,b); }
