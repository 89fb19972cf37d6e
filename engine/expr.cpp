#include "expr.h"
ExprPool P;
static bool isNotOf(E a,E b){ return a->op==O_XOR&&a->w==1&&isc(a->b)&&a->b->val==1&&a->a==b; }
static E mkE0(Op op,u32 w,E a,E b,E c,u32 aux);
static std::unordered_map<u64,E> exMemo; // extraction descends into shared terms: without a memo that is exponential
E mkE(Op op,u32 w,E a,E b,E c,u32 aux){
  if(op!=O_EXTRACT||isc(a)||a->op==O_SYM||a->id>=(1u<<28)||w>127||aux>127) return mkE0(op,w,a,b,c,aux);
  u64 k=((u64)a->id<<14)|(w<<7)|aux; auto it=exMemo.find(k); if(it!=exMemo.end()) return it->second; E r=mkE0(op,w,a,b,c,aux); exMemo[k]=r; return r; }
static E mkE0(Op op,u32 w,E a,E b,E c,u32 aux){
  bool ca=a&&isc(a), cb=!b||isc(b), cc=!c||isc(c);
  if(ca&&cb&&cc) return kc(opval(op,w,aux,a->val,a->w,b?b->val:0,b?b->w:0,c?c->val:0),w);
  // commutative: constant to the right
  switch(op){ case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: if(isc(a)||(!isc(b)&&a->id>b->id&&!isc(b))) std::swap(a,b); break; default:; }
  u128 m=maskw(w);
  bool kb=b&&isc(b); u128 bv=kb?b->val:0;
  switch(op){
  case O_ADD: if(kb){ if(bv==0) return a; if(a->op==O_ADD&&isc(a->b)) return mkE(O_ADD,w,a->a,kc(a->b->val+bv,w)); if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return mkIte(a->a,kc(a->b->val+bv,w),kc(a->c->val+bv,w)); } 
    else { if(a->op==O_ADD&&isc(a->b)) return mkE(O_ADD,w,mkE(O_ADD,w,a->a,b),a->b); if(b->op==O_ADD&&isc(b->b)) return mkE(O_ADD,w,mkE(O_ADD,w,a,b->a),b->b); }
    break;
  case O_SUB: if(a==b) return kc(0,w); if(kb) return mkE(O_ADD,w,a,kc((u128)0-bv,w));
    if(a->op==O_ADD&&isc(a->b)&&a->a==b) return a->b; if(b->op==O_ADD&&isc(b->b)&&b->a==a) return kc((u128)0-b->b->val,w);
    if(a->op==O_ADD&&b->op==O_ADD&&isc(a->b)&&isc(b->b)&&a->a==b->a) return kc(a->b->val-b->b->val,w); break;
  case O_MUL: if(kb){ if(bv==0) return b; if(bv==1) return a; if((bv&(bv-1))==0){ u32 s=0; while(!((bv>>s)&1)) s++; return mkE(O_SHL,w,a,kc(s,w)); } } break;
  case O_UDIV: if(kb&&bv==1) return a; if(kb&&bv&&(bv&(bv-1))==0){ u32 s=0; while(!((bv>>s)&1)) s++; return mkE(O_LSHR,w,a,kc(s,w)); }
    if(kb&&a->op==O_ZEXT&&bv&&bv<=maskw(a->a->w)) return mkZ(mkE(O_UDIV,a->a->w,a->a,kc(bv,a->a->w)),w); break;
  case O_UREM: if(kb&&bv==1) return kc(0,w); if(kb&&bv&&(bv&(bv-1))==0) return mkE(O_AND,w,a,kc(bv-1,w));
    if(kb&&a->op==O_ZEXT&&bv&&bv<=maskw(a->a->w)) return mkZ(mkE(O_UREM,a->a->w,a->a,kc(bv,a->a->w)),w); break;
  case O_SDIV: if(kb&&bv==1) return a; break;
  case O_AND: if(a==b) return a; if(kb){ if(bv==0) return b; if(bv==m) return a; if(a->op==O_AND&&isc(a->b)) return mkE(O_AND,w,a->a,kc(a->b->val&bv,w));
      if((bv&(bv+1))==0){ u32 n=0; while((bv>>n)&1) n++; return mkZ(mkEx(a,0,n),w); }
      if(a->op==O_ZEXT) return mkZ(mkE(O_AND,a->a->w,a->a,kc(bv,a->a->w)),w); }
    if(w==1&&(isNotOf(a,b)||isNotOf(b,a))) return kc(0,1); break;
  case O_OR: if(a==b) return a; if(kb){ if(bv==0) return a; if(bv==m) return b; } if(w==1&&(isNotOf(a,b)||isNotOf(b,a))) return kc(1,1);
    if(!kb&&a->op==O_ZEXT&&b->op==O_CONCAT&&isc(b->b)&&b->b->val==0&&b->b->w>=a->a->w) return mkE(O_CONCAT,w,b->a,mkZ(a->a,b->b->w));
    if(!kb&&b->op==O_ZEXT&&a->op==O_CONCAT&&isc(a->b)&&a->b->val==0&&a->b->w>=b->a->w) return mkE(O_CONCAT,w,a->a,mkZ(b->a,a->b->w));
    if(!kb&&a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return mkZ(mkOr(a->a,b->a),w);
    if(!kb&&a->op==O_ZEXT&&b->op==O_ZEXT){ // zext(concat(x,0)) | zext(y)
      E l=a->a->w>b->a->w?a->a:b->a, s=a->a->w>b->a->w?b->a:a->a; return mkZ(mkOr(l,mkZ(s,l->w)),w); }
    break;
  case O_XOR: if(a==b) return kc(0,w); if(kb){ if(bv==0) return a; if(a->op==O_XOR&&isc(a->b)) return mkE(O_XOR,w,a->a,kc(a->b->val^bv,w));
      if(w==1){ switch(a->op){ case O_ULT: return mkE(O_ULE,1,a->b,a->a); case O_ULE: return mkE(O_ULT,1,a->b,a->a); case O_SLT: return mkE(O_SLE,1,a->b,a->a); case O_SLE: return mkE(O_SLT,1,a->b,a->a); default:; } } } break;
  case O_SHL: if(kb){ if(bv==0) return a; if(bv>=w) return kc(0,w); return mkE(O_CONCAT,w,mkEx(a,0,w-(u32)bv),kc(0,(u32)bv)); } break;
  case O_LSHR: if(kb){ if(bv==0) return a; if(bv>=w) return kc(0,w); return mkZ(mkEx(a,(u32)bv,w-(u32)bv),w); } break;
  case O_ASHR: if(kb){ if(bv==0) return a; u32 s=bv>=w?w-1:(u32)bv; return mkS(mkEx(a,s,w-s),w); } break;
  case O_EQ: if(a==b) return kc(1,1);
    if(kb){ if(w==1&&a->w==1) return bv? a : mkNot(a);
      if(a->op==O_ADD&&isc(a->b)) return mkEq(a->a,kc(bv-a->b->val,a->w));
      if(a->op==O_XOR&&isc(a->b)) return mkEq(a->a,kc(bv^a->b->val,a->w));
      if(a->op==O_ZEXT){ if(bv>>a->a->w) return kc(0,1); return mkEq(a->a,kc(bv,a->a->w)); }
      if(a->op==O_SEXT){ u128 lo=bv&maskw(a->a->w); if(((u128)sextw(lo,a->a->w)&maskw(a->w))!=bv) return kc(0,1); return mkEq(a->a,kc(lo,a->a->w)); }
      if(a->op==O_ITE){ bool x=isc(a->b),y=isc(a->c); if(x&&y){ bool p=a->b->val==bv,q=a->c->val==bv; if(p&&q) return kc(1,1); if(p) return a->a; if(q) return mkNot(a->a); return kc(0,1);} if(x&&a->b->val!=bv) return mkAnd(mkNot(a->a),mkEq(a->c,b)); if(y&&a->c->val!=bv) return mkAnd(a->a,mkEq(a->b,b)); if(x) return mkOr(a->a,mkEq(a->c,b)); if(y) return mkOr(mkNot(a->a),mkEq(a->b,b)); }
      if(a->op==O_CONCAT) return mkAnd(mkEq(a->a,kc(bv>>a->b->w,a->a->w)),mkEq(a->b,kc(bv,a->b->w))); }
    else { if(a->op==O_ADD&&b->op==O_ADD&&isc(a->b)&&a->b==b->b) return mkEq(a->a,b->a);
      if((a->op==O_ZEXT||a->op==O_SEXT)&&a->op==b->op&&a->a->w==b->a->w) return mkEq(a->a,b->a); }
    break;
  case O_ULT: if(a==b) return kc(0,1); if(kb&&bv==0) return kc(0,1); if(kb&&bv==1) return mkEq(a,kc(0,a->w)); if(isc(a)&&a->val==maskw(a->w)) return kc(0,1);
    if(a->op==O_ZEXT&&kb){ if(bv>maskw(a->a->w)) return kc(1,1); return mkE(O_ULT,1,a->a,kc(bv,a->a->w)); }
    if(b->op==O_ZEXT&&isc(a)){ if(a->val>maskw(b->a->w)) return kc(0,1); return mkE(O_ULT,1,kc(a->val,b->a->w),b->a); }
    if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return mkE(O_ULT,1,a->a,b->a); break;
  case O_ULE: if(a==b) return kc(1,1); if(isc(a)&&a->val==0) return kc(1,1); if(kb&&bv==maskw(a->w)) return kc(1,1); if(kb&&bv==0) return mkEq(a,b);
    if(a->op==O_ZEXT&&kb){ if(bv>=maskw(a->a->w)) return kc(1,1); return mkE(O_ULE,1,a->a,kc(bv,a->a->w)); }
    if(b->op==O_ZEXT&&isc(a)){ if(a->val>maskw(b->a->w)) return kc(0,1); return mkE(O_ULE,1,kc(a->val,b->a->w),b->a); }
    if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return mkE(O_ULE,1,a->a,b->a); break;
  case O_SLT: case O_SLE: if(a==b) return kc(op==O_SLE,1);
    if(a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return mkE(op,1,a->a,b->a);
    if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return mkE(op==O_SLT?O_ULT:O_ULE,1,a->a,b->a);
    if(a->op==O_ZEXT&&kb){ i128 s=sextw(bv,a->w); if(s<0) return kc(0,1); return mkE(op==O_SLT?O_ULT:O_ULE,1,a,b); }
    if(b->op==O_ZEXT&&isc(a)){ i128 s=sextw(a->val,a->w); if(s<0) return kc(1,1); return mkE(op==O_SLT?O_ULT:O_ULE,1,a,b); } break;
  case O_ITE: if(isc(a)) return a->val?b:c; if(b==c) return b; if(w==1&&isc(b)&&isc(c)) return b->val? a: mkNot(a);
    if(w==1&&isc(b)) return b->val? mkOr(a,c): mkAnd(mkNot(a),c); if(w==1&&isc(c)) return c->val? mkOr(mkNot(a),b): mkAnd(a,b);
    if(a->op==O_XOR&&isc(a->b)) return mkIte(a->a,c,b);
    if(b->op==O_ITE&&b->a==a) return mkIte(a,b->b,c); if(c->op==O_ITE&&c->a==a) return mkIte(a,b,c->c); break;
  case O_CONCAT: if(isc(a)&&a->val==0) return mkZ(b,w);
    if(a->op==O_EXTRACT&&b->op==O_EXTRACT&&a->a==b->a&&a->aux==b->aux+b->w) return mkEx(a->a,b->aux,w);
    if(a->op==O_EXTRACT&&a->aux>=b->w&&!isc(b)&&mkEx(a->a,a->aux-b->w,b->w)==b) return mkEx(a->a,a->aux-b->w,w); // also where the low part of a sum was simplified
    if(b->op==O_CONCAT&&a->op==O_EXTRACT&&b->a->op==O_EXTRACT&&a->a==b->a->a&&a->aux==b->a->aux+b->a->w) return mkE(O_CONCAT,w,mkEx(a->a,b->a->aux,a->w+b->a->w),b->b);
    if(isc(b)&&a->op==O_CONCAT&&isc(a->b)&&a->b->w+b->w<=128) return mkE(O_CONCAT,w,a->a,kc((a->b->val<<b->w)|b->val,a->b->w+b->w)); 
    if(a->op==O_ZEXT) return mkZ(mkE(O_CONCAT,a->a->w+b->w,a->a,b),w); break;
  case O_EXTRACT: {
    u32 lo=aux;
    if(lo==0&&w==a->w) return a;
    switch(a->op){
    case O_EXTRACT: return mkEx(a->a,lo+a->aux,w);
    case O_CONCAT: if(lo>=a->b->w) return mkEx(a->a,lo-a->b->w,w); if(lo+w<=a->b->w) return mkEx(a->b,lo,w); return mkE(O_CONCAT,w,mkEx(a->a,0,lo+w-a->b->w),mkEx(a->b,lo,a->b->w-lo));
    case O_ZEXT: if(lo>=a->a->w) return kc(0,w); if(lo+w<=a->a->w) return mkEx(a->a,lo,w); return mkZ(mkEx(a->a,lo,a->a->w-lo),w);
    case O_SEXT: if(lo+w<=a->a->w) return mkEx(a->a,lo,w); if(lo<a->a->w) return mkS(mkEx(a->a,lo,a->a->w-lo),w); return mkS(mkEx(a->a,a->a->w-1,1),w);
    case O_AND: case O_OR: case O_XOR: return mkE(a->op,w,mkEx(a->a,lo,w),mkEx(a->b,lo,w));
    case O_ITE: if(isc(a->b)||isc(a->c)||a->b->op==O_ITE||a->c->op==O_ITE) return mkIte(a->a,mkEx(a->b,lo,w),mkEx(a->c,lo,w)); break;
    case O_ADD: case O_SUB: case O_MUL: if(lo==0) return mkE(a->op,w,mkEx(a->a,0,w),mkEx(a->b,0,w)); break;
    default:; } break; }
  case O_ZEXT: if(w==a->w) return a; if(a->op==O_ZEXT) return mkZ(a->a,w); if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return mkIte(a->a,mkZ(a->b,w),mkZ(a->c,w)); break;
  case O_SEXT: if(w==a->w) return a; if(a->op==O_SEXT) return mkS(a->a,w); if(a->op==O_ZEXT) return mkZ(a->a,w); if(a->op==O_ITE&&isc(a->b)&&isc(a->c)) return mkIte(a->a,mkS(a->b,w),mkS(a->c,w)); break;
  default:; }
  return P.mk(op,w,a,b,c,aux);
}
