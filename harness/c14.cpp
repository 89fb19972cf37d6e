#include "fsx.h"
#include <falcon/engine/item.h>
#include <string>
using namespace falcon;
struct Tracked { static int live; int v; Tracked() : v(3) { ++live; } Tracked(const Tracked& o) : v(o.v) { ++live; } ~Tracked() { --live; } };
int Tracked::live = 0;
struct TH : DeepHandler<Tracked> { String typeName() const noexcept override { return "T"; } String toString(ItemData d) const noexcept override { return static_cast<Tracked*>(d.ptrValue)->v == 3 ? "three" : "?"; } bool toBool(ItemData d) const noexcept override { return static_cast<Tracked*>(d.ptrValue)->v != 0; } int64 toInt(ItemData d) const noexcept override { return static_cast<Tracked*>(d.ptrValue)->v; } };
struct FH : DeepFlatCopyHandler<Tracked> { String typeName() const noexcept override { return "F"; } String toString(ItemData d) const noexcept override { return "f"; } bool toBool(ItemData d) const noexcept override { return true; } int64 toInt(ItemData d) const noexcept override { return static_cast<Tracked*>(d.ptrValue)->v; } };
static ItemData fresh(Handler* x) { fsx_dirty(); return x->allocate(); }
extern "C" void fsx_main() {
   Handler* h[6] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler};
   static const char* const names[6] = {"Nil", "Bool", "Int", "Float", "String", "BigNum"};
   static const char* const zero[6] = {"nil", "false", "0", "0", "", "0"};
   unsigned k = fsx_choose("handler", 6), rep = 1 + fsx_choose("rep", 3);
   Handler* x = h[k];
   for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i != j) fsx_check(h[i]->typeName() != h[j]->typeName(), "type names are distinct");
   fsx_check(x->typeName() == names[k] && x->typeName() == x->typeName(), "type names are stable");
   fsx_check(x->isFlat() == (k < 4), "flatness is told truthfully"); if (k < 4) fsx_check(x->isCopyFlat(), "flat values copy flatly"); else fsx_check(x->isCopyFlat(), "strings and big numbers are declared flat to copy");
   long base = fsx_live();
   ItemData d[3] = {fresh(x), fresh(x), fresh(x)};
   if (k >= 4) fsx_check(fsx_live() > base && d[0].ptrValue != d[1].ptrValue, "each default value is its own");
   for (unsigned i = 0; i < 3; ++i) { fsx_check(x->toInt(d[i]) == 0, "default value is zero"); fsx_check(!x->toBool(d[i]), "default value is false"); fsx_check(x->toString(d[i]) == zero[k], "default value has the empty text"); }
   unsigned order = fsx_choose("order", 3); for (unsigned i = 0; i < 3; ++i) x->destroy(d[(order + i) % 3]);
   fsx_check(fsx_live() == base, "destroying releases everything");
   if (k < 4) for (unsigned i = 0; i < rep; ++i) x->destroy(d[0]);               // harmless for flat values
   if (k < 4) { int64_t v = fsx_i64("bits"); ItemData e((int64)v); x->destroy(e); fsx_check(e.int64Value == v, "destroying a flat value is harmless"); if (k == 2) fsx_check(x->toInt(e) == v && x->toBool(e) == (v != 0), "integer data"); ItemData f = e; x->destroy(f); fsx_check(e.int64Value == v, "copies of a flat value are independent"); }
   { TH t; FH f; fsx_check(!t.isFlat() && !t.isCopyFlat(), "deep handlers are deep"); fsx_check(!f.isFlat() && f.isCopyFlat(), "deep handlers with flat copy"); ItemData a = t.allocate(), b = f.allocate(); fsx_check(Tracked::live == 2 && t.toInt(a) == 3 && f.toInt(b) == 3 && t.toString(a) == "three", "deep values are constructed"); t.destroy(a); fsx_check(Tracked::live == 1 && f.toInt(b) == 3, "destroyed once"); f.destroy(b); fsx_check(Tracked::live == 0, "destroyed once"); }
   fsx_check(fsx_live() == base, "nothing leaks");
   fsx_reach("end");
}
