// element that owns memory, registers its life and can be told to throw
#pragma once
#include "fsx.h"
struct Boom {};
struct Elem {
   static int live, throwAt, copies, assigns, throwAssign, booms; int* heap; const Elem* self; int taken = 0;
   static void count() { if (++copies == throwAt) { ++booms; throw Boom(); } }
   Elem() : heap(new int(0)), self(this) { ++live; }
   Elem(int x) { count(); heap = new int(x); self = this; ++live; }
   Elem(const Elem& o) { fsx_check(o.self == &o, "copied element is alive"); count(); fsx_check(o.heap != nullptr, "copied element is whole"); heap = new int(*o.heap); self = this; ++live; }
   ~Elem() { fsx_check(self == this, "element destroyed once"); self = nullptr; delete heap; --live; }
#ifdef FSX_MOVABLE
   Elem(Elem&& o) noexcept : heap(o.heap), self(this) { fsx_check(o.self == &o, "moved element is alive"); o.heap = nullptr; ++live; }
   Elem& operator=(Elem&& o) { fsx_check(self == this && o.self == &o, "assigned elements are alive"); if (++assigns == throwAssign) { ++booms; throw Boom(); } delete heap; heap = o.heap; o.heap = nullptr; ++taken; return *this; }
   int v() const { fsx_check(self == this && heap, "element read while alive and whole"); return *heap; }
   Elem& operator=(const Elem& o) { fsx_check(self == this && o.self == &o && o.heap, "assigned elements are alive"); if (++assigns == throwAssign) { ++booms; throw Boom(); } int x = *o.heap; if (heap) *heap = x; else heap = new int(x); ++taken; return *this; }
#else
   Elem& operator=(const Elem& o) { fsx_check(self == this && o.self == &o, "assigned elements are alive"); if (++assigns == throwAssign) { ++booms; throw Boom(); } *heap = *o.heap; ++taken; return *this; }
   int v() const { fsx_check(self == this, "element read while alive"); return *heap; }
#endif
};
int Elem::live = 0, Elem::throwAt = 0, Elem::copies = 0, Elem::assigns = 0, Elem::throwAssign = 0, Elem::booms = 0;
