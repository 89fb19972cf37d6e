#include "log.h"
#include <thread>
struct Plain : LogSystem::Listener { std::vector<int> got; int* gone; Plain(int* g) : gone(g) {} ~Plain() { ++*gone; } void onMessage(const LogSystem::Message& m) override { if (m.m_message != "#END") got.push_back(m.m_line); } };
struct Msg { bool must, may; };
extern "C" void fsx_main() {
   long base = fsx_live(); int gone0 = 0, gone1 = 0, gone2 = 0, goneX = 0;
   if (P_mode == 0) {                                    // any sequence by one thread, the delivery thread running beside it
      {
         auto s = std::make_unique<LogSystem>(); auto always = std::make_shared<Plain>(&gone0); auto gate = std::make_shared<Rec>(); s->addListener(always); s->addListener(gate);
         auto r = std::make_shared<Plain>(&gone1); std::weak_ptr<Plain> w = r; auto r2 = std::make_shared<Plain>(&gone2); size_t r2from = 0, r2upto = 0; bool added = false, en = true, det = false; std::vector<Msg> msgs; size_t open = 0; int ends = 0; bool afterDetach = false;
         unsigned n = fsx_choose("n", P_ops + 1); std::vector<int> got;
         /* a change of state while messages are in flight may or may not apply to them */ auto changed = [&] { bool el = added && en && !det; for (size_t k = open; k < msgs.size(); ++k) { msgs[k].may |= el; msgs[k].must &= el; } };
         auto logOne = [&] { bool el = added && en && !det; s->log("f", (int)msgs.size(), LEVEL::INFO, "", "m"); msgs.push_back({el, el}); };
         for (unsigned i = 0; i < n; ++i, changed()) switch (fsx_choose("op", 6)) {
            case 0: logOne(); fsx_reach("log"); break;
            case 1: if (!added) { s->addListener(r); added = true; r2from = msgs.size(); r2upto = open; s->addListener(r2); fsx_reach("add"); } break;   /* two at a time */
            case 2: r->detach(); fsx_check(r->isDetached(), "detached"); det = true; fsx_reach("detach"); break;
            case 3: r->enable(false); fsx_check(!r->isEnabled(), "disabled"); en = false; fsx_reach("disable"); break;
            case 4: r->enable(true); fsx_check(r->isEnabled(), "enabled"); en = true; break;
            case 5: endMark(*s); gate->wait(++ends); open = msgs.size(); if (added && det) afterDetach = true; fsx_reach("sync"); break;
         } 
         endMark(*s); gate->wait(++ends); if (added && det) afterDetach = true; s->stop(); got = r->got;
         size_t g = 0; for (size_t k = 0; k < msgs.size(); ++k) { bool in = g < got.size() && got[g] == (int)k; if (in) ++g; if (msgs[k].must) fsx_check(in, "a message handled while the listener is in place is received"); if (!msgs[k].may) fsx_check(!in, "no message handled before it was added, while disabled or logged after it was detached is received"); }
         fsx_check(g == got.size(), "each message at most once, in order");
         if (added) { size_t g2 = 0; for (size_t k = 0; k < msgs.size(); ++k) { bool in = g2 < r2->got.size() && r2->got[g2] == (int)k; if (in) ++g2; if (k >= r2from) fsx_check(in, "the listener added together with it receives every later message"); else if (k < r2upto) fsx_check(!in, "but none handled before"); } fsx_check(g2 == r2->got.size(), "once each"); } else fsx_check(r2->got.empty(), "a listener never added receives nothing");
         fsx_check(always->got.size() == msgs.size(), "the other listener receives everything"); for (size_t k = 0; k < msgs.size(); ++k) fsx_check(always->got[k] == (int)k, "in order");
         fsx_check(gone2 == 0, "kept"); r.reset(); if (afterDetach) { fsx_check(w.expired() && gone1 == 1, "a detached listener is dropped once further messages are handled"); fsx_reach("dropped"); } else if (added) fsx_check(!w.expired(), "a listener in place is kept");
         fsx_check(gone0 == 0, "the other listener is kept");
      }
      fsx_check(gone0 == 1 && gone1 == 1 && gone2 == 1, "every listener is released once");
   } else if (P_mode == 2) {                             // any number of listeners
      static const unsigned sizes[] = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 65, 129, 300}; unsigned n = sizes[fsx_choose("size", 14)], which = fsx_choose("which", 5), who = fsx_choose("who", 2), extra = fsx_choose("extra", 2) ? n : 1; int gone = 0; std::vector<int> out(n); 
      {
         LogSystem s(false); auto gate = std::make_shared<Rec>(); std::vector<std::shared_ptr<Plain>> l; s.addListener(gate); for (unsigned i = 0; i < n; ++i) { l.push_back(std::make_shared<Plain>(&out[i])); s.addListener(l[i]); }
         auto chosen = [&](unsigned i) { switch (which) { case 0: return i == 0; case 1: return i + 1 == n; case 2: return i == n / 2; case 3: return i % 2 == 0; default: return true; } };
         s.log("f", 1, LEVEL::INFO, "", "m"); endMark(s); s.start(); gate->wait(); for (auto& x : l) fsx_check(x->got == std::vector<int>{1}, "every listener in place receives the message once");
         for (unsigned i = 0; i < n; ++i) if (chosen(i)) { if (who) l[i]->detach(); else l[i]->enable(false); } s.log("f", 2, LEVEL::INFO, "", "m"); endMark(s); gate->wait(2); endMark(s); gate->wait(3);
         for (unsigned i = 0; i < n; ++i) fsx_check(l[i]->got == (chosen(i) ? std::vector<int>{1} : std::vector<int>{1, 2}), "detached or disabled ones receive no more, the others everything"); std::vector<int> more(extra); std::vector<std::shared_ptr<Plain>> m; for (unsigned i = 0; i < extra; ++i) { m.push_back(std::make_shared<Plain>(&gone)); s.addListener(m[i]); } s.log("f", 3, LEVEL::INFO, "", "m"); endMark(s); gate->wait(4); s.stop();
         for (unsigned i = 0; i < n; ++i) { fsx_check(l[i]->got == (chosen(i) ? std::vector<int>{1} : std::vector<int>{1, 2, 3}), "also with others added"); bool c = chosen(i) && who; l[i].reset(); fsx_check(out[i] == (c ? 1 : 0), "detached listeners are dropped, the others kept"); } for (auto& x : m) fsx_check(x->got == std::vector<int>{3}, "later ones receive what is logged later"); fsx_check(gone == 0, "kept");
      }
      for (unsigned i = 0; i < n; ++i) fsx_check(out[i] == 1, "every listener is released once"); fsx_check(gone == (int)extra, "and the later ones"); std::vector<int>().swap(out); fsx_reach("many");
   } else {                                              // listeners added and detached by one thread while another one logs
      {
         LogSystem s; auto always = std::make_shared<Plain>(&gone0); auto gate = std::make_shared<Rec>(); gate->category("gate"); s.addListener(gate); auto x = std::make_shared<Plain>(&goneX); s.addListener(x); s.addListener(always);
         bool detX = fsx_choose("detachX", 2), dis = fsx_choose("disable", 2);
         std::vector<int> got; 
         std::thread b([&] { auto r = std::make_shared<Plain>(&gone1); s.addListener(r); s.log("f", 100, LEVEL::INFO, "", "m"); endMark(s); gate->wait(); fsx_check(!r->isDetached(), "stays attached"); if (dis) r->enable(false); else r->detach(); s.log("f", 101, LEVEL::INFO, "", "m"); endMark(s); gate->wait(2); if (dis) r->detach(); s.stop(); got = r->got; });
         s.log("f", 0, LEVEL::INFO, "", "m"); if (detX) x->detach(); s.log("f", 1, LEVEL::INFO, "", "m");
         b.join(); bool seen = false; for (int l : got) { fsx_check(l != 101, "nothing logged after the detachment is received"); if (l == 100) { fsx_check(!seen, "once"); seen = true; } } fsx_check(seen, "what was logged after the addition is received");
         s.start(); endMark(s); gate->wait(3); endMark(s); gate->wait(4); s.stop(); int own[2] = {0, 0}; for (int l : always->got) if (l < 2) ++own[l]; fsx_check(own[0] == 1 && own[1] == 1 && always->got.size() == 4, "the other listener receives every message once");
         unsigned x1 = 0; for (int l : x->got) if (l == 1) ++x1; fsx_check(x1 == (detX ? 0 : 1), "the other thread's listener too");
         fsx_check(gone1 == 1, "the detached listener is dropped"); 
      }
      fsx_check(gone0 == 1 && gone1 == 1 && goneX == 1, "every listener is released once"); fsx_reach("threads");
   }
   fsx_check(fsx_live() == base, "all listeners and messages are released");
   fsx_reach("end");
}
