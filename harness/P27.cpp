// P27: measurements handed between threads. Sources, relays and sinks copy, clone, re-stamp, invalidate, cast and drop measurements; every payload, its owners and every handle's time are modelled.
#include "sim.h"
#include <utMeasurement/Measurement.h>
#include <utMeasurement/Timestamp.h>
#include <new>
#include <set>
#include <map>
#include <memory>
#include <sstream>
using namespace Ubitrack;
namespace {
typedef Measurement::Timestamp TS;
// a payload that knows whether it is alive
struct Reg { std::map<const void*, uint64_t> alive; uint64_t made, gone; };
Reg* g;
struct Load {
    uint64_t v, w; 
    explicit Load(uint64_t x) : v(x), w(~x) { enter(); }
    Load(const Load& o) : v(o.v), w(o.w) { SIM_CHECK(w == ~v, "torn", "a payload is copied that was destroyed or is being changed"); enter(); }
    ~Load() { { sim::Rt r; SIM_CHECK(g->alive.count(this), "destroyed-twice", "a payload is destroyed that does not exist (any more)"); g->alive.erase(this); g->gone++; } v = 0; w = 0; }
    void enter() { sim::Rt r; SIM_CHECK(!g->alive.count(this), "alive-twice", "a payload is created where one exists"); g->alive[this] = v; g->made++; }
    bool good() const { return w == ~v; }
};
std::ostream& operator<<(std::ostream& s, const Load& l) { return s << "load" << l.v; }
typedef Measurement::Measurement<Load> M;
typedef Measurement::Measurement<const Load> MC;
TS stamp() { return sim::wl(6) == 1 ? 0 : sim::wl(4) == 1 ? 0xffffffffffffffffull - sim::wl(3) : 1 + (uint64_t)sim::wl(1 << 20) * (1 + (uint64_t)sim::wl(1 << 20)); }
// what a handle should be
struct H { M m; MC c; bool cst; TS t; uint64_t v; const void* p; H() : cst(false), t(0), v(0), p(nullptr) {} };   // v: value, p: payload (null: none)
void right(const H& h, const char* after) {
    TS t = h.cst ? h.c.time() : h.m.time(); bool inv = h.cst ? h.c.invalid() : h.m.invalid(); const Load* p = h.cst ? h.c.get() : h.m.get();
    uint64_t v = p ? p->v : 0; bool good = !p || p->good(); sim::Rt r;
    SIM_CHECK(t == h.t, "time", "after %s the time of a measurement is %llu instead of %llu", after, (unsigned long long)t, (unsigned long long)h.t);
    SIM_CHECK(inv == (h.t == 0), "invalid", "after %s a measurement of time %llu is %s", after, (unsigned long long)h.t, inv ? "invalid" : "valid");
    SIM_CHECK((const void*)p == h.p, "payload", "after %s a measurement has %s payload", after, !p ? "no" : h.p ? "another" : "an unexpected");
    if (p) SIM_CHECK(g->alive.count(p) && good && v == h.v, "value", "after %s the value is %llu instead of %llu", after, (unsigned long long)v, (unsigned long long)h.v);
}
void print(const H& h, bool ofpart) {
    std::ostringstream s; if (h.cst) s << h.c; else s << h.m; std::string got = s.str(), want; if (h.t == 0) want = "INVALID"; else { std::ostringstream w; w << "load" << h.v << " " << Measurement::timestampToShortString(h.t); want = w.str(); }
    sim::Rt r; SIM_CHECK(got == want, "printed", "a measurement is printed as '%s' instead of '%s'", got.c_str(), want.c_str()); (void)ofpart; sim::probe(h.t ? "printed" : "printed invalid");
}
struct Box { std::vector<H*> q; };
struct World { std::vector<Box> box; uint64_t next; int left; };
typedef std::shared_ptr<World> W;
H* fresh() { H* h; { sim::Rt r; } h = new H; return h; }
void worker(W w, int me, int steps, bool chaos) {
    std::vector<H*> own; { sim::Rt r; own.reserve(64); }
    auto some = [&]() -> H* { return own.empty() ? nullptr : own[sim::wl((uint32_t)own.size())]; };
    auto add = [&](H* h) { sim::Rt r; own.push_back(h); };
    auto drop = [&](H* h) { { sim::Rt r; for (size_t i = 0; i < own.size(); i++) if (own[i] == h) { own.erase(own.begin() + i); break; } } delete h; };
    for (int k = 0; k < steps; k++) {
        { H* in = nullptr; { sim::Rt r; if (!w->box[me].q.empty()) { size_t i = chaos && sim::chance(sim::FA, 1, 3) ? sim::draw(sim::FA, (uint32_t)w->box[me].q.size()) : 0; if (i) sim::fault("messages-reordered"); in = w->box[me].q[i]; w->box[me].q.erase(w->box[me].q.begin() + i); } } if (in) { right(*in, "delivery"); sim::probe("delivered"); if (own.size() < 24) add(in); else delete in; } }
        int how = sim::wl(14); H* h = some();
        if (!h || how == 0) {   // a new measurement
            uint64_t v; TS t; int kind; { sim::Rt r; v = ++w->next; t = stamp(); kind = sim::wl(6); } if (own.size() >= 24) { drop(own[0]); }
            H* n = fresh();
            if (kind == 0) { { Load l(v); n->m = M(t, l); } n->t = t; n->v = v; n->p = n->m.get(); }
            else if (kind == 1) { n->m = M(t, boost::shared_ptr<Load>(new Load(v))); n->t = t; n->v = v; n->p = n->m.get(); }
            else if (kind == 2) { { Load l(v); n->m = M(l); } n->t = 0; n->v = v; n->p = n->m.get(); }
            else if (kind == 3) { n->m = M(boost::shared_ptr<Load>(new Load(v))); n->t = 0; n->v = v; n->p = n->m.get(); }
            else if (kind == 4) { n->m = M(t); n->t = t; }
            else n->m = M();
            SIM_CHECK(kind > 3 || n->p, "payload", "a measurement made of a value has none"); right(*n, "creation"); add(n); sim::probe("created"); continue;
        }
        switch (how) {
        case 1: case 2: {   // copy
            H* n = fresh(); if (h->cst) n->c = h->c; else if (how == 1) n->m = h->m; else { M x(h->m); n->m = x; } n->cst = h->cst; n->t = h->t; n->v = h->v; n->p = h->p; right(*n, "copying"); right(*h, "being copied"); if (own.size() < 24) add(n); else delete n; sim::probe("copied"); break; }
        case 3: {           // clone: another payload
            H* n = fresh(); if (h->cst) { n->c = h->c.clone(); n->cst = true; } else n->m = h->m.clone(); n->t = h->t; n->v = h->v; n->p = n->cst ? (const void*)n->c.get() : n->m.get(); SIM_CHECK(h->p ? n->p && n->p != h->p : !n->p, "clone", "the clone of a measurement %s", h->p ? "has no payload of its own" : "without payload has one"); right(*n, "cloning"); right(*h, "being cloned");
            if (n->p && !n->cst && sim::wl(2)) { uint64_t v; { sim::Rt r; v = ++w->next; } n->m->v = v; n->m->w = ~v; n->v = v; right(*h, "changing its clone"); sim::probe("clone changed"); }
            if (own.size() < 24) add(n); else delete n; sim::probe("cloned"); break; }
        case 4: { TS t = stamp(); if (h->cst) h->c.time(t); else h->m.time(t); h->t = t; right(*h, "setting the time"); sim::probe("stamped"); break; }
        case 5: { if (h->cst) h->c.invalidate(); else h->m.invalidate(); h->t = 0; right(*h, "invalidating"); sim::probe("invalidated"); break; }
        case 6: {           // read only view and back
            H* n = fresh(); n->t = h->t; n->v = h->v; n->p = h->p; if (h->cst) n->m = h->c.constCast<Load>(); else { n->c = h->m.constCast<const Load>(); n->cst = true; } right(*n, "casting"); right(*h, "being cast"); if (own.size() < 24) add(n); else delete n; sim::probe("cast"); break; }
        case 7: case 8: {   // hand over to a thread: the handle itself or a copy
            int to = sim::wl((uint32_t)w->box.size()); H* n; bool copy = sim::wl(2); if (chaos && sim::chance(sim::FA, 1, 8)) { sim::fault("message-lost"); if (!copy) drop(h); break; }
            bool twice = chaos && sim::chance(sim::FA, 1, 8); for (int i = 0; i < 1 + twice; i++) { if (copy || i < twice) { n = fresh(); n->cst = h->cst; n->t = h->t; n->v = h->v; n->p = h->p; if (h->cst) n->c = h->c; else n->m = h->m; } else { n = h; sim::Rt r; for (size_t k = 0; k < own.size(); k++) if (own[k] == h) { own.erase(own.begin() + k); break; } } sim::Rt r; w->box[to].q.push_back(n); } if (twice) sim::fault("message-duplicated"); sim::probe("sent"); break; }
        case 9: { H* o = some(); if (o->cst != h->cst) break; if (h->cst) h->c = o->c; else h->m = o->m; h->t = o->t; h->v = o->v; h->p = o->p; right(*h, "assignment"); right(*o, "being assigned"); sim::probe(o == h ? "assigned to itself" : "assigned"); break; }
        case 10: { H* o = some(); if (o->cst != h->cst || o == h) break; if (h->cst) std::swap(h->c, o->c); else std::swap(h->m, o->m); std::swap(h->t, o->t); std::swap(h->v, o->v); std::swap(h->p, o->p); right(*h, "swapping"); right(*o, "swapping"); break; }
        case 11: if (h->p || !h->t) print(*h, false); break;
        case 12: drop(h); sim::probe("dropped"); break;
        default: right(*h, "some time");
        }
    }
    while (!own.empty()) { H* h = own.back(); right(*h, "everything"); drop(h); }
    bool last; { sim::Rt r; last = --w->left == 0; } if (last) { for (size_t i = 0; i < w->box.size(); i++) while (!w->box[i].q.empty()) { H* h; { sim::Rt r; h = w->box[i].q.back(); w->box[i].q.pop_back(); } right(*h, "everything"); delete h; } }
    { sim::Rt r; std::vector<H*>().swap(own); }
}
void begin() { sim::Rt r; g = new Reg; g->made = g->gone = 0; }
void ended() { sim::Rt r; SIM_CHECK(g->alive.empty(), "leak", "%zu of %llu payloads are left though no measurement is", g->alive.size(), (unsigned long long)g->made); sim::mix(g->made); sim::probe("all gone", g->made); }
void flow(int n, bool chaos) {
    begin(); W w; { sim::Rt r; w = std::make_shared<World>(); w->box.resize(n); w->next = 0; w->left = n; } uint64_t before = sim::live_blocks(); int steps = 8 + sim::wl(80);
    if (n == 1) worker(w, 0, steps, chaos); else { sim::sched_random(); { sim::Quiet q; for (int i = 0; i < n; i++) sim::spawn([w, i, steps, chaos]() { worker(w, i, steps, chaos); }, "stage"); } sim::join_all(); }
    ended(); if (n == 1) SIM_CHECK(sim::live_blocks() == before, "leak", "%llu blocks are left", (unsigned long long)(sim::live_blocks() - before)); sim::heap_check(); sim::nontrivial();
}
}
SCENARIO(alone, 1) { flow(1, false); }
SCENARIO(pipeline, 4) { flow(2 + sim::wl(3), sim::wl(2)); }
SCENARIO(one_source, 2) {     // one measurement, read, cloned and dropped by everybody at once; whoever is last ends it
    begin(); int n = 2 + sim::wl(3); uint64_t v = 1 + sim::wl(1000000); TS t = 1 + sim::wl(1000000); sim::sched_random();
    { M m(t, boost::shared_ptr<Load>(new Load(v))); { sim::Quiet q; for (int i = 0; i < n; i++) { M* c = new M(m); sim::spawn([c, v, t]() { int k = 1 + sim::wl(6); for (int i = 0; i < k; i++) { M d(*c); M e = d.clone(); SIM_CHECK(d.time() == t && e.time() == t && d->good() && d->v == v && e->good() && e->v == v && e.get() != d.get(), "value", "a measurement shared by several threads has lost its value or time"); d.time(t + 1 + i); if (sim::wl(2)) d.invalidate(); *c = d; c->time(t); } delete c; }, "sink"); } } m.invalidate(); }
    sim::join_all(); ended(); sim::probe("shared by several"); sim::nontrivial();
}
SCENARIO(no_memory, 1) {      // a measurement that cannot be made leaves nothing behind and the others as they were
    begin(); uint64_t before = sim::live_blocks();
    { M m(5, boost::shared_ptr<Load>(new Load(7))), o(m); int kind = sim::wl(3); Load* raw = nullptr; Load l(9); sim::fail_alloc(1 + sim::draw(sim::FA, 3), false); bool threw = false;
        try { if (kind == 0) o = m.clone(); else if (kind == 1) o = M(8, l); else { raw = new Load(9); Load* x = raw; raw = nullptr; o = M(8, boost::shared_ptr<Load>(x)); } } catch (const std::bad_alloc&) { threw = true; }
        bool fired = sim::alloc_fault_fired(); sim::fail_alloc(0, false); if (fired) sim::fault("out-of-memory"); SIM_CHECK(threw == fired, "failure", "lack of memory is %s", fired ? "not reported" : "reported without reason");
        SIM_CHECK(m.time() == 5 && m->good() && m->v == 7, "value", "lack of memory changed another measurement"); if (threw) SIM_CHECK(o.time() == 5 && o.get() == m.get(), "value", "a failed assignment changed the measurement"); else SIM_CHECK(o.get() != m.get() && o->good() && o->v == (kind == 0 ? 7u : 9u) && o.time() == (kind == 0 ? 5u : 8u), "value", "an assignment gave another measurement"); }
    ended(); SIM_CHECK(sim::live_blocks() == before, "leak", "blocks are left after lack of memory"); sim::nontrivial();
}
