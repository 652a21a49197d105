// P09: measurements sent over a byte stream arrive unchanged or the receiver is told.
#include "mathgen.h"
#include <utSerialization/Serialization.h>
#include <sstream>
#include <memory>
using namespace Ubitrack; namespace us = Ubitrack::Serialization;
namespace {
// a received byte stream: the archives read it as an istream, msgpack through the unpacker it is fed to
struct Chan : std::stringstream {
    msgpack::unpacker pac;
    bool next(msgpack::object_handle& oh) { return pac.next(oh); }
    void feed(us::SerializationProtocol p, const char* d, size_t n) {
        if (p == us::PROTOCOL_MSGPACK) { pac.reserve_buffer(n); memcpy(pac.buffer(), d, n); pac.buffer_consumed(n); }
        else this->write(d, n);
    }
};
template<class T> bool meas_same(const Measurement::Measurement<T>& a, const Measurement::Measurement<T>& b, bool bits) { if (!a.get()) { sim::probe("empty-measurements"); return !b.get() && b.invalid(); } return a.time() == b.time() && !a.get() == !b.get() && (!a.get() || mg::same(*a, *b, bits)); }
template<class T> void camera_ok(const T&) {}
void camera_ok(const mg::um::CameraIntrinsics<double>& c) {
    SIM_CHECK((int)c.calib_type >= 0 && (int)c.calib_type <= 4 && c.radial_size <= 6, "invalid-camera", "a damaged message produced a camera of kind %d with %zu radial parameters", (int)c.calib_type, (size_t)c.radial_size);
}
struct Msg {
    virtual ~Msg() {}
    virtual std::string encode(us::SerializationProtocol p) = 0;
    virtual int decode(us::SerializationProtocol p, Chan& c, bool judge) = 0;   // 1 equal, 0 told, -1 different
    virtual void object_route() = 0;
    virtual const char* name() = 0;
};
template<class T> struct MsgT : Msg {
    bool meas, empty; T v, keep; Measurement::Measurement<T> m;
    MsgT(bool ms, bool special, bool none) : meas(ms), empty(false) {
        mg::Opt o; o.special = special; v = mg::G<T>::gen(o); keep = v;
        if (meas) { empty = false; Measurement::Timestamp ts; switch (sim::wl(4)) { case 0: ts = 1 + sim::wl(200); break; case 1: ts = 0xffffffffffffffffull; break; default: ts = ((uint64_t)sim::wl(0x7fffffff) << 32) | sim::wl(0x7fffffff); } m = Measurement::Measurement<T>(ts, v); if (none && sim::wl(6) == 1) { empty = true; m = Measurement::Measurement<T>(); } }
    }
    const char* name() { return mg::G<T>::name(); }
    std::string encode(us::SerializationProtocol p) {
        std::string r;
        std::stringstream s; if (meas) us::serialize(p, s, m); else us::serialize(p, s, v); r = s.str();
        SIM_CHECK(mg::same(keep, meas && !empty ? *m : v, true), "sending-changes", "sending a %s changed it", name());
        if (p == us::PROTOCOL_MSGPACK) {   // the other ways to write the same thing
            msgpack::sbuffer b; if (sim::wl(2)) { msgpack::packer<msgpack::sbuffer> pk(&b); if (meas) us::MsgpackArchive::serialize(pk, m); else us::MsgpackArchive::serialize(pk, v); } else { if (meas) us::MsgpackArchive::serialize(b, m); else us::MsgpackArchive::serialize(b, v); }
            SIM_CHECK(std::string(b.data(), b.size()) == r, "encodings-differ", "two ways of packing a %s differ", name());
        }
        return r;
    }
    int decode(us::SerializationProtocol p, Chan& c, bool judge) {
        bool bits = p == us::PROTOCOL_BOOST_BINARY; int res;
        if (meas) {
            std::unique_ptr<T> old(new T(v)); Measurement::Measurement<T> r(5, boost::shared_ptr<T>(new T()));
            try { us::deserialize(p, c, r); } catch (const std::exception&) { return 0; }
            if (r.get()) camera_ok(*r);
            res = meas_same(m, r, bits) ? 1 : -1;
        } else {
            std::unique_ptr<T> r(new T());
            try { us::deserialize(p, c, *r); } catch (const std::exception&) { return 0; }
            camera_ok(*r); res = mg::same(v, *r, bits) ? 1 : -1;
        }
        return res;
    }
    void object_route() {
        { msgpack::zone z; msgpack::object o(v, z); T a = o.as<T>(); SIM_CHECK(mg::same(v, a, false), "object-differs", "a %s differs after packing it into an object", name());
          std::unique_ptr<T> b(new T()); o.convert(*b); SIM_CHECK(mg::same(v, *b, false), "object-differs", "a %s differs after converting it from an object", name()); }
        if (meas) { msgpack::zone z; msgpack::object o(m, z); Measurement::Measurement<T> b; o.convert(b); SIM_CHECK(meas_same(m, b, false), "object-differs", "a %s measurement differs after converting it from an object", name());
          Measurement::Measurement<T> a = o.as<Measurement::Measurement<T> >(); SIM_CHECK(meas_same(m, a, false), "object-differs", "a %s measurement differs after packing it into an object", name()); }
    }
};
struct Maker { bool meas, special, none; Msg* out; template<class T> void run() { out = new MsgT<T>(meas, special, none); } };
Msg* make(us::SerializationProtocol p) { Maker k; k.meas = sim::wl(2); k.special = p != us::PROTOCOL_BOOST_TEXT; k.none = p == us::PROTOCOL_MSGPACK; k.out = 0; mg::dispatch(sim::wl(mg::NTYPES), k); return k.out; }
us::SerializationProtocol proto() { static const us::SerializationProtocol p[] = {us::PROTOCOL_MSGPACK, us::PROTOCOL_BOOST_TEXT, us::PROTOCOL_BOOST_BINARY}; return p[sim::wl(3)]; }
// one link: messages in, bytes cut into fragments, messages out
void link(us::SerializationProtocol p, int n) {
    std::vector<std::unique_ptr<Msg> > q; std::vector<std::string> enc; std::string all; std::vector<size_t> ends;
    for (int i = 0; i < n; i++) { q.push_back(std::unique_ptr<Msg>(make(p))); enc.push_back(q[i]->encode(p)); all += enc[i]; ends.push_back(all.size()); if (p == us::PROTOCOL_MSGPACK) q[i]->object_route(); }
    { sim::Rt r; sim::mix(sim::fnv(all)); }
    if (p == us::PROTOCOL_MSGPACK) {
        std::unique_ptr<Chan> c(new Chan()); size_t at = 0; int got = 0; uint32_t maxf = sim::wl(3) ? 1 + sim::wl(40) : 4096;
        while (at < all.size()) {
            size_t f = 1 + sim::wl(maxf); if (f > all.size() - at) f = all.size() - at;
            c->feed(p, all.data() + at, f); at += f; sim::yield();
            while (got < n && ends[got] <= at) { int r = q[got]->decode(p, *c, true); SIM_CHECK(r == 1, r ? "different-value" : "refused", "a %s sent intact was %s", q[got]->name(), r ? "received with another value" : "refused"); got++; sim::probe("messages"); }
            if (got < n && sim::wl(3) == 1) { int r = q[got]->decode(p, *c, true); SIM_CHECK(r == 0, "incomplete-accepted", "reading a %s of which not all bytes have arrived returned normally", q[got]->name()); sim::probe("incomplete-read"); }
        }
        SIM_CHECK(got == n, "lost", "%d of %d messages received", got, n);
    } else {
        bool one = sim::wl(2); std::unique_ptr<Chan> c(new Chan());
        if (one) c->feed(p, all.data(), all.size());                      // archives back to back on one stream
        for (int i = 0; i < n; i++) {
            if (!one) { c.reset(new Chan()); c->feed(p, enc[i].data(), enc[i].size()); }
            if (!one && sim::wl(2)) {                                     // a cut copy first
                size_t e = enc[i].find_last_not_of(" \n"), last = enc[i].find_last_of(" \n", e) + 1, lim = p == us::PROTOCOL_BOOST_TEXT ? last : enc[i].size();
                size_t k = sim::wl((uint32_t)lim); std::unique_ptr<Chan> d(new Chan()); d->feed(p, enc[i].data(), k);
                int r = q[i]->decode(p, *d, true); SIM_CHECK(r == 0, "incomplete-accepted", "reading a %s cut to %zu of %zu bytes returned normally", q[i]->name(), k, enc[i].size()); sim::probe("incomplete-read");
            }
            sim::yield();
            int r = q[i]->decode(p, *c, true); SIM_CHECK(r == 1, r ? "different-value" : "refused", "a %s sent intact was %s", q[i]->name(), r ? "received with another value" : "refused"); sim::probe("messages");
        }
    }
}
}
SCENARIO(links, 3) {
    int nt = 1 + sim::wl(3); if (nt > 1) sim::sched_random();
    for (int t = 0; t < nt; t++) { us::SerializationProtocol p = proto(); int n = 1 + sim::wl(6); if (nt == 1) { sim::sample(sim::fmt("protocol %d, %d messages", (int)p, n)); link(p, n); } else sim::spawn([p, n]() { link(p, n); }, "link"); }
    sim::join_all(); sim::nontrivial();
}
SCENARIO(damage, 2) {
    us::SerializationProtocol p = proto(); std::unique_ptr<Msg> m(make(p)), other(make(p)); std::string d = m->encode(p); 
    switch (sim::wl(6)) {
    case 0: { int k = 1 + sim::wl(4); for (int i = 0; i < k; i++) d[sim::wl((uint32_t)d.size())] = (char)sim::wl(256); sim::fault("bytes-changed"); break; }
    case 1: { size_t a = sim::wl((uint32_t)d.size()), n = 1 + sim::wl(20); d.erase(a, n); sim::fault("fragment-lost"); break; }
    case 2: { size_t a = sim::wl((uint32_t)d.size()), n = 1 + sim::wl(20); d.insert(a, d.substr(a, n)); sim::fault("fragment-duplicated"); break; }
    case 3: { size_t a = sim::wl((uint32_t)d.size()), b = sim::wl((uint32_t)d.size()); if (a > b) std::swap(a, b); std::string x = d.substr(a, b - a); d = d.substr(0, a) + d.substr(b) + x; sim::fault("fragments-reordered"); break; }
    case 4: { uint32_t n = sim::wl(200); d.clear(); for (uint32_t i = 0; i < n; i++) d += (char)sim::wl(256); sim::fault("rubbish"); break; }
    default: { d = other->encode(p); sim::fault("other-type"); break; }
    }
    if (p == us::PROTOCOL_BOOST_TEXT && sim::wl(4) == 1 && d.size()) { size_t a = sim::wl((uint32_t)d.size()); while (a > 0 && d[a - 1] != ' ') a--; size_t e = d.find(' ', a); if (e == std::string::npos) e = d.size(); static const char* const s[] = {"7", "100", "4000000000", "-1", "18446744073709551615", "x", "1e400", "nan"}; d.replace(a, e - a, s[sim::wl(8)]); }
    { sim::Rt r; sim::mix(sim::fnv(d)); }
    std::unique_ptr<Chan> c(new Chan()); if (d.size()) c->feed(p, d.data(), d.size());
    int r = m->decode(p, *c, false); sim::heap_check();
    sim::probe(r == 0 ? "rejected" : r == 1 ? "unharmed" : "other-value"); sim::nontrivial();
}
