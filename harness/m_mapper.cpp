// C17: binary and identity mappers.
#include "kse_rt.h"
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/serialization/identity_mapper.h>

namespace {
typedef std::vector<unsigned char> bytes;
struct small { uint8_t a; };
struct padded { int8_t a; double d; uint16_t b; };          // has padding
struct big { int64_t v[3]; char name[7]; bool flag; float f; };
void symBytes(bytes &m, size_t n) { m.resize(n); if (n) kse_make_symbolic(m.data(), n, "message"); }

template<class T> void caster()
{
    kpsr::Mapper<T, bytes> mapper;
    alignas(T) unsigned char raw[sizeof(T)], raw2[sizeof(T)];
    kse_make_symbolic(raw, sizeof raw, "event");
    kse_make_symbolic(raw2, sizeof raw2, "other event");
    T &event = *(T *) raw, &other = *(T *) raw2;
    bytes m;
    symBytes(m, kse_pick(2 * sizeof(T), "previous length"));
    mapper.toMiddleware(event, m);
    CHECK(m.size() == sizeof(T), "a message is as long as the event");
    CHECK(memcmp(m.data(), raw, sizeof(T)) == 0, "a message holds the bytes of the event, whatever it held before");
    mapper.fromMiddleware(m, other);
    CHECK(memcmp(raw2, raw, sizeof(T)) == 0, "the event comes back byte for byte");
    // an arbitrary message
    bytes in;
    symBytes(in, kse_pick(2 * sizeof(T), "length"));
    bytes copy = in;
    try {
        mapper.fromMiddleware(in, other);
        CHECK(in.size() >= sizeof(T), "a message shorter than the event is rejected");
        CHECK(memcmp(raw2, copy.data(), sizeof(T)) == 0, "an event is made of the first bytes of the message");
        REACH("accepted");
    } catch (std::exception &) {
        CHECK(in.size() < sizeof(T), "a message that is long enough is accepted");
        CHECK(memcmp(raw2, raw, sizeof(T)) == 0, "a rejected message leaves the event alone");
        REACH("rejected");
    }
    CHECK(in == copy, "a message is not changed by reading it");
    bytes back;
    mapper.toMiddleware(other, back);
    if (in.size() >= sizeof(T)) CHECK(memcmp(back.data(), in.data(), sizeof(T)) == 0, "a message comes back from the event it made");
}
}
//! harness: caster
//! prop: C17
//! opts: --qtime=60
//! time: 60
//! reach: accepted rejected
//! bounds: three event types of 1, 24 and 40 bytes with padding, every content; every message of up to twice that length less one, every content; every previous content of the message written to
//! outside: other event types; types that are not trivially copyable; messages that were written with another byte order or layout
HARNESS(caster)
{
    switch (kse_pick(3, "type")) {
    case 0: caster<small>(); break;
    case 1: caster<padded>(); break;
    default: caster<big>();
    }
}

namespace {
struct poco { int64_t a; std::string s; std::vector<int32_t> v;
    bool operator==(const poco &o) const { return a == o.a && s == o.s && v == o.v; } };
std::string symString(unsigned max) { std::string s; unsigned n = kse_pick(max + 1, "length"); for (unsigned i = 0; i < n; i++) s.push_back((char) sym_u8("char")); return s; }
poco symPoco() { poco p; p.a = sym_i64("a"); p.s = symString(2); unsigned n = kse_pick(3, "elements"); for (unsigned i = 0; i < n; i++) p.v.push_back(sym_i32("element")); return p; }
}
//! harness: identity
//! prop: C17
//! opts: --qtime=60
//! time: 60
//! reach: both
//! bounds: an event of an integer, a string of up to 2 characters and a vector of up to 2 elements, every content, over every previous content of the destination
//! outside: longer members
HARNESS(identity)
{
    kpsr::Mapper<poco, poco> mapper;
    poco e = symPoco(), dst = symPoco(), keep = e;
    if (kse_pick(2, "direction")) mapper.fromMiddleware(e, dst); else mapper.toMiddleware(e, dst);
    CHECK(dst == keep, "an event and its message are equal");
    CHECK(e == keep, "the source is not changed");
    e.a++; e.s.push_back('x'); e.v.push_back(1);
    CHECK(dst == keep, "an event and its message are independent");
    REACH("both");
}
