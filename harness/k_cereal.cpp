// C42: the cereal mappers carry an event across.
//! cflags: -I$R/serialization/modules/serialization/include
//! support: support_ios
//! assume: cereal and rapidjson as installed are part of what is executed; streams are libstdc++'s own, without locales
#include "kse_rt.h"
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cereal/types/vector.hpp>
#include <klepsydra/core/non_copying_stream_buffer.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
struct event_t {
    int32_t a = 0;
    uint8_t b = 0;
    int64_t c = 0;
    bool d = false;
    std::string s;
    std::vector<int16_t> v;
    template<class A> void serialize(A &ar) { ar(CEREAL_NVP(a), CEREAL_NVP(b), CEREAL_NVP(c), CEREAL_NVP(d), CEREAL_NVP(s), CEREAL_NVP(v)); }
    bool operator==(const event_t &o) const { return a == o.a && b == o.b && c == o.c && d == o.d && s == o.s && v == o.v; }
};
event_t symbolic(unsigned most)
{
    event_t e;
    e.a = sym_i32("a"); e.b = sym_u8("b"); e.c = sym_i64("c"); e.d = sym_u8("d") & 1;
    e.s.resize(pick(most, "characters"));
    for (auto &c : e.s) c = (char) sym_u8("character");
    e.v.resize(pick(most, "elements"));
    for (auto &x : e.v) x = (int16_t) sym_u32("element");
    return e;
}
}
//! harness: binary_trip
//! prop: C42
//! reach: inplace stream two
//! time: 120
//! bounds: one or two events of six fields with arbitrary values and up to 2 (thorough: 3) characters and elements, one after the other in a message, read from the message in place or from the stream it was written to, into an event of any content
//! outside: longer strings and vectors
HARNESS(binary_trip)
{
    kpsr::Mapper<event_t, Base> mapper;
    int n = 1 + pick(2, "events");
    event_t e[2], copy[2];
    std::stringbuf buffer;
    Base b = &buffer;
    for (int i = 0; i < n; i++) {
        copy[i] = e[i] = i ? event_t(e[0]) : symbolic(KSE_THOROUGH ? 4 : 3);
        if (i) copy[i].a = e[i].a = sym_i32("a");
        mapper.toMiddleware(e[i], b);
        CHECK(e[i] == copy[i] && b == &buffer, "a mapper does not change its source");
    }
    if (n == 2) REACH("two");
    std::string bytes = buffer.str();
    std::unique_ptr<char[]> message(new char[bytes.size()]);
    memcpy(message.get(), bytes.data(), bytes.size());
    kpsr::core::NonCopyingStringBuffer in(message.get(), (long) bytes.size());
    bool inplace = pick(2, "in place");
    Base from = inplace ? (Base) &in : b;
    for (int i = 0; i < n; i++) {
        event_t r = i || pick(2, "old") ? symbolic(2) : event_t();
        mapper.fromMiddleware(from, r);
        CHECK(r == e[i], "an event is restored from its message");
    }
    CHECK(memcmp(message.get(), bytes.data(), bytes.size()) == 0, "reading leaves the message as it is");
    CHECK(from->in_avail() <= 0, "a message holds nothing but its event");
    if (inplace) REACH("inplace"); else REACH("stream");
}
//! harness: binary_short
//! prop: C42
//! reach: refused again
//! time: 120
//! bounds: the message of an event with arbitrary values, up to 1 character and element, cut off at any place; a whole message read afterwards
//! outside: messages that are damaged otherwise
HARNESS(binary_short)
{
    kpsr::Mapper<event_t, Base> mapper;
    event_t e = symbolic(2);
    std::stringbuf buffer;
    Base b = &buffer;
    mapper.toMiddleware(e, b);
    std::string bytes = buffer.str();
    size_t n = pick((unsigned) bytes.size(), "length");
    std::unique_ptr<char[]> message(new char[n]); // reading beyond the end is an error
    memcpy(message.get(), bytes.data(), n);
    kpsr::core::NonCopyingStringBuffer in(message.get(), (long) n);
    Base from = &in;
    event_t r;
    bool refused = false;
    try { mapper.fromMiddleware(from, r); } catch (std::exception &) { refused = true; }
    CHECK(refused, "a message that is too short is refused");
    REACH("refused");
    mapper.fromMiddleware(b, r);
    CHECK(r == e, "a mapper that has refused a message can be used again");
    REACH("again");
}
namespace {
struct small_t {
    int16_t a = 0;
    bool b = false;
    std::string s;
    std::vector<uint8_t> v;
    template<class A> void serialize(A &ar) { ar(CEREAL_NVP(a), CEREAL_NVP(b), CEREAL_NVP(s), CEREAL_NVP(v)); }
    bool operator==(const small_t &o) const { return a == o.a && b == o.b && s == o.s && v == o.v; }
};
const int16_t numbers[8] = {0, 9, 10, 255, -1, -128, 32767, -32768};
}
//! harness: json_trip
//! prop: C42
//! reach: done old
//! time: 120
//! bounds: an event of four fields: a number (one of 8), a truth value, any string of up to 1 (thorough: 2) ASCII characters or up to 2 elements; the message and the event may hold something before
//! outside: longer strings and vectors; strings with zero characters (cereal ends a string there) and beyond ASCII; other numbers
HARNESS(json_trip)
{
    kpsr::Mapper<small_t, std::string> mapper;
    small_t e, r;
    int what = pick(4, "what");
    if (what == 0) e.a = numbers[pick(8, "a")];
    if (what == 1) e.b = pick(2, "b");
    if (what == 2) { e.s.resize(1 + pick(KSE_THOROUGH ? 2 : 1, "characters")); for (auto &c : e.s) { c = (char) sym_u8("character"); ASSUME(c > 0); } }
    if (what == 3) { e.v.resize(pick(3, "elements")); for (auto &x : e.v) x = (uint8_t) numbers[pick(4, "element")]; }
    small_t copy = e;
    std::string text;
    if (pick(2, "old")) { text = std::string(pick(2, "long") ? 400 : 1, '{') + "1"; r.a = 7; r.b = true; r.s = "old"; r.v.assign(3, 1); REACH("old"); }
    mapper.toMiddleware(e, text);
    CHECK(e == copy, "a mapper does not change its source");
    std::string fresh;
    mapper.toMiddleware(e, fresh);
    CHECK(text == fresh, "a message holds nothing but its event");
    std::string before = text;
    mapper.fromMiddleware(text, r);
    CHECK(r == e, "an event is restored from its message");
    CHECK(text == before, "reading leaves the message as it is");
    REACH("done");
}
//! harness: json_short
//! prop: C42
//! reach: refused again
//! time: 120
//! bounds: the message of an event cut off at any place before its end; a whole message read afterwards
//! outside: messages that are damaged otherwise
HARNESS(json_short)
{
    kpsr::Mapper<small_t, std::string> mapper;
    small_t e, r;
    e.a = numbers[pick(8, "a")]; e.s = "x"; e.v.assign(1, 2);
    std::string text;
    mapper.toMiddleware(e, text);
    size_t end = text.rfind('}');
    CHECK(end != std::string::npos && end > 10, "a message is a document");
    std::string cut = text.substr(0, pick((unsigned) end, "length"));
    bool refused = false;
    try { mapper.fromMiddleware(cut, r); } catch (std::exception &) { refused = true; }
    CHECK(refused, "a message that is too short is refused");
    REACH("refused");
    mapper.fromMiddleware(text, r);
    CHECK(r == e, "a mapper that has refused a message can be used again");
    REACH("again");
}
