// C45: maps of named values and properties as JSON objects.
//! support: support_ios
//! assume: cereal and rapidjson as installed are part of what is executed; streams are libstdc++'s own, without locales
#include "kse_rt.h"
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cereal/archives/json.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <klepsydra/core/property.h>

namespace {
int pick(unsigned n, const char *name) { return (int) kse_concretize(kse_pick(n, name)); }
const int16_t numbers[6] = {0, 9, 10, -1, 255, -32768};
template<class T> struct any;
template<> struct any<int> { static int make() { return numbers[pick(6, "number")]; } };
template<> struct any<bool> { static bool make() { return pick(2, "truth"); } };
template<> struct any<std::string> { static std::string make() { std::string s(pick(2, "characters"), 'x'); for (auto &c : s) { c = (char) sym_u8("character"); ASSUME(c > 0); } return s; } };
template<> struct any<std::vector<int>> { static std::vector<int> make() { std::vector<int> v(pick(3, "elements")); for (auto &x : v) x = numbers[pick(2, "element")]; return v; } };
template<class T> struct any<kpsr::Property<T>> { static kpsr::Property<T> make() { return kpsr::Property<T>(any<T>::make()); } };
template<class T> bool same(const T &a, const T &b) { return a == b; }
template<class T> bool same(const kpsr::Property<T> &a, const kpsr::Property<T> &b) { return a.value == b.value && a.type == b.type && b.type == std::type_index(typeid(T)); }
template<class T> bool same(const std::map<std::string, T> &a, const std::map<std::string, T> &b)
{
    if (a.size() != b.size()) return false;
    for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
    return true;
}
template<class T>
void trip()
{
    static const char *keys[] = {"a", "b", "", "two words", "quote\" back\\slash", "line\n", "caf\xc3\xa9"};
    std::map<std::string, T> m, r;
    int n = pick(KSE_THOROUGH ? 4 : 3, "entries");
    for (int i = 0; i < n; i++) if (i) m.emplace(keys[pick(2, "name")], KSE_THOROUGH ? any<T>::make() : T()); else m.emplace(keys[pick(7, "name")], any<T>::make());
    auto copy = m;
    if (pick(2, "old")) { r.emplace("old", T()); r.emplace("a", T()); REACH("old"); }
    int32_t before = 9, after = -1, rb = 5, ra = 6;
    std::stringstream text;
    {
        cereal::JSONOutputArchive ar(text);
        ar(cereal::make_nvp("before", before), cereal::make_nvp("map", m), cereal::make_nvp("after", after));
    }
    CHECK(same(m, copy), "writing leaves a map as it is");
    {
        cereal::JSONInputArchive ar(text);
        ar(cereal::make_nvp("before", rb), cereal::make_nvp("map", r), cereal::make_nvp("after", ra));
    }
    CHECK(same(m, r), "a map is restored with every name and value");
    CHECK(rb == before && ra == after, "what is next to a map is restored");
    if (m.empty()) REACH("empty"); else if (m.size() == 1) REACH("one"); else REACH("several");
}
}
//! harness: maps_values
//! prop: C45
//! reach: old empty one several
//! time: 120
//! bounds: maps of up to 2 (thorough: 3) entries, the first with one of 7 names and any value, of numbers (one of 6), truth values, strings of up to 1 ASCII character or vectors of up to 2 numbers, between two other fields, read into a map that is empty or not
//! outside: longer texts; strings with zero characters
HARNESS(maps_values)
{
    switch (kse_choose(4, "type")) {
    case 0: trip<int>(); break;
    case 1: trip<bool>(); break;
    case 2: trip<std::string>(); break;
    default: trip<std::vector<int>>(); break;
    }
}
//! harness: maps_properties
//! prop: C45
//! reach: old empty one several
//! time: 120
//! bounds: as maps_values, with properties
HARNESS(maps_properties)
{
    switch (kse_choose(3, "type")) {
    case 0: trip<kpsr::Property<int>>(); break;
    case 1: trip<kpsr::Property<bool>>(); break;
    default: trip<kpsr::Property<std::string>>(); break;
    }
}
