// C25: environments (in memory, configuration, dynamic properties). C26: property files.
//! cflags: -I$V/stubs/sdk -I$V/stubs/json -I$R/core/modules/core/src -I$R/core/modules/mem_mdlw/src
//! libs: -lpthread
//! assume: the Klepsydra SDK's environment interface is a stand-in written from its uses; cereal's JSON archives are a stand-in that keeps documents as trees of named nodes, and file and string streams are stand-ins that hold lines of text, so JSON syntax, number syntax of floating point values and file access are outside
#include "kse_rt.h"
#include <string.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <cereal/archives/json.hpp>
#include <klepsydra/sdk/environment.h>

#include "text_streams.h"
#include <configuration_environment.cpp>
#include <mem_env.cpp>
#include <prop_file_environment.cpp>

namespace {
struct value_t {
    std::string s; int32_t i = 0; uint32_t f = 0; bool b = false;
    bool same(const value_t &o, int kind) const { switch (kind) { case 0: return s == o.s; case 1: return i == o.i; case 2: return f == o.f; default: return b == o.b; } }
};
float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
uint32_t bitsOf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
value_t anyValue(const char *name)
{
    value_t v;
    char c[2] = {(char) sym_u8(name), 0};
    v.s = std::string(c, 1); v.i = sym_i32(name); v.f = sym_u32(name); v.b = sym_bool(name);
    return v;
}
bool get(kpsr::Environment &e, int kind, const std::string &key, const std::string &root, value_t &v, const value_t &def)
{
    switch (kind) {
    case 0: v.s = "?"; return e.getPropertyString(key, v.s, def.s, root);
    case 1: v.i = ~def.i; return e.getPropertyInt(key, v.i, def.i, root);
    case 2: { float f = bits(~def.f); bool r = e.getPropertyFloat(key, f, bits(def.f), root); v.f = bitsOf(f); return r; }
    default: v.b = !def.b; return e.getPropertyBool(key, v.b, def.b, root);
    }
}
void set(kpsr::Environment &e, int kind, const std::string &key, const std::string &root, const value_t &v)
{
    switch (kind) {
    case 0: e.setPropertyString(key, v.s, root); break;
    case 1: e.setPropertyInt(key, v.i, root); break;
    case 2: e.setPropertyFloat(key, bits(v.f), root); break;
    default: e.setPropertyBool(key, v.b, root);
    }
}
const char *KEY[] = {"a", "ab", "n/a"}, *ROOT[] = {"", "n"};
std::string pathOf(const std::string &key, const std::string &root) { return root.empty() ? key : root + "/" + key; }
struct model_t {
    std::map<std::string, value_t> m[4];
    void compare(kpsr::Environment &e, const char *what)
    {
        value_t def = anyValue("default"), got;
        for (int kind = 0; kind < 4; kind++) for (auto key : KEY) for (auto root : ROOT) {
            auto it = m[kind].find(pathOf(key, root));
            bool has = get(e, kind, key, root, got, def);
            if (it == m[kind].end()) { CHECK(!has && got.same(def, kind), "a property that is not there is reported and has the default value"); }
            else CHECK(has && got.same(it->second, kind), what);
        }
    }
};
// a document with some properties
struct doc_t {
    std::map<std::string, value_t> m[4];
    bool has[4] = {};
    std::string text()
    {
        const char *section[] = {"StringProperties", "IntProperties", "FloatProperties", "BoolProperties"};
        cereal::Node root;
        for (int kind = 3; kind >= 0; kind--) {
            if (!has[kind]) continue;
            cereal::Node s; s.name = section[kind];
            for (auto &p : m[kind]) { cereal::Node n; n.name = p.first; n.kind = kind + 1; n.s = p.second.s; n.i = p.second.i; n.f = bits(p.second.f); n.b = p.second.b; s.children.push_back(n); }
            root.children.push_back(s);
        }
        return cereal::publish(root);
    }
};
doc_t anyDoc(int kinds)
{
    doc_t d;
    for (int k = 0; k < 4; k++) if (kinds >> k & 1) { d.has[k] = true; d.m[k]["a"] = anyValue("file a"); if (k & 1) d.m[k]["ab"] = anyValue("file ab"); }
    return d;
}
template<class Env> void environment_history()
{
    Env e;
    model_t m;
    m.compare(e, "");
    int steps = KSE_THOROUGH ? 3 : 2;
    for (int s = 0; s < steps; s++) {
        int kind = (int) kse_choose(4, "kind"), k = (int) kse_choose(3, "key"), r = (int) kse_choose(2, "root");
        value_t v = anyValue("v");
        set(e, kind, KEY[k], ROOT[r], v);
        std::string path = pathOf(KEY[k], ROOT[r]);
        if (m.m[kind].count(path)) REACH("overwritten"); else REACH("added");
        m.m[kind][path] = v;
        m.compare(e, "a property has the value that was set last");
    }
}
}
//! harness: env_memory
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: added overwritten
//! bounds: every sequence of 2 (thorough: 3) settings of any of 4 types, 3 keys and 2 root nodes with arbitrary values, every property read back after each with arbitrary defaults
//! outside: longer sequences, other keys
HARNESS(env_memory) { environment_history<kpsr::mem::MemEnv>(); }
//! harness: env_configuration
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: added overwritten
//! bounds: every sequence of 2 (thorough: 3) settings of any of 4 types, 3 keys and 2 root nodes with arbitrary values, every property read back after each with arbitrary defaults
//! outside: longer sequences, other keys
HARNESS(env_configuration) { environment_history<kpsr::ConfigurationEnvironment>(); }
//! harness: env_memory_threads
//! prop: C25
//! opts: --races=1 --qtime=60
//! time: 60
//! reach: before after
//! bounds: one thread sets two properties of any type while another reads one of them and sets a third; every interleaving
//! outside: more threads or operations
HARNESS(env_memory_threads)
{
    kpsr::mem::MemEnv e;
    int kind = (int) kse_choose(4, "kind");
    value_t v0, v1, v2, got;
    v0.s = "0"; v0.i = 10; v0.f = 100; v0.b = false;
    v1.s = "1"; v1.i = 11; v1.f = 101; v1.b = true;
    v2.s = "2"; v2.i = 12; v2.f = 102; v2.b = true;
    set(e, kind, "a", "", v0);
    std::thread t([&]() { set(e, kind, "a", "", v1); set(e, kind, "b", "", v2); });
    bool has = get(e, kind, "a", "", got, v2);
    CHECK(has && (got.same(v0, kind) || got.same(v1, kind)), "a property has a value that was set, whole");
    if (got.same(v0, kind)) REACH("before"); else REACH("after");
    set(e, kind, "c", "", v0);
    t.join();
    CHECK(get(e, kind, "a", "", got, v2) && got.same(v1, kind), "a property has the value that was set last");
    CHECK(get(e, kind, "b", "", got, v0) && got.same(v2, kind), "a property has the value that was set last");
    CHECK(get(e, kind, "c", "", got, v2) && got.same(v0, kind), "a property has the value that was set last");
}
//! harness: env_load
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: loaded clash missing broken constructed
//! bounds: an environment with 2 properties of any type loads a file with any subset of the four sections and 1 or 2 arbitrary properties in each, under any root node, when it is constructed or later, or a file that is missing or is no document
//! outside: JSON syntax; values of another type than their section; larger files
HARNESS(env_load)
{
    std::map<std::string, std::string> files;
    std::kse_files = &files;
    cereal::documents().clear();
    doc_t d = anyDoc((int) kse_choose(16, "sections"));
    int broken = (int) kse_choose(3, "file");
    if (broken == 0) files["f"] = d.text(); else if (broken == 1) files["f"] = "{";
    const char *root = ROOT[kse_choose(2, "root")];
    model_t m;
    auto merge = [&]() {
        bool clash = false;
        for (int k = 0; k < 4; k++) for (auto &p : d.m[k]) {
            std::string path = pathOf(p.first, root);
            if (m.m[k].count(path)) clash = true; else m.m[k][path] = p.second;
        }
        return !clash;
    };
    if (broken == 0 && kse_choose(2, "when")) {
        kpsr::ConfigurationEnvironment e("f", root);
        merge();
        m.compare(e, "properties are loaded from the file");
        REACH("constructed");
        std::kse_files = nullptr;
        return;
    }
    kpsr::ConfigurationEnvironment e;
    int kind = (int) kse_choose(4, "kind");
    for (int i = 0; i < 2; i++) {
        value_t v = anyValue("set");
        const char *key = i ? "n/a" : KEY[kse_choose(2, "key")];
        set(e, kind, key, "", v);
        m.m[kind][key] = v;
    }
    bool r = e.loadFile("f", root);
    if (broken) { CHECK(!r, "a file that cannot be read is reported"); if (broken == 1) REACH("broken"); else REACH("missing"); }
    else {
        bool want = merge();
        CHECK(r == want, "loading a file reports whether all its properties were new");
        if (want) REACH("loaded"); else REACH("clash");
    }
    m.compare(e, "a loaded property has the value of the file unless it was set before");
    std::kse_files = nullptr;
}
//! harness: env_update
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: updated roundtrip refused
//! bounds: an environment with 2 properties of any type is updated from a document with any subset of the four sections, or from a text that is no document, or from what another environment with arbitrary properties exports
//! outside: JSON syntax; values of another type than their section; larger documents
HARNESS(env_update)
{
    std::kse_files = nullptr;
    cereal::documents().clear();
    kpsr::ConfigurationEnvironment e;
    model_t m;
    int kind = (int) kse_choose(4, "kind");
    for (int i = 0; i < 2; i++) {
        value_t v = anyValue("set");
        int k = i ? (kind + 1) % 4 : kind;
        set(e, k, "ab", ROOT[i], v);
        m.m[k][pathOf("ab", ROOT[i])] = v;
    }
    int mode = (int) kse_choose(3, "mode");
    if (mode == 0) {
        doc_t d = anyDoc((int) kse_choose(16, "sections"));
        CHECK(e.updateConfiguration(d.text()), "a document is read");
        for (int k = 0; k < 4; k++) if (d.has[k]) m.m[k] = d.m[k];
        m.compare(e, "an update replaces the properties of every type the document has");
        REACH("updated");
    } else if (mode == 1) {
        CHECK(!e.updateConfiguration("no document"), "a text that is no document is reported");
        m.compare(e, "a refused update changes nothing");
        REACH("refused");
    } else {
        std::string text = e.exportEnvironment();
        m.compare(e, "exporting changes nothing");
        kpsr::ConfigurationEnvironment f;
        set(f, (int) kse_choose(4, "other kind"), "a", "", anyValue("other"));
        CHECK(f.updateConfiguration(text), "an exported environment can be read");
        m.compare(f, "an exported environment is read back as it was");
        REACH("roundtrip");
    }
}
//! harness: env_dynamic
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: other-type overwritten copied kept
//! bounds: two collections of properties (dynamically or statically typed): every sequence of 3 (thorough: 4) settings of 2 types, 2 names, and copies from one to the other with or without prefix, or one less when a collection starts with two properties
//! outside: longer sequences, reading a dynamic property of another type than it was set with
HARNESS(env_dynamic)
{
    bool dynamic = kse_choose(2, "dynamic");
    kpsr::DynamicConfigurationProperties d[2];
    kpsr::ConfigurationProperties<int> si[2];
    kpsr::ConfigurationProperties<std::string> ss[2];
    struct entry { int type; int i; std::string s; };
    std::map<std::string, entry> m[2][2]; // [collection][type unless dynamic]
    auto names = std::vector<std::string>{"a", "b", "p/a", "p/b"};
    bool full = kse_choose(2, "full"); // one collection starts with two properties
    if (full) for (int i = 0; i < 2; i++) {
        entry n{0, sym_i32("first"), ""};
        if (dynamic) d[0].setProperty<int>(names[i], n.i); else si[0].setProperty(names[i], n.i);
        m[0][0][names[i]] = n;
    }
    int steps = (KSE_THOROUGH ? 4 : 3) - full;
    for (int s = 0; s < steps; s++) {
        int op = (int) kse_choose(4, "op"), c = (int) kse_choose(2, "collection"), t = op & 1;
        if (op < 2) {
            const std::string &name = names[kse_choose(2, "name")];
            entry n{t, sym_i32("i"), std::string(1, (char) sym_u8("s"))};
            auto &mm = m[c][dynamic ? 0 : t];
            auto it = mm.find(name);
            bool want = it == mm.end() || it->second.type == t;
            if (!want) REACH("other-type"); else if (it != mm.end()) REACH("overwritten");
            bool r;
            if (dynamic) r = t ? d[c].setProperty<std::string>(name, n.s) : d[c].setProperty<int>(name, n.i);
            else r = t ? ss[c].setProperty(name, n.s) : si[c].setProperty(name, n.i);
            CHECK(r == want, "a property is set unless it has another type");
            if (want) mm[name] = n;
        } else {
            std::string prefix = op == 2 ? "" : "p";
            if (s == 0 && !full) return;
            bool clash[2] = {};
            for (int k = 0; k < 2; k++) {
                auto from = m[1 - c][k];
                for (auto &p : from) { std::string n = pathOf(p.first, prefix); if (m[c][k].count(n)) { clash[k] = true; REACH("kept"); } else m[c][k][n] = p.second; }
            }
            if (dynamic) d[c].copyFrom(d[1 - c], prefix);
            else { bool ri = si[c].copyFrom(si[1 - c], prefix), rs = ss[c].copyFrom(ss[1 - c], prefix); CHECK(ri == !clash[0] && rs == !clash[1], "copying reports whether all properties were new"); }
            REACH("copied");
        }
        for (int k = 0; k < 2; k++) for (auto &n : names) for (int ty = 0; ty < 2; ty++) {
            auto &mm = m[k][dynamic ? 0 : ty];
            auto it = mm.find(n);
            int i = 77; std::string str = "??";
            bool r;
            if (dynamic) r = ty ? d[k].getProperty(n, str) : d[k].getProperty(n, i);
            else r = ty ? ss[k].getProperty(n, str) : si[k].getProperty(n, i);
            bool want = it != mm.end() && it->second.type == ty;
            CHECK(r == want, "a property is found by its name and type");
            if (want) CHECK(ty ? str == it->second.s : i == it->second.i, "a property has the value that was set last");
            else CHECK(i == 77 && str == "??", "a property that is not found leaves the value alone");
        }
    }
}
namespace {
std::string anyText(const char *name, int max, int min = 0)
{
    int n = min + (int) kse_choose(max - min + 1, "length");
    char c[8];
    for (int i = 0; i < n; i++) { c[i] = (char) sym_u8(name); ASSUME(c[i] != 0); }
    return std::string(c, n);
}
template<class Env> void environment_keys()
{
    Env e;
    int kind = (int) kse_choose(4, "kind");
    std::string k[3], path[3];
    for (int i = 0; i < 3; i++) { k[i] = anyText("key", 2, 1); std::string root = kse_choose(2, "root") ? anyText("root", 1, 1) : ""; path[i] = pathOf(k[i], root); k[i] = root; }
    auto key = [&](int i) { return k[i].empty() ? path[i] : path[i].substr(k[i].size() + 1); };
    value_t v[2] = {anyValue("v"), anyValue("v")}, def = anyValue("default"), got;
    for (int i = 0; i < 2; i++) set(e, kind, key(i), k[i], v[i]);
    bool has = get(e, kind, key(2), k[2], got, def);
    if (path[2] == path[1]) { CHECK(has && got.same(v[1], kind), "a property has the value that was set last"); REACH("last"); }
    else if (path[2] == path[0]) { CHECK(has && got.same(v[0], kind), "a property has the value that was set last"); REACH("first"); }
    else { CHECK(!has && got.same(def, kind), "a property that is not there is reported and has the default value"); REACH("missing"); }
    CHECK(!get(e, (kind + 1) % 4, key(2), k[2], got, def), "properties of different types are different properties");
}
}
//! harness: env_keys_memory
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: first last missing
//! bounds: two settings and one look-up with any keys of 1 or 2 characters and any root nodes of up to 1 character
//! outside: longer keys
HARNESS(env_keys_memory) { environment_keys<kpsr::mem::MemEnv>(); }
//! harness: env_keys_configuration
//! prop: C25
//! opts: --qtime=60
//! time: 120
//! reach: first last missing
//! bounds: two settings and one look-up with any keys of 1 or 2 characters and any root nodes of up to 1 character
//! outside: longer keys
HARNESS(env_keys_configuration) { environment_keys<kpsr::ConfigurationEnvironment>(); }
namespace {
bool blank(char c) { return c == ' ' || c == '\t'; }
// what a property file means; 0 nothing, 1 property, 2 error, 3 not specified
int lineMeaning(const std::string &line, std::string &key, std::string &value)
{
    size_t end = 0;
    while (end < line.size() && line[end] != ';') end++;
    size_t first = 0;
    while (first < end && blank(line[first])) first++;
    if (first == end) { for (size_t i = 0; i < end; i++) if (line[i] == '\t') return 3; return 0; }
    size_t eq = first;
    while (eq < end && line[eq] != '=') eq++;
    if (eq == end || eq == first) return 2;
    size_t ke = eq;
    while (ke > first && blank(line[ke - 1])) ke--;
    for (size_t i = first; i < ke; i++) if (blank(line[i])) return 3; // blanks inside a key
    size_t vb = eq + 1, ve = end;
    while (vb < ve && blank(line[vb])) vb++;
    while (ve > vb && blank(line[ve - 1])) ve--;
    if (vb == ve) { for (size_t i = eq + 1; i < end; i++) if (line[i] == '\t') return 3; return 2; }
    key = line.substr(first, ke - first); value = line.substr(vb, ve - vb);
    return 1;
}
struct file_t { std::vector<std::pair<std::string, std::string>> p; bool error = false, unspecified = false; };
file_t fileMeaning(const std::string &text)
{
    file_t f;
    for (size_t at = 0; at < text.size();) {
        size_t e = at;
        while (e < text.size() && text[e] != '\n') e++;
        std::string key, value;
        int m = lineMeaning(text.substr(at, e - at), key, value);
        at = e + 1;
        if (f.error || m == 0) continue;
        if (m == 2) f.error = true;
        if (m == 3) f.unspecified = true;
        if (m == 1) { for (auto &q : f.p) if (q.first == key) f.error = true; f.p.push_back({key, value}); }
    }
    return f;
}
void checkFile(const std::string &text, const std::string &other)
{
    file_t want = fileMeaning(text);
    if (want.unspecified) { REACH("unspecified"); return; }
    bool thrown = false;
    std::unique_ptr<kpsr::PropertyFileEnvironment> e;
    std::map<std::string, std::string> files;
    std::kse_files = &files;
    try {
        if (kse_choose(2, "from a file")) { files["f"] = text; e.reset(new kpsr::PropertyFileEnvironment(std::string("f"))); }
        else { std::kse_istream s; s.text = text; e.reset(new kpsr::PropertyFileEnvironment(s)); }
    } catch (const std::invalid_argument &) { thrown = true; }
    std::kse_files = nullptr;
    CHECK(thrown == want.error, "a malformed property file is refused, any other is read");
    if (thrown) { REACH("refused"); return; }
    for (auto &p : want.p) {
        std::string v;
        bool has = e->getPropertyString(p.first, v, "default");
        CHECK(has && v == p.second, "a property has the value from the file, without surrounding blanks and comments");
        REACH("read");
    }
    bool there = false;
    for (auto &p : want.p) if (p.first == other) there = true;
    std::string v;
    if (!there) { CHECK(!e->getPropertyString(other, v, "default") && v == "default", "a property that is not in the file is reported and has the default value"); REACH("missing"); }
}
}
//! harness: file_line
//! prop: C26
//! opts: --qtime=60
//! time: 120
//! reach: refused read missing unspecified
//! bounds: every text of up to 4 (thorough: 5) arbitrary characters, and a look-up of an arbitrary name of one character
//! outside: longer texts; lines of tabs only, blanks inside of a name, and values of tabs only, which the format leaves open
HARNESS(file_line)
{
    std::string text = anyText("c", KSE_THOROUGH ? 5 : 4), other = anyText("other", 1, 1);
    checkFile(text, other);
}
//! harness: file_lines
//! prop: C26
//! opts: --qtime=60
//! time: 120
//! reach: refused read missing unspecified
//! bounds: two properties with names of one arbitrary character each, the value of the first one arbitrary too, the first with one more arbitrary character before the name, around the separator or after the value, with a comment or an empty line between
//! outside: more lines
HARNESS(file_lines)
{
    std::string text;
    int where = (int) kse_choose(5, "where");
    for (int i = 0; i < 2; i++) {
        std::string x = i == 0 ? anyText("x", 1, 1) : "";
        if (where == 0) text += x;
        text += anyText("key", 1, 1);
        if (where == 1) text += x;
        text += "=";
        if (where == 2) text += x;
        text += i == 0 ? anyText("value", 1, 1) : "2";
        if (where == 3) text += x;
        text += "\n";
        if (i == 0) { if (where == 4) text += "\n"; else text += ";=\n"; }
    }
    checkFile(text, anyText("other", 1, 1));
}
//! harness: file_values
//! prop: C26
//! opts: --qtime=60
//! time: 120
//! reach: int bool hex refused text float missing
//! bounds: values of up to 3 characters read as whole numbers (decimal or hexadecimal), truth values and texts, with arbitrary defaults
//! outside: the syntax of floating point values; other keys; longer values
HARNESS(file_values)
{
    int mode = (int) kse_choose(6, "mode");
    std::string value;
    int64_t number = 0;
    bool ok = true;
    auto digit = [&](int radix) { uint8_t d = sym_u8("digit"); ASSUME(d < radix); number = number * radix + d; value += (char) (d < 10 ? '0' + d : 'a' + d - 10); };
    if (mode == 0) { int n = 1 + (int) kse_choose(3, "digits"); for (int i = 0; i < n; i++) digit(10); }
    else if (mode == 1) { value = "0x"; int n = 1 + (int) kse_choose(2, "digits"); for (int i = 0; i < n; i++) digit(16); }
    else if (mode == 2) { value = "-"; digit(10); number = -number; }
    else if (mode == 3) { value = kse_choose(2, "bad") ? "x1" : "0xg"; ok = false; }
    else if (mode == 4) { value = anyText("c", 1, 1) + " " + anyText("c", 1, 1); for (char c : value) ASSUME(c == ' ' || (!blank(c) && c != ';' && c != '\n')); ASSUME(value[0] != ' ' && value[2] != ' '); }
    std::kse_istream s;
    s.text = mode == 5 ? "other=1" : "key = " + value + " ; comment";
    kpsr::PropertyFileEnvironment e(s);
    std::string str = "?";
    int32_t i = 5, di = sym_i32("default");
    bool db = sym_bool("default"), b = !db;
    if (mode == 5) {
        float f = 1, df = bits(sym_u32("default"));
        CHECK(!e.getPropertyString("key", str, "d") && str == "d", "a property that is not in the file is reported and has the default value");
        CHECK(!e.getPropertyInt("key", i, di) && i == di, "a property that is not in the file is reported and has the default value");
        CHECK(!e.getPropertyBool("key", b, db) && b == db, "a property that is not in the file is reported and has the default value");
        CHECK(!e.getPropertyFloat("key", f, df) && bitsOf(f) == bitsOf(df), "a property that is not in the file is reported and has the default value");
        REACH("missing");
        return;
    }
    CHECK(e.getPropertyString("key", str, "d") && str == value, "a property has the value from the file, without surrounding blanks and comments");
    REACH("text");
    if (mode == 4) return;
    bool thrown = false;
    try { CHECK(e.getPropertyInt("key", i, di), "a property in the file is found"); } catch (const std::invalid_argument &) { thrown = true; }
    CHECK(thrown == !ok, "a value that is no number is refused");
    if (thrown) { REACH("refused"); return; }
    CHECK(i == number, "a number has the value from the file");
    if (mode == 1) REACH("hex"); else REACH("int");
    thrown = false;
    try { CHECK(e.getPropertyBool("key", b, db), "a property in the file is found"); } catch (const std::invalid_argument &) { thrown = true; }
    if (!thrown) { CHECK((number == 0 || number == 1) && b == (number == 1), "a truth value has the value from the file"); REACH("bool"); }
    else CHECK(number != 0 && number != 1, "a value that is no truth value is refused");
    if (mode == 0 && value.size() == 1) { float f = 0.5f; CHECK(e.getPropertyFloat("key", f, 0.5f), "a property in the file is found"); for (int n = 0; n < 10; n++) if (number == n) CHECK(f == (float) n, "a number has the value from the file"); REACH("float"); }
}
