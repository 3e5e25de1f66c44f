// Stand-in for cereal's JSON archives (the library, and rapidjson below it, is no part of /repo): a document is a tree of named
// nodes, written and read in the order and nesting cereal uses; its text is a token that names the tree.
#pragma once
#include <exception>
#include <istream>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace cereal {
struct Exception : std::exception {
    explicit Exception(const char *what) : text(what) {}
    const char *what() const noexcept override { return text; }
    const char *text;
};
struct Node {
    std::string name;
    int kind = 0; // 0 object, 1 string, 2 int, 3 float, 4 bool, 5 long, 6 array
    std::string s;
    int i = 0;
    float f = 0;
    bool b = false;
    long l = 0;
    std::vector<Node> children;
};
// every document that exists; text "<n>" names document n, anything else is no document
inline std::vector<std::shared_ptr<Node>> &documents() { static std::vector<std::shared_ptr<Node>> d; return d; }
inline std::mutex documentsMutex;
inline std::string publish(const Node &n) { std::lock_guard<std::mutex> lock(documentsMutex); documents().push_back(std::make_shared<Node>(n)); std::string t("{0}"); t[1] = (char) ('0' + documents().size() - 1); return t; }
inline std::shared_ptr<Node> parse(const std::string &t)
{
    std::lock_guard<std::mutex> lock(documentsMutex);
    if (t.size() != 3 || t[0] != '{' || t[2] != '}' || t[1] < '0' || (size_t) (t[1] - '0') >= documents().size()) throw Exception("rapidjson internal assertion failure: IsObject()");
    return documents()[t[1] - '0'];
}
struct TextStream { std::string text; }; // what the streams of the harness derive from
namespace traits {
enum class sfinae_t { value };
constexpr sfinae_t sfinae = sfinae_t::value;
template<bool B> using EnableIf = typename std::enable_if<B, sfinae_t>::type;
template<class A> struct is_text_archive : std::true_type {};
}
template<class T> struct NameValuePair { const char *name; T &value; };
template<class T> NameValuePair<T> make_nvp(const char *name, T &&value) = delete;
template<class T> NameValuePair<T> make_nvp(const char *name, T &value) { return NameValuePair<T>{name, value}; }
template<class T> NameValuePair<T> make_nvp(const std::string &name, T &value) { return NameValuePair<T>{name.c_str(), value}; }
#define CEREAL_NVP(x) ::cereal::make_nvp(#x, x)
#define CEREAL_REGISTER_TYPE_WITH_NAME(...)
#define CEREAL_REGISTER_POLYMORPHIC_RELATION(...)
template<class T> struct construct { template<class... A> void operator()(A &&...) {} };
class JSONOutputArchive;
class JSONInputArchive;
template<class T> inline void prologue(JSONOutputArchive &ar, const T &);
template<class T> inline void epilogue(JSONOutputArchive &ar, const T &);
template<class T> inline void prologue(JSONInputArchive &ar, const T &);
template<class T> inline void epilogue(JSONInputArchive &ar, const T &);
class JSONOutputArchive
{
public:
    explicit JSONOutputArchive(TextStream &s) : stream(s) { stack.push_back(&root); }
    ~JSONOutputArchive() { stream.text += publish(root); }
    template<class... A> void operator()(A &&...a) { int dummy[] = {(one(a), 0)...}; (void) dummy; }
    void startNode() { stack.push_back(add(0)); }
    void finishNode() { stack.pop_back(); }
private:
    Node *add(int kind)
    {
        stack.back()->children.push_back(Node());
        Node *n = &stack.back()->children.back();
        n->kind = kind; n->name = next.empty() ? "value" : next; next.clear();
        return n;
    }
    template<class T> void one(const NameValuePair<T> &p) { next = p.name; one(p.value); }
    void one(const std::string &v) { add(1)->s = v; }
    void one(const int &v) { add(2)->i = v; }
    void one(const float &v) { add(3)->f = v; }
    void one(const bool &v) { add(4)->b = v; }
    void one(const long &v) { add(5)->l = v; }
    template<class V, class C, class A> void one(const std::map<std::string, V, C, A> &m) { startNode(); save(*this, m); finishNode(); }
    template<class V, class A> void one(const std::vector<V, A> &v) { stack.push_back(add(6)); for (auto &x : v) one(x); finishNode(); }
    template<class T> auto one(const T &t) -> decltype(const_cast<T &>(t).serialize(*this)) { prologue(*this, t); const_cast<T &>(t).serialize(*this); epilogue(*this, t); }
    template<class T> auto one(const T &t) -> decltype(serialize(*this, const_cast<T &>(t))) { prologue(*this, t); serialize(*this, const_cast<T &>(t)); epilogue(*this, t); }
    TextStream &stream;
    Node root;
    std::vector<Node *> stack;
    std::string next;
};
class JSONInputArchive
{
public:
    explicit JSONInputArchive(TextStream &s) : doc(parse(s.text)) { stack.push_back({doc.get(), 0}); }
    template<class... A> void operator()(A &&...a) { int dummy[] = {(one(a), 0)...}; (void) dummy; }
    const char *getNodeName() const { auto &l = stack.back(); return l.at < l.node->children.size() ? l.node->children[l.at].name.c_str() : nullptr; }
    void startNode() { Node *n = search(); if (n->kind != 0) throw Exception("not an object"); stack.push_back({n, 0}); }
    void finishNode() { stack.pop_back(); stack.back().at++; }
private:
    struct Level { Node *node; size_t at; };
    Node *search()
    {
        Level &l = stack.back();
        if (next) {
            std::string want = next; next = nullptr;
            if (l.at >= l.node->children.size() || l.node->children[l.at].name != want) {
                size_t i = 0;
                while (i < l.node->children.size() && l.node->children[i].name != want) i++;
                if (i == l.node->children.size()) throw Exception("JSON Parsing failed - provided NVP not found");
                l.at = i;
            }
        }
        if (l.at >= l.node->children.size()) throw Exception("JSON Parsing failed - no more values");
        return &l.node->children[l.at];
    }
    Node *leaf(int kind) { Node *n = search(); if (n->kind != kind) throw Exception("wrong type"); stack.back().at++; return n; }
    template<class T> void one(const NameValuePair<T> &p) { next = p.name; one(p.value); }
    void one(std::string &v) { v = leaf(1)->s; }
    void one(int &v) { v = leaf(2)->i; }
    void one(float &v) { v = leaf(3)->f; }
    void one(bool &v) { v = leaf(4)->b; }
    void one(long &v) { v = leaf(5)->l; }
    template<class V, class C, class A> void one(std::map<std::string, V, C, A> &m) { startNode(); load(*this, m); finishNode(); }
    template<class V, class A> void one(std::vector<V, A> &v)
    {
        Node *n = search();
        if (n->kind != 6) throw Exception("not an array");
        stack.push_back({n, 0});
        v.resize(n->children.size());
        for (auto &x : v) one(x);
        finishNode();
    }
    template<class T> auto one(T &t) -> decltype(t.serialize(*this)) { prologue(*this, t); t.serialize(*this); epilogue(*this, t); }
    template<class T> auto one(T &t) -> decltype(serialize(*this, t)) { prologue(*this, t); serialize(*this, t); epilogue(*this, t); }
    std::shared_ptr<Node> doc;
    std::vector<Level> stack;
    const char *next = nullptr;
};
template<class T> inline void prologue(JSONOutputArchive &ar, const T &) { ar.startNode(); }
template<class T> inline void epilogue(JSONOutputArchive &ar, const T &) { ar.finishNode(); }
template<class T> inline void prologue(JSONInputArchive &ar, const T &) { ar.startNode(); }
template<class T> inline void epilogue(JSONInputArchive &ar, const T &) { ar.finishNode(); }
} // namespace cereal
