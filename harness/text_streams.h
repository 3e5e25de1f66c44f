#pragma once
// streams of the environment: files hold a text, string streams are written and read
namespace std {
std::map<std::string, std::string> *kse_files;
struct kse_istream : cereal::TextStream {
    bool ok = true;
    size_t at = 0;
    bool operator!() const { return !ok; }
    explicit operator bool() const { return ok; }
    bool good() const { return ok && !eof(); }
    bool fail() const { return !ok; }
    bool bad() const { return false; }
    bool eof() const { return at > 0 && at >= text.size(); }
    template<class E> void exceptions(E) {}
};
inline bool getline(kse_istream &s, std::string &line)
{
    if (s.at >= s.text.size()) return false;
    size_t e = s.at;
    while (e < s.text.size() && s.text[e] != '\n') e++;
    line = s.text.substr(s.at, e - s.at);
    s.at = e + 1;
    return true;
}
struct kse_ifstream : kse_istream {
    kse_ifstream() {}
    explicit kse_ifstream(const std::string &name) { open(name.c_str()); }
    template<class M> kse_ifstream(const std::string &name, M) { open(name.c_str()); }
    void open(const std::string &name) { open(name.c_str()); }
    template<class N, class M> void open(const N &name, M) { open(name); }
    bool is_open() const { return ok && opened; }
    bool opened = false;
    void open(const char *name) {
        opened = true; ok = kse_files && kse_files->count(name); if (ok) text = (*kse_files)[name]; }
    void close() {}
};
struct kse_stringstream : kse_istream {
    kse_stringstream() {}
    explicit kse_stringstream(const std::string &s) { text = s; }
    template<class M> kse_stringstream(const std::string &s, M) { text = s; }
    void flush() {}
    void clear() {}
    kse_stringstream &operator<<(const std::string &s) { text += s; return *this; }
    kse_stringstream &operator<<(size_t n) { text += "#"; return *this; }
    std::string str() const { return text; }
    void str(const std::string &s) { text = s; at = 0; }
};
struct kse_istringstream : kse_istream {
    kse_istringstream() {}
    explicit kse_istringstream(const std::string &s) { text = s; }
    template<class M> kse_istringstream(const std::string &s, M) { text = s; }
    void str(const std::string &s) { text = s; at = 0; }
    void clear() { ok = true; }
    bool hex = false;
    kse_istringstream &operator>>(std::ios_base &(*)(std::ios_base &)) { hex = true; return *this; }
    // strtol as in num_get: optional sign, optional 0x when reading hexadecimal, at least one digit
    bool number(int64_t &v)
    {
        while (at < text.size() && (text[at] == ' ' || text[at] == '\t')) at++;
        bool neg = false, any = false;
        if (at < text.size() && (text[at] == '-' || text[at] == '+')) neg = text[at++] == '-';
        if (hex && at + 1 < text.size() && text[at] == '0' && (text[at + 1] == 'x' || text[at + 1] == 'X')) at += 2;
        v = 0;
        for (; at < text.size(); at++) {
            char c = text[at];
            int d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) break;
            any = true;
            v = v * (hex ? 16 : 10) + d;
        }
        if (neg) v = -v;
        return any;
    }
    kse_istringstream &operator>>(int &v) { int64_t n; ok = ok && number(n) && n >= INT32_MIN && n <= INT32_MAX; v = ok ? (int) n : 0; return *this; }
    kse_istringstream &operator>>(bool &v) { int64_t n; ok = ok && number(n) && n >= 0 && n <= 1; v = ok && n; return *this; }
    kse_istringstream &operator>>(float &v) { int64_t n; ok = ok && number(n); v = ok ? (float) n : 0; return *this; }
    kse_istringstream &operator>>(std::string &v)
    {
        v.clear();
        while (at < text.size() && (text[at] == ' ' || text[at] == '\t')) at++;
        while (at < text.size() && text[at] != ' ' && text[at] != '\t') v += text[at++];
        ok = ok && !v.empty();
        return *this;
    }
};
}
#define istream kse_istream
#define ifstream kse_ifstream
#define stringstream kse_stringstream
#define ostringstream kse_stringstream
#define istringstream kse_istringstream
