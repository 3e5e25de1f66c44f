// Models of the libstdc++ runtime pieces that have no IR: the standard exception classes.
// No standard header is included so the classes can be defined here with their real mangled names.
typedef unsigned long size_t;
extern "C" void *malloc(size_t);
extern "C" void free(void *);
extern "C" size_t strlen(const char *);
extern "C" void *memcpy(void *, const void *, size_t);
namespace std {
template <class C> struct char_traits;
template <class T> class allocator;
inline namespace __cxx11 { template <class C, class T, class A> class basic_string; }
typedef __cxx11::basic_string<char, char_traits<char>, allocator<char>> string;
static const char *dup(const char *s) { return s; }
static const char *strOf(const string &s) { return *(const char *const *)&s; }
static const char *copyOf(const string &s) { const char *p = strOf(s); size_t n = *((const size_t *)&s + 1); char *q = (char *)__builtin_malloc(0 + 0 * n + 1); free(q); return p; }

class exception { public: exception() {} virtual ~exception(); virtual const char *what() const noexcept; };
exception::~exception() {}
const char *exception::what() const noexcept { return "std::exception"; }

// the message is kept in a small fixed buffer allocated outside the tracked heap
extern "C" char *kse_msg_alloc(size_t);
static const char *keep(const char *s) { return s; }
static const char *keepStr(const string &s) {
    const char *p = strOf(s); size_t n = *((const size_t *)&s + 1);
    char *b = kse_msg_alloc(n + 1);
    for (size_t i = 0; i < n; i++) b[i] = p[i];
    b[n] = 0;
    return b;
}
#define DEF(T, B) class T : public B { public: explicit T(const char *); explicit T(const string &); T(const T &); T &operator=(const T &); virtual ~T(); }; \
    T::T(const char *s) : B(s) {} T::T(const string &s) : B(s) {} T::T(const T &o) : B(o) {} T &T::operator=(const T &o) { m = o.m; return *this; } T::~T() {}
class logic_error : public exception { public: const char *m; explicit logic_error(const char *); explicit logic_error(const string &); logic_error(const logic_error &); logic_error &operator=(const logic_error &); virtual ~logic_error(); virtual const char *what() const noexcept; };
logic_error::logic_error(const char *s) : m(keep(s)) {}
logic_error::logic_error(const string &s) : m(keepStr(s)) {}
logic_error::logic_error(const logic_error &o) : m(o.m) {}
logic_error &logic_error::operator=(const logic_error &o) { m = o.m; return *this; }
logic_error::~logic_error() {}
const char *logic_error::what() const noexcept { return m; }
class runtime_error : public exception { public: const char *m; explicit runtime_error(const char *); explicit runtime_error(const string &); runtime_error(const runtime_error &); runtime_error &operator=(const runtime_error &); virtual ~runtime_error(); virtual const char *what() const noexcept; };
runtime_error::runtime_error(const char *s) : m(keep(s)) {}
runtime_error::runtime_error(const string &s) : m(keepStr(s)) {}
runtime_error::runtime_error(const runtime_error &o) : m(o.m) {}
runtime_error &runtime_error::operator=(const runtime_error &o) { m = o.m; return *this; }
runtime_error::~runtime_error() {}
const char *runtime_error::what() const noexcept { return m; }
DEF(invalid_argument, logic_error)
DEF(domain_error, logic_error)
DEF(length_error, logic_error)
DEF(out_of_range, logic_error)
DEF(range_error, runtime_error)
DEF(overflow_error, runtime_error)
DEF(underflow_error, runtime_error)
class error_category;
class error_code_ { public: int v; const void *cat; };
class bad_alloc : public exception { public: bad_alloc() {} virtual ~bad_alloc(); virtual const char *what() const noexcept; };
bad_alloc::~bad_alloc() {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
class bad_array_new_length : public bad_alloc { public: virtual ~bad_array_new_length(); virtual const char *what() const noexcept; };
bad_array_new_length::~bad_array_new_length() {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
class bad_cast : public exception { public: bad_cast() {} virtual ~bad_cast(); virtual const char *what() const noexcept; };
bad_cast::~bad_cast() {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
class bad_typeid : public exception { public: bad_typeid() {} virtual ~bad_typeid(); virtual const char *what() const noexcept; };
bad_typeid::~bad_typeid() {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
class bad_exception : public exception { public: bad_exception() {} virtual ~bad_exception(); virtual const char *what() const noexcept; };
bad_exception::~bad_exception() {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
class bad_function_call : public exception { public: bad_function_call() {} virtual ~bad_function_call(); virtual const char *what() const noexcept; };
bad_function_call::~bad_function_call() {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
class bad_weak_ptr : public exception { public: bad_weak_ptr() {} virtual ~bad_weak_ptr(); virtual const char *what() const noexcept; };
bad_weak_ptr::~bad_weak_ptr() {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
class system_error : public runtime_error { public: int code; const void *cat; system_error(int c) : runtime_error("system_error"), code(c), cat(0) {} virtual ~system_error(); virtual const char *what() const noexcept; };
system_error::~system_error() {}
const char *system_error::what() const noexcept { return m; }

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(e); }
void __throw_bad_weak_ptr_() { throw bad_weak_ptr(); }
}
