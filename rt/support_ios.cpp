// Streams without locales, for the engine only (harness files that ask for it with "support: support_ios").
#include <istream>
#include <iterator>
#include <string>
#include <ostream>
#include <sstream>
#include <streambuf>
namespace std {
alignas(16) static char noFacets[512];
static const locale::facet *none[64];
static locale::_Impl *noImpl() { locale::_Impl *i = (locale::_Impl *) noFacets; i->_M_facets = none; return i; }
locale::locale() throw() { _M_impl = noImpl(); }
locale::locale(const locale &) throw() { _M_impl = noImpl(); }
size_t locale::id::_M_id() const throw() { return 0; }
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
ios_base::ios_base() throw() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
}
namespace std { template ostream &__ostream_insert(ostream &, const char *, streamsize); }
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ios<char>;
template class std::basic_istream<char>;
template class std::basic_ostream<char>;
template class std::basic_iostream<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
namespace std {
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, char);
template ostream &flush(ostream &);
template istream &getline(istream &, string &, char);
template istream &getline(istream &, string &);
template class istreambuf_iterator<char>;
}
