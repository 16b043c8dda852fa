// Translation unit that instantiates the library's templates for analysis.
#include <boost/program_options.hpp>
#include <boost/program_options/cmdline.hpp>
#include <boost/program_options/environment_iterator.hpp>
#include <boost/program_options/eof_iterator.hpp>
#include <boost/program_options/detail/cmdline.hpp>
#include <boost/program_options/detail/config_file.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/optional.hpp>
#include <optional>
#include <string>
#include <vector>
namespace po = boost::program_options;
namespace po_probe {
// a type that brings its own conversion, as the documentation describes
struct custom { int x; };
void validate(boost::any&, const std::vector<std::string>&, custom*, int);
std::istream& operator>>(std::istream&, custom&);
std::ostream& operator<<(std::ostream&, const custom&);
}
namespace boost { namespace program_options {
#define INST(T) template class typed_value<T, char>; template class typed_value<T, wchar_t>;
INST(int)
INST(bool)
template class typed_value<std::string, char>;
#define INST2(T, C) \
  template void typed_value<T, C>::xparse(boost::any&, const std::vector<std::basic_string<C> >&) const; \
  template void typed_value<T, C>::notify(const boost::any&) const; \
  template std::string typed_value<T, C>::name() const; \
  template typed_value<T, C>::typed_value(T*); \
  template unsigned typed_value<T, C>::min_tokens() const; \
  template unsigned typed_value<T, C>::max_tokens() const;
INST2(std::vector<int>, char)
INST2(std::vector<int>, wchar_t)
INST2(std::vector<std::string>, char)
INST2(std::vector<std::wstring>, wchar_t)
INST2(boost::optional<int>, char)
INST2(boost::optional<int>, wchar_t)
INST2(std::optional<int>, char)
INST2(std::optional<int>, wchar_t)
INST2(po_probe::custom, char)
INST2(std::vector<po_probe::custom>, char)
INST2(boost::optional<po_probe::custom>, char)
INST2(std::optional<po_probe::custom>, char)
INST2(std::string, wchar_t)
INST2(std::wstring, wchar_t)
template class basic_command_line_parser<char>;
template class basic_command_line_parser<wchar_t>;
template class basic_parsed_options<char>;
template class basic_option<char>;
template basic_option<wchar_t>::basic_option();
template class detail::basic_config_file_iterator<char>;
template class detail::basic_config_file_iterator<wchar_t>;
template basic_parsed_options<char> parse_command_line<char>(int, const char* const[], const options_description&, int,
    function1<std::pair<std::string, std::string>, const std::string&>);
template basic_parsed_options<wchar_t> parse_command_line<wchar_t>(int, const wchar_t* const[], const options_description&, int,
    function1<std::pair<std::string, std::string>, const std::string&>);
template std::vector<std::string> collect_unrecognized<char>(const std::vector<basic_option<char>>&, enum collect_unrecognized_mode);
template std::vector<std::wstring> collect_unrecognized<wchar_t>(const std::vector<basic_option<wchar_t>>&, enum collect_unrecognized_mode);
template typed_value<int>* value<int>();
template typed_value<int>* value<int>(int*);
template typed_value<int, wchar_t>* wvalue<int>();
template typed_value<int, wchar_t>* wvalue<int>(int*);
template std::vector<std::string> to_internal<std::string>(const std::vector<std::string>&);
template std::vector<std::string> to_internal<std::wstring>(const std::vector<std::wstring>&);
}}
namespace po_probe {
// uses of inline, non-template API
const int& as_const(const po::variable_value& v) { return v.as<int>(); }
int& as_mut(po::variable_value& v) { return v.as<int>(); }
template<class T> struct user { };
void split(const std::string& s, const std::wstring& w) { po::split_unix(s); po::split_unix(w); }
}
