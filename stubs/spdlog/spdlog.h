#pragma once
// declaration stub of spdlog/fmt (not installed offline); enough for the resolved program
#include <iostream>
#include <ostream>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
namespace fmt {
struct format_parse_context { const char* begin() const { return nullptr; } };
struct format_context { std::ostream* os; std::ostream& out() { return *os; } };
template<typename T, typename Enable = void> struct formatter {
    constexpr auto parse(format_parse_context& ctx) { return ctx.begin(); }
    template<typename C> auto format(const T& t, C& ctx) const { ctx.out() << t; return 0; }
};
inline void format_all(std::ostream& os, std::string_view& f) { os << f; f = {}; }
template<typename A, typename... As>
void format_all(std::ostream& os, std::string_view& f, const A& a, const As&... as) {
    auto p = f.find("{}");
    if (p == std::string_view::npos) { os << f; f = {}; return; }
    os << f.substr(0, p); f.remove_prefix(p + 2);
    format_context c{&os};
    formatter<A>{}.format(a, c);
    format_all(os, f, as...);
}
template<typename... As> int format_to(std::ostream& os, std::string_view f, const As&... as) { format_all(os, f, as...); return 0; }
}
namespace spdlog {
inline void set_pattern(const std::string&) {}
template<typename... As> void info(std::string_view f, const As&... as) { fmt::format_to(std::cout, f, as...); std::cout << '\n'; }
template<typename... As> void error(std::string_view f, const As&... as) { fmt::format_to(std::cout, f, as...); std::cout << '\n'; }
}
