// Members of the C++ library that its headers only declare.
#include <string>
#include <string_view>

namespace std {

#define VX_THROW(f) \
    void f(const char*) { __builtin_trap(); }
VX_THROW(__throw_runtime_error)
VX_THROW(__throw_domain_error)
VX_THROW(__throw_overflow_error)
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { __builtin_trap(); }

template class basic_string<char>;

} // namespace std
