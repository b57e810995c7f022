// std::exception hierarchy and __throw helpers of the C++ runtime (symbolic build only).
#include <exception>
#include <new>
#include <typeinfo>
#include <stdexcept>
#include <functional>
#include <system_error>
#include <ios>
extern "C" { size_t strlen(const char*); void* memcpy(void*, const void*, size_t); void* __sym_malloc(size_t, int); void __sym_free(void*, int); void __sym_unmodelled(const char*); }
namespace std {
    exception::~exception() noexcept {}
    const char* exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {}
    const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {}
    const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

    __cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)__sym_malloc(n + 1, 0); memcpy(p, s, n); p[n] = 0; _M_p = p; }
    __cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
    __cow_string::__cow_string(const __cow_string& o) noexcept : __cow_string(o._M_p, strlen(o._M_p)) {}
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { size_t n = strlen(o._M_p); char* p = (char*)__sym_malloc(n + 1, 0); memcpy(p, o._M_p, n + 1); __sym_free((void*)_M_p, 0); _M_p = p; return *this; }
    __cow_string::~__cow_string() { __sym_free((void*)_M_p, 0); }

#define EXC(E)                                                        \
    E::E(const char* s) : _M_msg(s, strlen(s)) {}                     \
    E::E(const string& s) : _M_msg(s) {}                              \
    E::E(const E& o) noexcept : exception(o), _M_msg(o._M_msg) {}     \
    E& E::operator=(const E& o) noexcept { _M_msg = o._M_msg; return *this; } \
    E::~E() noexcept {}                                               \
    const char* E::what() const noexcept { return _M_msg._M_p; }
    EXC(logic_error) EXC(runtime_error)
#define SUB(E, P) E::E(const char* s) : P(s) {} E::E(const string& s) : P(s) {} E::~E() noexcept {}
    SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
    SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)

    void __throw_bad_exception() { throw bad_exception(); }
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_typeid() { throw bad_typeid(); }
    void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_domain_error(const char* s) { throw domain_error(s); }
    void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
    void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); }
    void __throw_range_error(const char* s) { throw range_error(s); }
    void __throw_overflow_error(const char* s) { throw overflow_error(s); }
    void __throw_underflow_error(const char* s) { throw underflow_error(s); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }
    void __throw_ios_failure(const char* s) { throw runtime_error(s); }
    void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
    error_category::~error_category() noexcept {}
    __cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
    error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
    bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; }
    bool error_category::equivalent(const error_code& c, int e) const noexcept { return c.category() == *this && c.value() == e; }
    struct Category : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
    alignas(Category) static char genericMem[sizeof(Category)], systemMem[sizeof(Category)];
    inline namespace _V2 {
    const error_category& generic_category() noexcept { if (!*(void**)genericMem) ::new (genericMem) Category; return *(Category*)genericMem; }
    const error_category& system_category() noexcept { if (!*(void**)systemMem) ::new (systemMem) Category; return *(Category*)systemMem; }
    }
    system_error::~system_error() noexcept {}
    error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
    const std::nothrow_t nothrow;
    type_info::~type_info() {}
    bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
    bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
    bool type_info::__is_pointer_p() const { return false; }
    bool type_info::__is_function_p() const { return false; }
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
