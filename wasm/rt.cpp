// A small runtime for the library compiled to WebAssembly without emscripten: an allocator on linear memory with
// accounting and controllable growth and failure, and the few C functions that the library uses.
using size = unsigned long;

extern "C" {

void emscripten_notify_memory_growth(int) __attribute__((import_module("env"), import_name("emscripten_notify_memory_growth")));
void __wasm_call_ctors();

extern unsigned char __heap_base;

// Controlled by the harness.
__attribute__((export_name("vx_live"))) int vx_live();
__attribute__((export_name("vx_allocations"))) int vx_allocations();
__attribute__((export_name("vx_errors"))) int vx_errors();
__attribute__((export_name("vx_plan"))) void vx_plan(int fail_at, int grow_at);

}

namespace {

struct Header {
    unsigned magic, cls;
    Header* next;
    unsigned pad;
};
constexpr unsigned used = 0x5eed1234, unused = 0xdead4321;
Header* free_list[32];
size top;
int live, allocations, errors, fail_at = -1, grow_at = -1;

void grow(size pages)
{
    if (__builtin_wasm_memory_grow(0, pages) == size(-1)) __builtin_trap();
    emscripten_notify_memory_growth(0);
}

void* take(size n)
{
    const int index = allocations++;
    if (index == fail_at) return nullptr;
    if (index == grow_at) grow(1);
    unsigned cls = 4;
    while ((size(1) << cls) < n) ++cls;
    if (cls >= 31) return nullptr;
    Header* h = free_list[cls];
    if (h) free_list[cls] = h->next;
    else {
        if (!top) top = (size(&__heap_base) + 15) & ~size(15);
        h = reinterpret_cast<Header*>(top);
        top += sizeof(Header) + (size(1) << cls);
        const size have = __builtin_wasm_memory_size(0) * 65536;
        if (top > have) grow((top - have + 65535) / 65536);
    }
    h->magic = used;
    h->cls = cls;
    ++live;
    return h + 1;
}

void give(void* p)
{
    if (!p) return;
    Header* h = static_cast<Header*>(p) - 1;
    if (h->magic != used) {
        ++errors;
        return;
    }
    h->magic = unused;
    // Make uses of freed memory visible.
    unsigned char* b = static_cast<unsigned char*>(p);
    const size n = size(1) << h->cls;
    for (size k = 0; k < n && k < 256; ++k) b[k] = 0xDD;
    h->next = free_list[h->cls];
    free_list[h->cls] = h;
    --live;
}

void* need(size n)
{
    void* p = take(n);
    if (!p) __builtin_trap();
    return p;
}

} // namespace

namespace std {
struct nothrow_t;
enum class align_val_t : size;
[[noreturn]] void __throw_bad_alloc() { __builtin_trap(); }
[[noreturn]] void __throw_bad_array_new_length() { __builtin_trap(); }
[[noreturn]] void __throw_length_error(const char*) { __builtin_trap(); }
[[noreturn]] void __throw_logic_error(const char*) { __builtin_trap(); }
[[noreturn]] void __throw_out_of_range_fmt(const char*, ...) { __builtin_trap(); }
[[noreturn]] void __throw_bad_function_call() { __builtin_trap(); }
[[noreturn]] void __throw_invalid_argument(const char*) { __builtin_trap(); }
[[noreturn]] void __throw_out_of_range(const char*) { __builtin_trap(); }
[[noreturn]] void __throw_bad_optional_access() { __builtin_trap(); }
[[noreturn]] void __throw_bad_variant_access(const char*) { __builtin_trap(); }
extern const nothrow_t nothrow;
__attribute__((aligned(8))) char nothrow_storage[8] asm("_ZSt7nothrow");
}

void* operator new(size n) { return need(n); }
void* operator new[](size n) { return need(n); }
void* operator new(size n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new(size n, std::align_val_t) { return need(n); }
void* operator new(size n, std::align_val_t, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size) noexcept { give(p); }
void operator delete[](void* p, size) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { give(p); }

extern "C" {

int vx_live() { return live; }
int vx_allocations() { return allocations; }
int vx_errors() { return errors; }
void vx_plan(int f, int g)
{
    fail_at = f < 0 ? -1 : allocations + f;
    grow_at = g < 0 ? -1 : allocations + g;
}

__attribute__((export_name("_initialize"))) void _initialize() { __wasm_call_ctors(); }

void* malloc(size n) { return take(n); }
void free(void* p) { give(p); }
void* aligned_alloc(size, size n) { return take(n); }
// The destructor of std::pmr::memory_resource, and casts between resources; nothing of it is used.
void* vx_resource_destructor(void*) asm("_ZNSt3pmr15memory_resourceD2Ev");
void* vx_resource_destructor(void* p) { return p; }
void* __dynamic_cast(const void*, const void*, const void*, long) { __builtin_trap(); }
[[noreturn]] void abort() { __builtin_trap(); }
[[noreturn]] void exit(int) { __builtin_trap(); }
[[noreturn]] void __cxa_pure_virtual() { __builtin_trap(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(unsigned char* g) { return !*g; }
void __cxa_guard_release(unsigned char* g) { *g = 1; }
double strtod(const char*, char**) { __builtin_trap(); }

void* memcpy(void* d, const void* s, size n)
{
    for (size k = 0; k < n; ++k) static_cast<volatile char*>(d)[k] = static_cast<const char*>(s)[k];
    return d;
}
void* memmove(void* d, const void* s, size n)
{
    if (d <= s) return memcpy(d, s, n);
    for (size k = n; k-- > 0;) static_cast<volatile char*>(d)[k] = static_cast<const char*>(s)[k];
    return d;
}
void* memset(void* d, int c, size n)
{
    for (size k = 0; k < n; ++k) static_cast<volatile char*>(d)[k] = char(c);
    return d;
}
int memcmp(const void* a, const void* b, size n)
{
    for (size k = 0; k < n; ++k)
        if (int d = static_cast<const unsigned char*>(a)[k] - static_cast<const unsigned char*>(b)[k]) return d;
    return 0;
}
void* memchr(const void* a, int c, size n)
{
    for (size k = 0; k < n; ++k)
        if (static_cast<const unsigned char*>(a)[k] == static_cast<unsigned char>(c)) return const_cast<char*>(static_cast<const char*>(a) + k);
    return nullptr;
}
size strlen(const char* s)
{
    size n = 0;
    while (s[n]) ++n;
    return n;
}

int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) ++a, ++b;
    return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
int strncmp(const char* a, const char* b, size n)
{
    for (; n; --n, ++a, ++b)
        if (*a != *b || !*a) return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
    return 0;
}
void* calloc(size a, size b)
{
    void* const p = take(a * b);
    return p ? memset(p, 0, a * b) : p;
}
[[noreturn]] void __assert_fail(const char*, const char*, unsigned, const char*) { __builtin_trap(); }

struct I128 { unsigned long long lo, hi; };
void __multi3(I128* r, unsigned long long alo, unsigned long long ahi, unsigned long long blo, unsigned long long bhi)
{
    const unsigned long long m = 0xFFFFFFFFull, a0 = alo & m, a1 = alo >> 32, b0 = blo & m, b1 = blo >> 32;
    const unsigned long long p0 = a0 * b0, p1 = a0 * b1, p2 = a1 * b0, p3 = a1 * b1, mid = (p0 >> 32) + (p1 & m) + (p2 & m);
    r->lo = (p0 & m) | (mid << 32);
    r->hi = p3 + (p1 >> 32) + (p2 >> 32) + (mid >> 32) + alo * bhi + ahi * blo;
}

}
