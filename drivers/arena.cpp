// Analysis roots for the arena allocators.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
using namespace co_ecs;
using namespace co_ecs::detail;
struct T8 { double v; };
struct alignas(32) T32 { char v[96]; };
void drv_stack_init(void* mem, void* p, std::size_t n) { ::new (mem) stack_allocator(p, n); }
void* drv_stack_allocate(stack_allocator& a, std::size_t n, std::size_t al) { return a.allocate(n, al); }
void drv_stack_pair(stack_allocator& a, std::size_t n, std::size_t al) {
    void* p = a.allocate(n, al);
    if (p) { a.deallocate(p); }
}
void drv_stack_nested(stack_allocator& a, std::size_t n, std::size_t al, std::size_t m, std::size_t am) {
    void* p = a.allocate(n, al);
    void* q = a.allocate(m, am);
    if (q) { a.deallocate(q); }
    if (p) { a.deallocate(p); }
}
std::size_t drv_stack_remaining(const stack_allocator& a) { return a.remaining(); }
void drv_stack_reset(stack_allocator& a) { a.reset(); }
void drv_stack_move(void* mem, stack_allocator& a) { ::new (mem) stack_allocator(std::move(a)); }
void drv_stack_assign(stack_allocator& d, stack_allocator& a) { d = std::move(a); }
void drv_linear_init(void* mem, void* p, std::size_t n) { ::new (mem) linear_allocator(p, n); }
void* drv_linear_allocate(linear_allocator& a, std::size_t n, std::size_t al) { return a.allocate(n, al); }
void drv_linear_reset(linear_allocator& a) { a.reset(); }
void drv_linear_move(void* mem, linear_allocator& a) { ::new (mem) linear_allocator(std::move(a)); }
void drv_linear_assign(linear_allocator& d, linear_allocator& a) { d = std::move(a); }
T8* drv_temp_allocate8(temp_allocator<T8>& a, std::size_t n) { return a.allocate(n); }
T32* drv_temp_allocate32(temp_allocator<T32>& a, std::size_t n) { return a.allocate(n); }
char* drv_temp_allocate1(temp_allocator<char>& a, std::size_t n) { return a.allocate(n); }
void drv_temp_pair8(temp_allocator<T8>& a, std::size_t n) {
    T8* p = a.allocate(n);
    a.deallocate(p, n);
}
void drv_temp_pair1(temp_allocator<char>& a, std::size_t n) {
    char* p = a.allocate(n);
    a.deallocate(p, n);
}
