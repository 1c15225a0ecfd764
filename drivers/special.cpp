// Analysis roots for the special members of the containers.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/detail/hash_map.hpp>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#include <new>
#include <type_traits>
#include <utility>
using namespace co_ecs;
struct Val {
    Val();
    Val(const Val&);
    Val(Val&&) noexcept;
    Val& operator=(const Val&);
    Val& operator=(Val&&) noexcept;
    ~Val();
    int v;
};
using bits = detail::dynamic_bitset<>;
struct Hash {
    std::size_t seed{};
    std::size_t operator()(const std::size_t& k) const { return k ^ seed; }
};
struct Same {
    std::size_t mask{};
    bool operator()(const std::size_t& a, const std::size_t& b) const { return (a & ~mask) == (b & ~mask); }
};
using table = detail::hash_map<std::size_t, Val, Hash, Same>;
void drv_table_move(void* mem, table& s) { ::new (mem) table(std::move(s)); }
void drv_table_copy(void* mem, const table& s) { ::new (mem) table(s); }
void drv_table_move_assign(table& d, table& s) { d = std::move(s); }
void drv_table_copy_assign(table& d, const table& s) { d = s; }
void drv_table_swap(table& d, table& s) { d.swap(std::move(s)); }
void drv_chunk_move(void* mem, chunk& s) { ::new (mem) chunk(std::move(s)); }
void drv_chunk_move_assign(chunk& d, chunk& s) { d = std::move(s); }
void drv_chunk_dtor(chunk* s) { s->~chunk(); }
void drv_bits_move(void* mem, bits& s) { ::new (mem) bits(std::move(s)); }
void drv_bits_copy(void* mem, const bits& s) { ::new (mem) bits(s); }
void drv_bits_move_assign(bits& d, bits& s) { d = std::move(s); }
void drv_bits_copy_assign(bits& d, const bits& s) { d = s; }
void drv_table_self(table& s) { s = std::move(s); }
void drv_table_copy_self(table& s) { s = s; }
void drv_table_dtor(table& s) { s.~table(); }
void drv_chunk_self(chunk& s) { s = std::move(s); }
void drv_bits_self(bits& s) { s = std::move(s); }
using map = detail::sparse_map<std::size_t, Val>;
void drv_map_move(void* mem, map& s) { ::new (mem) map(std::move(s)); }
void drv_map_copy(void* mem, const map& s) { ::new (mem) map(s); }
void drv_map_move_assign(map& d, map& s) { d = std::move(s); }
void drv_map_copy_assign(map& d, const map& s) { d = s; }
void drv_map_self(map& s) { s = std::move(s); }
using stack = detail::stack_allocator;
void drv_stack_move(void* mem, stack& s) { ::new (mem) stack(std::move(s)); }
void drv_stack_move_assign(stack& d, stack& s) { d = std::move(s); }
void drv_stack_self(stack& s) { s = std::move(s); }
using linear = detail::linear_allocator;
void drv_linear_move(void* mem, linear& s) { ::new (mem) linear(std::move(s)); }
void drv_linear_move_assign(linear& d, linear& s) { d = std::move(s); }
void drv_linear_self(linear& s) { s = std::move(s); }
// objects whose parts refer to them: they can only be moved in a way that takes care of that
template<typename T>
void move_if(void* mem, T& s) {
    if constexpr (std::is_move_constructible_v<T>) {
        ::new (mem) T(std::move(s));
    }
}
template<typename T>
void assign_if(T& d, T& s) {
    if constexpr (std::is_move_assignable_v<T>) {
        d = std::move(s);
    }
}
void drv_arch_init(void* mem, component_meta_set& c) { ::new (mem) archetype(c); }
void drv_arch_move(void* mem, archetype& s) { move_if(mem, s); }
void drv_arch_move_assign(archetype& d, archetype& s) { assign_if(d, s); }
