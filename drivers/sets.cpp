// entry points for the analysis of bitsets and component sets
#include <co_ecs/co_ecs.hpp>

using bits = co_ecs::detail::dynamic_bitset<>;

void drv_bits_create(void* mem) {
    new (mem) bits();
}

bool drv_bits_test(const bits& b, std::size_t pos) {
    return b.test(pos);
}

void drv_bits_set(bits& b, std::size_t pos) {
    b.set(pos, true);
}

void drv_bits_unset(bits& b, std::size_t pos) {
    b.set(pos, false);
}

void drv_bits_clear(bits& b) {
    b.clear();
}

bool drv_bits_equal(const bits& a, const bits& b) {
    return a == b;
}

std::size_t drv_bits_hash(const bits& b) {
    return std::hash<bits>{}(b);
}

bool drv_set_contains(const co_ecs::component_set& s, co_ecs::component_id_t id) {
    return s.contains(id);
}

void drv_set_insert(co_ecs::component_set& s, co_ecs::component_id_t id) {
    s.insert(id);
}

void drv_set_erase(co_ecs::component_set& s, co_ecs::component_id_t id) {
    s.erase(id);
}

void drv_set_clear(co_ecs::component_set& s) {
    s.clear();
}

bool drv_set_equal(const co_ecs::component_set& a, const co_ecs::component_set& b) {
    return a == b;
}

std::size_t drv_set_hash(const co_ecs::component_set& s) {
    return co_ecs::component_set_hasher{}(s);
}

bool drv_meta_contains(const co_ecs::component_meta_set& s, co_ecs::component_id_t id) {
    return s.contains(id);
}

void drv_meta_insert(co_ecs::component_meta_set& s, const co_ecs::component_meta& m) {
    s.insert(m);
}

void drv_meta_erase(co_ecs::component_meta_set& s, co_ecs::component_id_t id) {
    s.erase(id);
}

bool drv_meta_equal(const co_ecs::component_meta_set& a, const co_ecs::component_meta_set& b) {
    return a == b;
}

const co_ecs::component_set& drv_meta_ids(const co_ecs::component_meta_set& s) {
    return s.ids();
}
