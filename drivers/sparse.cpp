// Analysis roots for the sparse containers.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#if __has_include(<co_ecs/detail/sparse_set.hpp>)
#include <co_ecs/detail/sparse_set.hpp>
#define HAS_SET 1
#endif
#include <string>
using namespace co_ecs::detail;
using map = sparse_map<std::size_t, int>;
using smap = sparse_map<std::uint32_t, std::string>;
bool drv_map_emplace(map& m, std::size_t key, int v) { return m.emplace(key, v).second; }
bool drv_map_insert(map& m, const map::value_type& v) { return m.insert(v).second; }
void drv_map_index(map& m, std::size_t key) { m[key]; }
std::size_t drv_map_erase(map& m, std::size_t key) { return m.erase(key); }
int* drv_map_find(map& m, std::size_t key) {
    auto it = m.find(key);
    return it != m.end() ? &it->second : nullptr;
}
const int* drv_map_cfind(const map& m, std::size_t key) {
    auto it = m.find(key);
    return it != m.end() ? &it->second : nullptr;
}
bool drv_map_contains(const map& m, std::size_t key) { return m.contains(key); }
int& drv_map_at(map& m, std::size_t key) { return m.at(key); }
const int& drv_map_cat(const map& m, std::size_t key) { return m.at(key); }
std::size_t drv_map_size(const map& m) { return m.size(); }
bool drv_map_empty(const map& m) { return m.empty(); }
void drv_map_clear(map& m) { m.clear(); }
void drv_map_reserve(map& m, std::size_t n) { m.reserve_sparse(n); }
void drv_map_reserve_dense(map& m, std::size_t n) { m.reserve_dense(n); }
void drv_map_init(void* mem) { ::new (mem) map(); }
void drv_map_move(void* mem, map& m) { ::new (mem) map(std::move(m)); }
void drv_map_copy(void* mem, const map& m) { ::new (mem) map(m); }
void drv_map_move_assign(map& d, map& m) { d = std::move(m); }
void drv_map_copy_assign(map& d, const map& m) { d = m; }
bool drv_smap_emplace(smap& m, std::uint32_t key, const std::string& v) { return m.emplace(key, v).second; }
std::size_t drv_smap_erase(smap& m, std::uint32_t key) { return m.erase(key); }
bool drv_smap_contains(const smap& m, std::uint32_t key) { return m.contains(key); }
#ifdef HAS_SET
using set = sparse_set<std::size_t>;
bool drv_set_emplace(set& m, std::size_t key) { return m.emplace(key).second; }
std::size_t drv_set_erase(set& m, std::size_t key) { return m.erase(key); }
bool drv_set_contains(const set& m, std::size_t key) { return m.contains(key); }
void drv_set_clear(set& m) { m.clear(); }
#endif
// a value whose construction and assignment may throw
struct Risky {
    Risky();
    Risky(int);
    Risky(const Risky&);
    Risky(Risky&&);
    Risky& operator=(const Risky&);
    Risky& operator=(Risky&&) noexcept;
    ~Risky();
    int v;
};
using tmap = sparse_map<std::size_t, Risky>;
bool drv_tmap_emplace(tmap& m, std::size_t key, int v) { return m.emplace(key, v).second; }
std::size_t drv_tmap_erase(tmap& m, std::size_t key) { return m.erase(key); }
bool drv_tmap_contains(const tmap& m, std::size_t key) { return m.contains(key); }
