// Analysis roots for the pool of entity handles.
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
using pool_t = detail::handle_pool<entity>;
entity drv_create(pool_t& p) { return p.create(); }
bool drv_alive(const pool_t& p, entity h) { return p.alive(h); }
void drv_recycle(pool_t& p, entity h) { p.recycle(h); }
entity drv_reserve(pool_t& p) { return p.reserve(); }
void drv_flush(pool_t& p) { p.flush(); }
bool drv_same(entity a, entity b) { return a == b; }
bool drv_valid(entity a) { return a.valid(); }
auto drv_id(entity h) { return h.id(); }
auto drv_gen(entity h) { return h.generation(); }
void drv_fresh(void* mem) { ::new (mem) pool_t{}; }
entity drv_rreserve(registry& r) { return r.reserve().get_entity(); }
void drv_rsync(registry& r) { r.sync(); }
bool drv_ralive(const registry& r, entity h) { return r.alive(h); }
