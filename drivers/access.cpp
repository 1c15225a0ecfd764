// Analysis roots for the declared accesses of systems.
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
struct A { int x; };
struct B { int x; };
struct C { int x; };
#define SYS(n, ...) using n = system_executor<void (*)(__VA_ARGS__)>;
#define Q(n) \
    bool drv_wA_##n(const n& s) { return s.n::access_pattern().writes(component_id::value<A>); } \
    bool drv_wB_##n(const n& s) { return s.n::access_pattern().writes(component_id::value<B>); } \
    bool drv_wC_##n(const n& s) { return s.n::access_pattern().writes(component_id::value<C>); } \
    bool drv_rA_##n(const n& s) { return s.n::access_pattern().reads(component_id::value<A>); } \
    bool drv_rB_##n(const n& s) { return s.n::access_pattern().reads(component_id::value<B>); } \
    bool drv_rC_##n(const n& s) { return s.n::access_pattern().reads(component_id::value<C>); } \
    bool drv_rE_##n(const n& s) { return s.n::access_pattern().reads(component_id::value<entity>); } \
    bool drv_wall_##n(const n& s) { return s.n::access_pattern().writes_all(); } \
    bool drv_rall_##n(const n& s) { return s.n::access_pattern().reads_all(); }
#define S(n, ...) SYS(n, __VA_ARGS__) Q(n)
S(s_none)
S(s_reg, registry&)
S(s_creg, const registry&)
S(s_cw, command_writer)
S(s_A, view<A&>)
S(s_cA, view<const A&>)
S(s_A_cB, view<A&, const B&>)
S(s_cA_B, view<const A&, B&>)
S(s_ABC, view<A&, B&, const C&>)
S(s_E_cA, view<const entity&, const A&>)
S(s_cA__A, view<const A&>, view<A&>)
S(s_A__cA, view<A&>, view<const A&>)
S(s_A__cB__cw, view<A&>, view<const B&>, command_writer)
S(s_cw__cA__BC, command_writer, view<const A&>, view<B&, C&>)
S(s_cA__creg, view<const A&>, const registry&)
S(s_creg__A, const registry&, view<A&>)
S(s_A__reg, view<A&>, registry&)
S(s_reg__cA, registry&, view<const A&>)
S(s_creg__reg, const registry&, registry&)
// kinds of callables
struct fo { void operator()(view<A&>, const registry&) const; };
struct fm { void operator()(view<A&>, const registry&); };
using s_fo = system_executor<fo>;
using s_fm = system_executor<fm>;
using s_fn = system_executor<void (*)(view<A&>, const registry&) noexcept>;
using s_sf = system_executor<std::function<void(view<A&>, const registry&)>>;
#define K(n) bool drv_wA_##n(const n& s) { return s.n::access_pattern().writes(component_id::value<A>); } \
    bool drv_rall_##n(const n& s) { return s.n::access_pattern().reads_all(); }
K(s_fo) K(s_fm) K(s_sf)
// algebra of patterns
bool drv_apart(const access_pattern_t& p, const access_pattern_t& q, component_id_t id) {
    if (!p.allows(q)) {
        return true;
    }
    bool pw = p.writes(id);
    bool qw = q.writes(id);
    bool pr = p.reads(id);
    bool qr = q.reads(id);
    return !(pw && qr) && !(qw && pr);
}
bool drv_apart_all(const access_pattern_t& p, const access_pattern_t& q) {
    if (!p.allows(q)) {
        return true;
    }
    return !(p.writes_all() && q.reads_all()) && !(q.writes_all() && p.reads_all());
}
bool drv_write_reads(const access_pattern_t& p, component_id_t id) { return !p.writes(id) || p.reads(id); }
bool drv_all_writes(const access_pattern_t& p, component_id_t id) { return !p.writes_all() || (p.writes(id) && p.reads_all()); }
bool drv_all_reads(const access_pattern_t& p, component_id_t id) { return !p.reads_all() || p.reads(id); }
bool drv_merge_w1(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = p.writes(id); p &= q; return !b || p.writes(id); }
bool drv_merge_w2(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = q.writes(id); p &= q; return !b || p.writes(id); }
bool drv_merge_r1(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = p.reads(id); p &= q; return !b || p.reads(id); }
bool drv_merge_r2(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = q.reads(id); p &= q; return !b || p.reads(id); }
bool drv_merge_wa(access_pattern_t& p, const access_pattern_t& q) { bool b = q.writes_all() || p.writes_all(); p &= q; return !b || p.writes_all(); }
bool drv_merge_ra(access_pattern_t& p, const access_pattern_t& q) { bool b = q.reads_all() || p.reads_all(); p &= q; return !b || p.reads_all(); }
bool drv_both_w1(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = p.writes(id); return !b || (p & q).writes(id); }
bool drv_both_w2(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = q.writes(id); return !b || (p & q).writes(id); }
bool drv_both_r1(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = p.reads(id); return !b || (p & q).reads(id); }
bool drv_both_r2(access_pattern_t& p, const access_pattern_t& q, component_id_t id) { bool b = q.reads(id); return !b || (p & q).reads(id); }
