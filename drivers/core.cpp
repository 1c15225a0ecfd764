// Analysis roots: client code that uses the public interface in every documented way.
// Client types and callbacks are declared only; the analysis treats them as unknown code.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
#include <string>
using namespace co_ecs;
struct A { int x; };
struct B { double y; };
struct M {                       // move-only
    M(int); M(M&&) noexcept; M& operator=(M&&) noexcept; ~M(); int* p;
};
struct N {                       // everything non-trivial, constructors may throw
    N(int); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); int* p;
};
struct alignas(64) W { char d[64]; };
void cb(A&, const B&);
void cbc(const A&, const B&);
void cbe(const entity&, A&);
void cbv(const component_meta&, void*);
void cbvc(const component_meta&, const void*);

void drv_create0(registry& r) { r.create<>(); }
void drv_create(registry& r, A&& a, N&& n) { r.create<A, N>(std::move(a), std::move(n)); }
void drv_create_copy(registry& r, N& n) { r.create<N>(N(n)); }
void drv_destroy(registry& r, entity e) { r.get_entity(e).destroy(); }
void drv_rdestroy(registry& r, entity e) { r.destroy(e); }
void drv_set(registry& r, entity e, A&& a) { r.get_entity(e).set<A>(std::move(a)); }
void drv_setN(registry& r, entity e, int i) { r.get_entity(e).set<N>(i); }
void drv_goi(registry& r, entity e, int i) { r.get_entity(e).get_or_insert<N>(i); }
void drv_remove(registry& r, entity e) { r.get_entity(e).remove<A>(); }
A& drv_get(registry& r, entity e) { return r.get_entity(e).get<A>(); }
const A& drv_cget(const registry& r, entity e) { return r.get_entity(e).get<A>(); }
decltype(auto) drv_get2(registry& r, entity e) { return r.get_entity(e).get<A, B>(); }
bool drv_has(registry& r, entity e) { return r.get_entity(e).has<A, B>(); }
bool drv_chas(const registry& r, entity e) { return r.get_entity(e).has<A>(); }
bool drv_alive(registry& r, entity e) { return r.get_entity(e).alive(); }
bool drv_calive(const registry& r, entity e) { return r.alive(e); }
void drv_visit(registry& r, entity e) { r.get_entity(e).visit([](const component_meta& m, void* p) { cbv(m, p); }); }
void drv_cvisit(const registry& r, entity e) { r.get_entity(e).visit([](const component_meta& m, const void* p) { cbvc(m, p); }); }
const archetype& drv_arch(registry& r, entity e) { return r.get_entity(e).archetype(); }
entity drv_clone(registry& r, entity e) { return r.get_entity(e).clone(); }
entity drv_clone_ph(registry& r, entity e) { auto p = r.reserve(); r.sync(); return r.get_entity(e).clone(p); }
entity drv_copy(const registry& r, entity e, registry& d) { return r.get_entity(e).copy(d); }
entity drv_rcopy(registry& r, entity e, registry& d) { return r.get_entity(e).copy(d); }
entity drv_move(registry& r, entity e, registry& d) { return r.get_entity(e).move(d); }
entity drv_move_ph(registry& r, entity e, registry& d) { auto p = d.reserve(); d.sync(); return r.get_entity(e).move(d, p); }
entity drv_reserve(registry& r) { return r.reserve().get_entity(); }
void drv_sync(registry& r) { r.sync(); }
void drv_each(registry& r) { r.each([](A& a, const B& b) { cb(a, b); }); }
void drv_ceach(const registry& r) { r.each([](const A& a, const B& b) { cbc(a, b); }); }
void drv_vieweach(registry& r) { r.view<const entity&, A&>().each([](const entity& e, A& a) { cbe(e, a); }); }
void drv_viewrange(registry& r) { for (auto [a, b] : r.view<A&, const B&>().each()) { cb(a, b); } }
auto drv_single(registry& r) { return r.single<A&, const B&>(); }
auto drv_csingle(const registry& r) { return r.single<const A&, const B&>(); }
void drv_par(registry& r) { r.view<A&, const B&>().par_each([](A& a, const B& b) { cb(a, b); }); }
std::size_t drv_size(registry& r) { return r.size(); }
bool drv_empty(registry& r) { return r.empty(); }

// commands
entity drv_cmd_create(registry& r, A&& a, N&& n) { return command_writer(r).create<A, N>(std::move(a), std::move(n)); }
void drv_cmd_destroy(registry& r, entity e) { command_writer(r).destroy(e); }
void drv_cmd_edestroy(registry& r, entity e) { command_writer(r).get_entity(e).destroy(); }
void drv_cmd_set(registry& r, entity e, int i) { command_writer(r).get_entity(e).set<N>(i); }
void drv_cmd_remove(registry& r, entity e) { command_writer(r).get_entity(e).remove<A>(); }
entity drv_cmd_clone(registry& r, entity e) { return command_writer(r).get_entity(e).clone(); }
void drv_flush(registry& r) { command_buffer::flush(r); }
