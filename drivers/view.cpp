// Analysis roots for views: every way of going through the entities, over arbitrary registries and callbacks.
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
struct A { int x; };
struct B { double y; };
struct C { char d[24]; };
struct N { N(int); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); int* p; };
void cb(A&, const B&);
void cbc(const A&, const B&);
void cbe(const entity&, C&);
void cb3(const C&, A&, const B&);
void cbi(int&);
void drv_each(registry& r) { view<A&, const B&> v{ r }; v.each([](A& a, const B& b) { cb(a, b); }); }
void drv_each_const(const registry& r) { const view<const A&, const B&> v{ r }; v.each([](const A& a, const B& b) { cbc(a, b); }); }
void drv_each_mutreg(registry& r) { view<const A&, const B&> v{ r }; v.each([](const A& a, const B& b) { cbc(a, b); }); }
void drv_each_entity(registry& r) { view<const entity&, C&> v{ r }; v.each([](const entity& e, C& c) { cbe(e, c); }); }
void drv_each3(registry& r) { view<const C&, A&, const B&> v{ r }; v.each([](const C& c, A& a, const B& b) { cb3(c, a, b); }); }
void drv_range(registry& r) { view<A&, const B&> v{ r }; for (auto [a, b] : v.each()) { cb(a, b); } }
void drv_crange(const registry& r) { view<const A&, const B&> v{ r }; for (auto [a, b] : v.each()) { cbc(a, b); } }
void drv_chunks(registry& r) { view<A&, const B&> v{ r }; for (auto c : v.chunks()) { for (auto [a, b] : c) { cb(a, b); } } }
void drv_par(registry& r) { view<A&, const B&> v{ r }; v.par_each([](A& a, const B& b) { cb(a, b); }); }
void drv_cpar(const registry& r) { view<const A&, const B&> v{ r }; v.par_each([](const A& a, const B& b) { cbc(a, b); }); }
void drv_reach(registry& r) { r.each([](A& a, const B& b) { cb(a, b); }); }
void drv_rceach(const registry& r) { r.each([](const A& a, const B& b) { cbc(a, b); }); }
void drv_rvieweach(registry& r) { r.view<const entity&, C&>().each([](const entity& e, C& c) { cbe(e, c); }); }
auto drv_single(registry& r) { view<A&, const B&> v{ r }; return v.single(); }
auto drv_csingle(const registry& r) { view<const A&, const B&> v{ r }; return v.single(); }
auto drv_rsingle(registry& r) { return r.single<A&, const B&>(); }
auto drv_id(entity h) { return h.id(); }
// a parallel loop over any range
void drv_pf(std::vector<int>& v) { parallel_for(v, [](int& x) { cbi(x); }); }
// (makes the type-erased operations of components available to the analysis)
void drv_use(registry& r, entity e, registry& d) { r.get_entity(e).set<N>(1); r.get_entity(e).set<A>(A{}); r.get_entity(e).set<B>(B{}); r.get_entity(e).set<C>(C{}); r.get_entity(e).copy(d); r.get_entity(e).move(d); }
