// Analysis roots for the type-erased description of component types.
#include <co_ecs/co_ecs.hpp>
#include <string>
using namespace co_ecs;
struct A { int x; double y; };
struct E0 {};
struct Z3 { char c[3]; };
struct alignas(64) W { W(int); W(const W&); W(W&&) noexcept; W& operator=(const W&); W& operator=(W&&) noexcept; ~W(); char d[64]; };
struct M { M(int); M(M&&) noexcept; M& operator=(M&&) noexcept; ~M(); int* p; };
struct N { N(int); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); int* p; };
struct Q { Q(const Q&) noexcept; Q(Q&&) noexcept; Q& operator=(const Q&) noexcept; Q& operator=(Q&&) noexcept; ~Q(); char p; };
struct B { B(const B&); B(B&&) noexcept; B& operator=(const B&); B& operator=(B&&) noexcept; ~B(); char p[300]; };
struct V { V(int); V(const V&); V(V&&) noexcept; V& operator=(const V&); V& operator=(V&&) noexcept; virtual ~V(); long p; };
struct EU { EU(const EU&); EU(EU&&) noexcept; EU& operator=(const EU&); EU& operator=(EU&&) noexcept; ~EU(); };
struct F final { F(int); F(F&&) noexcept; F& operator=(F&&) noexcept; ~F(); short p[5]; };
struct NC { NC(const NC&); NC(NC&&) noexcept; NC& operator=(const NC&) = delete; NC& operator=(NC&&) noexcept; ~NC(); int p; };
#define T(x) const type_meta* drv_meta_##x() { return type_meta::of<x>(); } component_meta drv_cm_##x() { return component_meta::of<x>(); }
T(A) T(E0) T(Z3) T(W) T(M) T(N) T(Q) T(B) T(V) T(EU) T(F) T(NC) T(entity)
component_id_t drv_id_A() { return component_id::value<A>; }
