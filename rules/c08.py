"""C08: const correctness, entity immutability, component eligibility, instantiability of the API."""
from . import witness

LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Type-level witnesses decided by the clang front end: every program in the accepted list must type-check, '
               'every program in the rejected list must not, while a twin that differs in one place does.')

POS = [
 ('create', 'void f(registry& r){ r.create<>(); r.create<A>({1}); r.create<A,B>({1},{2.0}); r.create<A,B,M,N>({1},{2.0},M(1),N(1)); }'),
 ('create move-only', 'void f(registry& r, M& m){ r.create<M>(std::move(m)); }'),
 ('set/get/remove', 'void f(registry& r, entity e){ A& a = r.get_entity(e).set<A>(1).set<B>(2.0).get<A>(); r.get_entity(e).remove<A>().remove<B>(); (void)a; }'),
 ('set move-only', 'void f(registry& r, entity e){ r.get_entity(e).set<M>(1); r.get_entity(e).set<M>(M(2)); M& m = r.get_entity(e).get_or_insert<M>(3); (void)m; }'),
 ('get several', 'void f(registry& r, entity e){ auto [a,b] = r.get_entity(e).get<A,B>(); static_assert(std::is_same_v<decltype(r.get_entity(e).get<A,B>()), std::tuple<A&,B&>>); a.x = 1; b.y = 1; }'),
 ('get const', 'void f(const registry& r, entity e){ static_assert(std::is_same_v<decltype(r.get_entity(e).get<A>()), const A&>); auto [a,b] = r.get_entity(e).get<A,B>(); (void)a.x; }'),
 ('const get several type', 'void f(const registry& r, entity e){ static_assert(std::is_same_v<decltype(r.get_entity(e).get<A,B>()), std::tuple<const A&,const B&>>); }'),
 ('const entity_ref get type', 'void f(const entity_ref& c, entity_ref& m){ static_assert(std::is_same_v<decltype(c.get<A>()), const A&>); static_assert(std::is_same_v<decltype(c.get<A,B>()), std::tuple<const A&,const B&>>); static_assert(std::is_same_v<decltype(m.get<A>()), A&>); }'),
 ('get entity const', 'const entity& f(registry& r, entity e){ return std::as_const(r).get_entity(e).get<entity>(); }'),
 ('get_entity types', 'void f(registry& r, const registry& c, entity e){ static_assert(std::is_same_v<decltype(r.get_entity(e)), entity_ref>); static_assert(std::is_same_v<decltype(c.get_entity(e)), const_entity_ref>); static_assert(std::is_same_v<decltype(r.get_entity_const(e)), const_entity_ref>); }'),
 ('has/alive/archetype', 'bool f(registry& r, const registry& c, entity e){ static_assert(std::is_same_v<decltype(r.get_entity(e).archetype()), const archetype&>); return r.get_entity(e).has<A>() && c.get_entity(e).has<A,B>() && r.alive(e) && c.alive(e) && c.get_entity(e).alive() && r.get_entity(e); }'),
 ('visit', 'void f(registry& r, const registry& c, entity e){ r.get_entity(e).visit([](const component_meta&, void*){}); c.get_entity(e).visit([](const component_meta&, const void*){}); const auto ref = r.get_entity(e); ref.visit([](const component_meta&, const void*){}); }'),
 ('clone/copy/move', 'void f(registry& r, registry& d, entity e){ entity a = r.get_entity(e).clone(); entity b = r.get_entity(a).copy(d); entity c = r.get_entity(a).move(d); (void)b; (void)c; }'),
 ('placeholders', 'void f(registry& r, registry& d, entity e){ auto p = d.reserve(); d.sync(); r.get_entity(e).copy(d, p); auto q = r.reserve(); r.sync(); r.get_entity(e).clone(q); auto s = d.reserve(); d.sync(); r.get_entity(e).move(d, s); entity x = q.get_entity(); (void)x; }'),
 ('copy of const', 'void f(const registry& r, registry& d, entity e){ entity x = r.get_entity(e).copy(d); auto p = d.reserve(); d.sync(); r.get_entity(e).copy(d, p); (void)x; }'),
 ('destroy', 'void f(registry& r, entity e){ r.destroy(e); r.get_entity(e).destroy(); }'),
 ('view each', 'void f(registry& r){ for (auto [a,b] : r.view<A&, const B&>().each()) { a.x = 1; (void)b.y; } r.view<A&>().each([](A& a){ a.x = 1; }); r.each([](A& a, const B& b){ a.x = 1; (void)b; }); }'),
 ('view entity', 'void f(registry& r){ r.view<const entity&, A&>().each([](const entity& e, A& a){ a.x = e.id(); }); r.each([](const entity& e, const A&){ (void)e; }); }'),
 ('const views', 'void f(const registry& r){ for (auto [a,b] : r.view<const A&, const B&>().each()) { (void)a.x; (void)b; } r.each([](const A& a){ (void)a; }); r.view<const A&>().each([](const A&){}); r.view<const A&>().par_each([](const A&){}); }'),
 ('view par_each', 'void f(registry& r){ r.view<A&, const B&>().par_each([](A& a, const B&){ a.x = 1; }); r.view<const A&>().par_each([](const A&){}); }'),
 ('single', 'void f(registry& r, const registry& c){ auto s = r.single<A&, const B&>(); static_assert(std::is_same_v<decltype(s), std::optional<std::tuple<A&, const B&>>>); auto t = c.single<const A&>(); static_assert(std::is_same_v<decltype(t), std::optional<std::tuple<const A&>>>); (void)r.view<A&>().single(); }'),
 ('size', 'std::size_t f(const registry& r){ return r.size() + r.empty(); }'),
 ('commands', 'void f(registry& r, entity e){ command_writer w(r); entity n = w.create<A,B>({1},{2}); w.create<M>(M(1)).set<A>(1).set<M>(2).remove<A>(); w.get_entity(e).set<N>(1).remove<N>().destroy(); entity c = w.get_entity(e).clone(); w.destroy(e); command_buffer::flush(r); (void)n; (void)c; }'),
 ('systems', 'void fn(view<A&>); void f(registry& r){ schedule s; s.add_init_system([](registry&){}).begin_stage("x").add_system([](view<A&, const B&>){}).add_system([](command_writer, const registry&){}).add_system(main_thread_execution_policy, [](registry&){}).add_system(fn).end_stage(); auto x = s.create_executor(r); x->run_once(); }'),
 ('system lvalue and function', 'void f(schedule& s){ auto l = [](view<const A&>){}; auto& st = s.begin_stage(); st.add_system(l); const auto k = [](view<A&>){}; st.add_system(k); std::function<void(view<A&>)> g; st.add_system(g); }'),
 ('named system', 'void named(view<A&>); void f(schedule& s){ s.begin_stage().add_system(CO_ECS_MAKE_NAMED_SYSTEM(named)); }'),
 ('component concept', 'static_assert(component<A> && component<M> && component<N> && component<std::string>); static_assert(component_reference<A&> && component_reference<const A&>);'),
 ('hash table', 'void f(detail::hash_map<int, std::string>& m, const detail::hash_map<int, std::string>& c){ m.emplace(1, "a"); m.insert({2, "b"}); m[3] = "c"; m.erase(1); (void)m.contains(1); (void)m.find(2); (void)c.find(2); (void)m.at(1); (void)c.at(1); for (auto& [k, v] : m) { v = "x"; } for (auto& [k, v] : c) { (void)v; } (void)m.begin()->second; (void)c.size(); auto n = m; n = m; n = std::move(m); n.clear(); n.swap(std::move(m)); n.reserve(10); auto it = n.begin(); it++; ++it; (void)n.cbegin(); }'),
 ('hash set/init', 'void f(std::vector<std::pair<int,int>>& v){ detail::hash_map<int,int> m(v.begin(), v.end()); detail::hash_map<int,int> n{ {1,2}, {3,4} }; detail::hash_map<int,int> k(m); (void)k; }'),
 ('sparse map', 'void f(detail::sparse_map<std::uint32_t, std::string>& m, const detail::sparse_map<std::uint32_t, std::string>& c){ m.emplace(1u, "a"); m.insert({2u, "b"}); m[3] = "c"; m.erase(1); (void)m.contains(1); (void)m.find(2); (void)c.find(2); (void)m.at(1); (void)c.at(1); for (auto& [k, v] : m) { v = "x"; } for (auto& [k, v] : c) { (void)v; } (void)c.size(); (void)c.empty(); auto n = m; n = m; n = std::move(m); n.clear(); }'),
 ('bitset', 'void f(detail::dynamic_bitset<>& b, const detail::dynamic_bitset<>& c){ b.set(3); b.set(3, false); (void)c.test(3); b.clear(); auto d = b; d = std::move(b); (void)(c == d); (void)std::hash<detail::dynamic_bitset<>>()(c); }'),
]

# (name, accepted twin, rejected program, where)
R = 'include/co_ecs/registry.hpp'
E = 'include/co_ecs/entity_ref.hpp'
V = 'include/co_ecs/view.hpp'
C = 'include/co_ecs/component.hpp'


def pair(name, where, tmpl, good, bad):
    return (name, tmpl.replace('@', good), tmpl.replace('@', bad), where)


NEG = [
 pair('mutable view of a const registry', R, 'void f(const registry& r){ (void)r.view<@ A&, const B&>(); }', 'const', ''),
 pair('partly mutable view of a const registry', R, 'void f(const registry& r){ (void)r.view<const A&, @ B&>(); }', 'const', ''),
 pair('mutable each on a const registry', R, 'void f(const registry& r){ r.each([](@ A& a, const B&){ (void)a; }); }', 'const', ''),
 pair('partly mutable each on a const registry', R, 'void f(const registry& r){ r.each([](const A& a, @ B&){ (void)a; }); }', 'const', ''),
 pair('mutable single on a const registry', R, 'void f(const registry& r){ (void)r.single<@ A&>(); }', 'const', ''),
 pair('partly mutable single on a const registry', R, 'void f(const registry& r){ (void)r.single<const B&, @ A&>(); }', 'const', ''),
 pair('view class over a const registry', V, 'void f(const registry& r){ view<const B&, @ A&> v(r); (void)v; }', 'const', ''),
 pair('each() on a const mutable view', V, 'void f(@ view<A&>& v){ v.each([](A&){}); }', '', 'const'),
 pair('each() range on a const mutable view', V, 'void f(@ view<A&>& v){ (void)v.each(); }', '', 'const'),
 pair('par_each() on a const mutable view', V, 'void f(@ view<A&>& v){ v.par_each([](A&){}); }', '', 'const'),
 pair('single() on a const mutable view', V, 'void f(@ view<A&>& v){ (void)v.single(); }', '', 'const'),
 pair('view callback takes mutable where view is const', V, 'void f(registry& r){ r.view<@ A&>().each([](A& a){ a.x = 1; }); }', '', 'const'),
 pair('range element of a const view is assignable', V, 'void f(registry& r){ for (auto [a, b] : r.view<@ A&, const B&>().each()) a.x = 1; }', '', 'const'),
 pair('single element of a const view is assignable', V, 'void f(registry& r){ std::get<0>(*r.single<@ A&, const B&>()).x = 1; }', '', 'const'),
 pair('par_each callback takes mutable where view is const', V, 'void f(registry& r){ r.view<@ A&>().par_each([](A& a){ a.x = 1; }); }', '', 'const'),
 pair('mutable entity in a view', R, 'void f(registry& r){ r.view<@ entity&, A&>().each([](auto&&...){}); }', 'const', ''),
 pair('mutable entity in a view used as a range', R, 'void f(registry& r){ for (auto&& x : r.view<A&, @ entity&>().each()) (void)x; }', 'const', ''),
 pair('mutable entity in each', R, 'void f(registry& r){ r.each([](@ entity& e, A&){ (void)e; }); }', 'const', ''),
 pair('mutable entity in single', R, 'void f(registry& r){ (void)r.single<@ entity&, A&>(); }', 'const', ''),
 pair('entity given as a component on creation', R, 'void f(registry& r){ r.create<@, A>({}, {}); }', 'B', 'entity'),
 pair('entity given as a component to set', E, 'void f(registry& r, entity e){ r.get_entity(e).set<@>(); }', 'A', 'entity'),
 pair('entity given as a component to get_or_insert', E, 'void f(registry& r, entity e){ (void)r.get_entity(e).get_or_insert<@>(); }', 'A', 'entity'),
 pair('mutable entity through get', E, 'void f(@ registry& r, entity e){ (void)r.get_entity(e).get<entity>(); }', 'const', ''),
 pair('mutable entity through get of several', E, 'void f(@ registry& r, entity e){ (void)r.get_entity(e).get<A, entity>(); }', 'const', ''),
 pair('same component twice on creation', R, 'void f(registry& r){ r.create<A, @>({}, {}); }', 'B', 'A'),
 pair('same component twice on creation, apart', R, 'void f(registry& r){ r.create<A, B, @>({}, {}, {}); }', 'D', 'A'),
 pair('same component twice on creation, last two', R, 'void f(registry& r){ r.create<A, B, @>({}, {}, {}); }', 'D', 'B'),
 pair('assignment through get on a const registry', E, 'void f(@ registry& r, entity e){ r.get_entity(e).get<A>().x = 1; }', '', 'const'),
 pair('assignment through get of several on a const registry', E, 'void f(@ registry& r, entity e){ std::get<1>(r.get_entity(e).get<A, B>()).y = 1; }', '', 'const'),
 pair('assignment through get on a const reference to an entity', E, 'void f(@ entity_ref& r){ r.get<A>().x = 1; }', '', 'const'),
 pair('assignment through get of several on a const reference to an entity', E, 'void f(@ entity_ref& r){ std::get<0>(r.get<A, B>()).x = 1; }', '', 'const'),
 pair('assignment through get_entity_const', E, 'void f(registry& r, entity e){ r.@(e).get<A>().x = 1; }', 'get_entity', 'get_entity_const'),
 pair('assignment through get of several on get_entity_const', E, 'void f(registry& r, entity e){ std::get<0>(r.@(e).get<A, B>()).x = 1; }', 'get_entity', 'get_entity_const'),
 pair('set on a const registry', E, 'void f(@ registry& r, entity e){ r.get_entity(e).set<A>(1); }', '', 'const'),
 pair('remove on a const registry', E, 'void f(@ registry& r, entity e){ r.get_entity(e).remove<A>(); }', '', 'const'),
 pair('destroy on a const registry', E, 'void f(@ registry& r, entity e){ r.get_entity(e).destroy(); }', '', 'const'),
 pair('registry::destroy on a const registry', R, 'void f(@ registry& r, entity e){ r.destroy(e); }', '', 'const'),
 pair('clone on a const registry', E, 'void f(@ registry& r, entity e){ r.get_entity(e).clone(); }', '', 'const'),
 pair('move out of a const registry', E, 'void f(@ registry& r, entity e, registry& d){ r.get_entity(e).move(d); }', '', 'const'),
 pair('move into a const registry', E, 'void f(registry& r, entity e, @ registry& d){ r.get_entity(e).move(d); }', '', 'const'),
 pair('copy into a const registry', E, 'void f(registry& r, entity e, @ registry& d){ r.get_entity(e).copy(d); }', '', 'const'),
 pair('get_or_insert on a const registry', E, 'void f(@ registry& r, entity e){ (void)r.get_entity(e).get_or_insert<A>(1); }', '', 'const'),
 pair('create on a const registry', R, 'void f(@ registry& r){ r.create<A>({1}); }', '', 'const'),
 pair('reserve on a const registry', R, 'void f(@ registry& r){ (void)r.reserve(); }', '', 'const'),
 pair('sync on a const registry', R, 'void f(@ registry& r){ r.sync(); }', '', 'const'),
 pair('commands on a const registry', 'include/co_ecs/command.hpp', 'void f(@ registry& r){ command_writer w(r); (void)w; }', '', 'const'),
 pair('flush into a const registry', 'include/co_ecs/command.hpp', 'void f(@ registry& r){ command_buffer::flush(r); }', '', 'const'),
 pair('set on a const reference to an entity', E, 'void f(@ entity_ref& r){ r.set<A>(1); }', '', 'const'),
 pair('remove on a const reference to an entity', E, 'void f(@ entity_ref& r){ r.remove<A>(); }', '', 'const'),
 pair('mutable visit on a const registry', E, 'void f(const registry& r, entity e){ r.get_entity(e).visit([](const component_meta&, @ void*){}); }', 'const', ''),
 pair('mutable visit on a const reference to an entity', E, 'void f(const entity_ref& r){ r.visit([](const component_meta&, @ void*){}); }', 'const', ''),
 pair('mutable access to components of a referenced archetype', E, 'void f(entity_ref& r, entity_location l){ r.archetype().get<A>(l) @; }', '.x', '.x = 1'),
 pair('mutable archetype of an entity', E, 'void f(entity_ref& r){ @ archetype& a = r.archetype(); (void)a; }', 'const', ''),
 pair('forged placeholder', 'include/co_ecs/base_registry.hpp', 'void f(registry& r, entity e, placeholder_entity p){ r.get_entity(e).clone(@); }', 'p', 'e'),
 pair('class that is not nothrow movable', C, 'struct X { X() noexcept; X(X&&) @; X& operator=(X&&) noexcept; }; void f(registry& r){ r.create<X>(X()); }', 'noexcept', ''),
 pair('class that is not nothrow move assignable', C, 'struct X { X() noexcept; X(X&&) noexcept; X& operator=(X&&) @; }; void f(registry& r){ r.create<X>(X()); }', 'noexcept', ''),
 pair('non-movable class', C, 'struct X { X() noexcept; X(X&&) @; X& operator=(X&&) noexcept; }; void f(registry& r, entity e){ r.get_entity(e).set<X>(); }', 'noexcept', '= delete'),
 pair('non-class component', C, 'struct X { int i; }; void f(registry& r){ (void)r.view<@&>(); }', 'X', 'int'),
 pair('view of values', R, 'void f(registry& r){ (void)r.view<A @>(); }', '&', ''),
 pair('remove of a non-component', C, 'struct X { X() noexcept; X(X&&) @; X& operator=(X&&) noexcept; }; void f(registry& r, entity e){ (void)r.get_entity(e).has<X>(); }', 'noexcept', ''),
 pair('const hash map gives mutable values', 'include/co_ecs/detail/hash_map.hpp', 'void f(@ detail::hash_map<int,int>& m){ m.find(1)->second = 2; }', '', 'const'),
 pair('const hash map at() gives mutable values', 'include/co_ecs/detail/hash_map.hpp', 'void f(@ detail::hash_map<int,int>& m){ m.at(1) = 2; }', '', 'const'),
 pair('const sparse map at() gives mutable values', 'include/co_ecs/detail/sparse_map.hpp', 'void f(@ detail::sparse_map<std::uint32_t,int>& m){ m.at(1) = 2; }', '', 'const'),
 pair('const sparse map find() gives mutable values', 'include/co_ecs/detail/sparse_map.hpp', 'void f(@ detail::sparse_map<std::uint32_t,int>& m){ m.find(1)->second = 2; }', '', 'const'),
]


def run(ctx):
    ctx.assumptions = ['the list of documented uses is the public interface at the pinned commit',
                       'const access through the archetype container itself (a lower-level interface) is not covered']
    witness.positives(ctx, 'documented use type-checks', POS)
    witness.negatives(ctx, 'forbidden use is rejected', NEG)
