// Analysis roots for command buffers: recording from any thread, applying what was recorded.
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
struct A { int x; };
struct N { N(int); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); int* p; };
command_buffer& drv_get() { return command_buffer::get(); }
void drv_flush(registry& r) { command_buffer::flush(r); }
// recording
entity drv_create(registry& r, A&& a, N&& n) { return command_writer(r).create<A, N>(std::move(a), std::move(n)); }
entity drv_create0(registry& r) { return command_writer(r).create<>(); }
void drv_destroy(registry& r, entity e) { command_writer(r).destroy(e); }
void drv_edestroy(registry& r, entity e) { command_writer(r).get_entity(e).destroy(); }
void drv_set(registry& r, entity e, int i) { command_writer(r).get_entity(e).set<N>(i); }
void drv_seta(registry& r, entity e, int i) { command_writer(r).get_entity(e).set<A>(i); }
auto drv_reserve(registry& r) { return r.reserve(); }
void drv_remove(registry& r, entity e) { command_writer(r).get_entity(e).remove<A>(); }
entity drv_clone(registry& r, entity e) { return command_writer(r).get_entity(e).clone(); }
// recording and applying
void drv_fcreate(registry& r, A&& a, N&& n) { command_writer(r).create<A, N>(std::move(a), std::move(n)); command_buffer::flush(r); }
void drv_fcreate0(registry& r) { command_writer(r).create<>(); command_buffer::flush(r); }
void drv_fdestroy(registry& r, entity e) { command_writer(r).destroy(e); command_buffer::flush(r); }
void drv_fedestroy(registry& r, entity e) { command_writer(r).get_entity(e).destroy(); command_buffer::flush(r); }
void drv_fset(registry& r, entity e, int i) { command_writer(r).get_entity(e).set<N>(i); command_buffer::flush(r); }
void drv_fremove(registry& r, entity e) { command_writer(r).get_entity(e).remove<A>(); command_buffer::flush(r); }
void drv_fclone(registry& r, entity e) { command_writer(r).get_entity(e).clone(); command_buffer::flush(r); }
void drv_fseta(registry& r, entity e, int i) { command_writer(r).get_entity(e).set<A>(i); command_buffer::flush(r); }
void drv_fremoven(registry& r, entity e) { command_writer(r).get_entity(e).remove<N>(); command_buffer::flush(r); }
entity drv_getent(registry& r, entity e) { return command_writer(r).get_entity(e); }
// (makes the type-erased operations of components available to the analysis)
void drv_use(registry& r, entity e, registry& d) { r.get_entity(e).set<N>(1); r.get_entity(e).set<A>(A{}); r.get_entity(e).copy(d); r.get_entity(e).move(d); }
