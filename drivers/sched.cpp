// Analysis roots for stages and schedules.
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
using namespace co_ecs;
struct A { int x; };
void drv_stage_run(stage_executor& s) { s.run(); }
void drv_run_once(schedule_executor& s) { s.run_once(); }
std::unique_ptr<stage_executor> drv_stage_create(stage& s, registry& r, void* u) { return s.create_executor(r, u); }
std::unique_ptr<schedule_executor> drv_sched_create(schedule& s, registry& r, void* u) { return s.create_executor(r, u); }
void drv_add(stage& s, std::unique_ptr<system_interface> f) { s.add_system(std::move(f)); }
void drv_add_main(stage& s, std::unique_ptr<system_interface> f) { s.add_system(main_thread_execution_policy, std::move(f)); }
void drv_add_init(schedule& s, std::unique_ptr<system_interface> f) { s.add_init_system(std::move(f)); }
void drv_add_init_main(schedule& s, std::unique_ptr<system_interface> f) { s.add_init_system(main_thread_execution_policy, std::move(f)); }
using fn_t = void (*)(view<A&>, command_writer);
struct fo { void operator()(view<A&>, registry&) const; };
struct fm { void operator()(const registry&); };
void drv_addf_fn(stage& s, fn_t f) { s.add_system(f); }
void drv_addf_fo(stage& s, fo f) { s.add_system(f); }
void drv_addf_main(stage& s, fn_t f) { s.add_system(main_thread_execution_policy, f); }
stage& drv_begin(schedule& s) { return s.begin_stage("x"); }
// one run of one system
void drv_exec_fn(system_executor<fn_t>& e) { e.system_executor<fn_t>::run(); }
void drv_exec_fo(system_executor<fo>& e) { e.system_executor<fo>::run(); }
void drv_exec_fm(system_executor<fm>& e) { e.system_executor<fm>::run(); }
using sf_t = std::function<void(view<const A&>)>;
void drv_exec_sf(system_executor<sf_t>& e) { e.system_executor<sf_t>::run(); }
std::unique_ptr<system_executor_interface> drv_sys_fn(co_ecs::system<fn_t>& s, registry& r, void* u) { return s.co_ecs::system<fn_t>::create_executor(r, u); }
std::unique_ptr<system_executor_interface> drv_sys_fo(co_ecs::system<fo>& s, registry& r, void* u) { return s.co_ecs::system<fo>::create_executor(r, u); }
std::unique_ptr<system_executor_interface> drv_sys_named(named_system<sf_t>& s, registry& r, void* u) { return s.named_system<sf_t>::create_executor(r, u); }
// tasks
void drv_task_execute(task_t& t) { t.execute(); }
bool drv_task_done(const task_t& t) { return t.is_completed(); }
task_t* drv_task_submit(thread_pool::worker& w, void (*f)(), task_t* parent) { return w.submit(f, parent); }
task_t* drv_pool_submit(thread_pool& p, void (*f)(), task_t* parent) { return p.submit(f, parent); }
void drv_task_wait(thread_pool::worker& w, task_t* t) { w.wait(t); }
void drv_pool_wait(thread_pool& p, task_t* t) { p.wait(t); }
// patterns: an empty one allows everything
bool drv_allows_first(const access_pattern_t& p) { access_pattern_t none; return none.allows(p); }
