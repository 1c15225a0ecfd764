// Analysis roots for the work-stealing queue and its use by the thread pool.
#include <co_ecs/co_ecs.hpp>
#include <new>
using namespace co_ecs;
using Q = detail::work_stealing_queue<int*>;
void drv_push(Q& q, int* p) { q.push(p); }
auto drv_steal(Q& q) { return q.steal(); }
auto drv_pop(Q& q) { return q.pop(); }
bool drv_empty(const Q& q) { return q.empty(); }
auto drv_size(const Q& q) { return q.size(); }
void drv_ctor(void* mem, int64_t c) { new (mem) Q(c); }
void drv_ctor0(void* mem) { new (mem) Q(); }
void drv_dtor(Q* q) { q->~work_stealing_queue(); }
// in the pool
task_t* drv_submit(void (*f)()) { return thread_pool::get().submit(f); }
void drv_wait(task_t* t) { thread_pool::get().wait(t); }
