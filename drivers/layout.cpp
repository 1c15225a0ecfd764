// Analysis roots for the memory layout of archetypes and chunks.
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
void drv_archetype(void* mem, component_meta_set& set) { ::new (mem) archetype(std::move(set)); }
void drv_chunk(void* mem, const blocks_type& blocks, std::size_t max) { ::new (mem) chunk(blocks, max); }
void drv_drop(chunk& c) { c.~chunk(); }
