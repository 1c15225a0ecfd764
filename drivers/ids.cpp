// Analysis root: how a component type gets its identity.
#include <co_ecs/co_ecs.hpp>
struct id_probe { int x; };
co_ecs::component_id_t drv_id() { return co_ecs::component_id::value<id_probe>; }
