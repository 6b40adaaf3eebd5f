// equality of the buffer resources
#include "irai.h"
#include <utils/memory/simple_resource.h>
#include <utils/memory/monotonic_buffer_resource.h>
using utils::memory::memory_resource;
ENTRY p21_equality_buffers()
{
    alignas(16) std::byte x[64], y[64];
    utils::memory::monotonic_buffer_resource a(x, 64, nullptr), b(x, 64, nullptr);
    utils::memory::simple_resource<4, 16> c(y, 64, nullptr), d(y, 64, nullptr);
    memory_resource* m[5] = {&a, &b, &c, &d, utils::memory::null_memory_resource()};
    unsigned i = __v_choice(5, "left"), j = __v_choice(5, "right");
    CHECK((*m[i] == *m[j]) == (i == j), "resources are equal exactly when they are the same object");
    CHECK((*m[i] != *m[j]) == (i != j), "inequality is the negation");
}
