// C18: objects that several threads read at the same time.
#pragma once
#include "c17.h"
namespace c18 {
using c17::Out;
struct Object {
    virtual ~Object() {}
    virtual std::string query(sim::u64 q, sim::u64 arg) const = 0;   // one read-only operation
    virtual std::string describe() const = 0;                        // everything observable
};
struct Factory { const char* name; Object* (*make)(sim::u64 seed, int size); };
void common_objects(std::vector<Factory>& v);
void geom_objects(std::vector<Factory>& v);
}  // namespace c18
