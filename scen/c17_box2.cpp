#include "c17_box.h"
namespace c17 {
void box2_kind(std::vector<Kind>& v) { v.push_back(Kind{"box2", box<float, 2>, 11, true, 2}); }
}  // namespace c17
