#include "c17_box.h"
namespace c17 {
void box3_kind(std::vector<Kind>& v) { v.push_back(Kind{"box3", box<double, 3>, 12, true, 2}); }
}  // namespace c17
