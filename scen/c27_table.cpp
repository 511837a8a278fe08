// C27: the look-up table, in a translation unit of its own (its header and the geometry headers define the same constants).
#include <rofl/common/functions.h>
void* misuse_table() { return new rofl::PnebiLUT(); }
void misuse_table_init(void* t, int n, double tol) { ((rofl::PnebiLUT*)t)->init(n, tol); }
double misuse_table_eval(void* t, int k, double x) { return ((rofl::PnebiLUT*)t)->eval(k, x); }
