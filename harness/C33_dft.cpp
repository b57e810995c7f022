//! time_quick: 150
//! time_thorough: 850
//! bound: sizes 1, 2 and 4; single, double, real and complex; vectors and matrices of 1 to 3 rows, arrays of 2x2 rows, longer rows than the transform; arrays and views (offset 1); whole numbers within 10 bits
//! assume: the transform library is replaced by an exact discrete transform for these sizes
#include "dft.inc"
HARNESS(transform_double) { transforms(TYPE_DOUBLE); }
HARNESS(transform_cdouble) { transforms(TYPE_CDOUBLE); }
