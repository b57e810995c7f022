//! variant: fallback
//! time_quick: 150
//! time_thorough: 850
//! bound: transposition of matrices up to 4x3 (thorough 5x5) and arrays of up to 2x2x3, out of place, in place and twice; transforms of size 2 and 4, complex ones also 1, of 1 to 3 rows and of arrays of 2x2 rows; rows longer and shorter than the transform; odd, zero and negative sizes; double precision; every element value, whole numbers within 10 bits for transforms; outputs that share the storage
//! assume: Kiss FFT is replaced by an exact discrete transform for these sizes, with no real transforms of odd size
#define KISS 1
#include "dft.inc"
#include "transposes.inc"
