// Reconstruction of the ECSS SMP interface header <Smp/AnySimpleArray.h>.
#ifndef SMPREC_ANYSIMPLEARRAY_H
#define SMPREC_ANYSIMPLEARRAY_H
#include <Smp/AnySimple.h>
namespace Smp {
using AnySimpleArray = ::Smp::AnySimple *;
} // namespace Smp
#endif
