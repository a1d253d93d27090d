// FLAVOR: asan
// PROPS: C35
// DEFS: FIFTYONE_DEGREES_NO_THREADING
#define VP_AS "C35"
#define VP_TAG "nothreads"
#include "dataset.cpp"
