// FLAVOR: asan
// PROPS: C35
// DEFS: FIFTYONE_DEGREES_MEMORY_ONLY
#define VP_AS "C35"
#define VP_TAG "memonly"
#include "entities.cpp"
