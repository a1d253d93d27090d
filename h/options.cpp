// FLAVOR: asan
// PROPS: C35
#include "mc.hpp"
#include "env.hpp"
#include "fiftyone.h"
#include <string.h>
extern "C" bool isThreadSafe() asm("fiftyoneDegreesThreadingGetIsThreadSafe"); extern "C" bool isMemoryOnly() asm("fiftyoneDegreesCollectionGetIsMemoryOnly");
#ifdef FIFTYONE_DEGREES_NO_THREADING
static const bool threads = false;
#else
static const bool threads = true;
#endif
MC_SUITE(C35, options, 1, "the library says truthfully which options it was built with, however often it is asked") {
	for (int i = 0, n = 1 + mc::choose(4); i < n; i++) { if (mc::flip()) MC_CHECK(isThreadSafe() == threads, "options:threads", "says it is%s thread safe", threads ? " not" : ""); else MC_CHECK(isMemoryOnly() == mc::memoryOnly, "options:memory", "says it is%s for memory only", mc::memoryOnly ? " not" : ""); } mc::outcome("ok");
}
