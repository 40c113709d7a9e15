/* compiled as C: the headers must be valid C and every function must have C linkage */
#include "capi_table.h"
#define CAPI_INIT(f) f,
static const struct capi_table table = { CAPI(CAPI_INIT) };
const struct capi_table* capi(void) { return &table; }
