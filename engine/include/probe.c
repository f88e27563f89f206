#include "php.h"
const unsigned long teds_probe_eg_exception = XtOffsetOf(zend_executor_globals, exception);
