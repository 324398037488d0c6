CONSTANT Emit = FALSE
INIT TraceInit
NEXT TraceNext
