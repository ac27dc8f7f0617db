"""Which exceptions of an execution speak about the code under contract."""
import traceback


def environment(e):
    """the sandbox ran out of something (memory, mappings of compiled code): says nothing about the code"""
    return isinstance(e, MemoryError) or type(e).__name__ in ('XlaRuntimeError', 'JaxRuntimeError') and any(x in str(e) for x in ('Failed to materialize', 'allocate', 'RESOURCE_EXHAUSTED', 'Out of memory', 'INTERNAL'))


def of_code(e):
    return not environment(e) and any('/horqrux/' in f.filename for f in traceback.extract_tb(e.__traceback__))
