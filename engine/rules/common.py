"""helpers shared by the rule modules"""
def roles(M, fn): return M.roles.get(fn.name, [])
def is_teardown(M, fn):
    """runs only when the object or iterator is already unreachable for user code"""
    r = roles(M, fn)
    return bool(r) and all(x[1] in ('handler:free_obj', 'handler:dtor_obj', 'iter:dtor') for x in r)
def classes_of(M, fn): return [M.classes[n] for n in M.owners.get(fn.name, []) if n in M.classes]
def exempt_storage(M, fn, t):
    """storage of an immutable class"""
    cs = classes_of(M, fn)
    # CachedIterable::toArray runs after the source was exhausted (iter == NULL): nothing rewrites the entries from then on
    if fn.name == 'zim_Teds_CachedIterable_toArray': return True
    return bool(cs) and all(c['immutable'] for c in cs)
