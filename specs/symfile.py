"""one in-memory file of the symbolic package, shared by the paths of a unit
(nothing symbolic is stored in it)"""
_F = {}


def symfile(P):
    if 'f' not in _F:
        _F['f'] = P.file.AAFFile()
    return _F['f']


def typedef(P, name):
    t = symfile(P).metadict.lookup_typedef(name)
    assert t is not None, name
    return t
