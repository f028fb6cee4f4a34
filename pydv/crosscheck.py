"""CPython cross-check: run the repository's own tests against the transformed
package (concrete values).  Shows that the transformation and the replacement
builtins preserve behaviour on everything the tests exercise."""
import os, sys, unittest
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pydv.loader import Package


def install(root='/repo/src'):
    P = Package(root)
    for n in sorted(os.listdir(os.path.join(root, 'aaf2'))):
        if n.endswith('.py') and n != '__init__.py':
            P.load('aaf2.' + n[:-3])
    P.load('aaf2.model') if os.path.isdir(os.path.join(root, 'aaf2/model')) else None
    sys.modules.update(P.modules)
    return P


if __name__ == '__main__':
    install()
    sys.path.insert(0, os.environ.get('PV_TESTS','/repo/tests'))
    import pytest
    sys.exit(pytest.main(['-q', '-x' if '-x' in sys.argv else '-q', '-p', 'no:cacheprovider',
                          os.environ.get('PV_TESTS','/repo/tests')] + [a for a in sys.argv[1:] if a != '-x']))
