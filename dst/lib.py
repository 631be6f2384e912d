"""Namespace with the library's names, plus both vector implementations."""
import pyrsistent
from pyrsistent import *        # noqa
from pyrsistent._pvector import python_pvector, PythonPVector      # noqa
import sys as _sys

try:
    import pvectorc as _pc
    HAVE_C = type(pyrsistent.pvector()).__module__ == 'pvectorc'
except ImportError:
    HAVE_C = False


def check_flavor(flavor, scratch, repo):
    """The simulation must run the code under test, from the right place."""
    if not pyrsistent.__file__.startswith(repo + '/'):
        raise RuntimeError('pyrsistent imported from %s' % pyrsistent.__file__)
    if flavor == 'py':
        if 'pvectorc' in type(pyrsistent.pvector()).__module__:
            raise RuntimeError('C extension in use in flavor py')
    else:
        import pvectorc
        if not pvectorc.__file__.startswith(scratch):
            raise RuntimeError('pvectorc imported from %s' % pvectorc.__file__)
        if not isinstance(pyrsistent.pvector(), pvectorc.PVector if hasattr(pvectorc, 'PVector') else type(pvectorc.pvector())):
            raise RuntimeError('C extension not in use')
