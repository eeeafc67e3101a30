""" helper functions to read/write files
"""

__all__ = []


from . import ats
from . import binary_file_array

from .ats import *
__all__.extend(ats.__all__)

from .binary_file_array import *
__all__.extend(binary_file_array.__all__)
