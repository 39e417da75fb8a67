from .c11 import *  # noqa
