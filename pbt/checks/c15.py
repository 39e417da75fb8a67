from .c14 import *  # noqa
