from .c09 import *  # noqa
