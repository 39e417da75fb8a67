from pbt.checks.c18 import *  # noqa
