from pbt.checks import c02  # noqa: F401  (C02, C03 and C04 share one module)
