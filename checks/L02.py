"""L02: a free or expired lock is taken over and kept."""
from checks.L01 import ASSUMPTIONS, scen  # noqa: F401

PROPS = ("L02",)


def scenarios(tier):
    return scen(PROPS, tier)
