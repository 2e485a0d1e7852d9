"""What has to hold, and which constructs of the code decide it."""
from .na import NOT_APPLICABLE
from .part1 import PROPS as _A
from .part2 import PROPS as _B
from .part3 import PROPS as _C
from .wider import widen

PROPS = widen([*_A, *_B, *_C])
__all__ = ["NOT_APPLICABLE", "PROPS"]
