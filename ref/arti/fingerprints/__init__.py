from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
import operator
from dataclasses import dataclass
from functools import reduce
from typing import Any, final
import annotated_types
import farmhash
from pydantic import GetCoreSchemaHandler
from pydantic_core import CoreSchema, core_schema
from arti.internal.utils import int64, uint64

@final
class Fingerprint(int64):

    def combine(self, *others: Fingerprint) -> Fingerprint:
        return reduce(operator.xor, others, self)

    @classmethod
    def from_int(cls, x: int, /) -> Fingerprint:
        return cls.from_int64(int64(x))

    @classmethod
    def from_int64(cls, x: int64, /) -> Fingerprint:
        return cls(x)

    @classmethod
    def from_string(cls, x: str, /) -> Fingerprint:
        return cls.from_uint64(uint64(farmhash.fingerprint64(x)))

    @classmethod
    def from_uint64(cls, x: uint64, /) -> Fingerprint:
        return cls.from_int64(int64(x))

    @classmethod
    def identity(cls) -> Fingerprint:
        return cls(0)

    @property
    def is_identity(self) -> bool:
        return self == 0

    @classmethod
    def __get_pydantic_core_schema__(cls, source_type: Any, handler: GetCoreSchemaHandler) -> CoreSchema:
        return core_schema.no_info_after_validator_function(cls, handler.generate_schema(int))

@dataclass(frozen=True, **annotated_types.SLOTS)
class SkipFingerprint(annotated_types.BaseMetadata):
    value: bool = True

    def __bool__(self) -> bool:
        return self.value

    def __eq__(self, other: Any) -> bool:
        return self.value == other
