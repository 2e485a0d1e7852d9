from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
import inspect
import subprocess
from collections.abc import Callable
from datetime import UTC, datetime
from typing import Annotated, Any, cast
from annotated_types import Timezone
from pydantic import Field, field_validator
from arti.internal.models import Model

class Version(Model):
    _abstract_ = True

class GitCommit(Version):
    sha: str = Field(default_factory=lambda: subprocess.check_output(['git', 'rev-parse', 'HEAD']).decode().strip())

class SemVer(Version):
    major: int
    minor: int
    patch: int

    def model_post_init(self, __context: Any) -> None:
        super().model_post_init(__context)
        fields = self._arti_fingerprint_fields_
        desired = {'_arti_type_', 'major', 'minor', 'patch'}
        if (unexpected := (set(fields) - desired)):
            raise NotImplementedError(f'Unexpected {self._arti_type_key_} fingerprint fields ({unexpected}) - did we forget to handle them?')
        if self.major > 0:
            desired = desired - {'minor', 'patch'}
        object.__setattr__(self, '_arti_fingerprint_fields_', tuple((f for f in fields if f in desired)))

class String(Version):
    value: str

class _SourceDescriptor:

    def __get__(self, obj: Any, type_: type) -> String:
        return String(value=inspect.getsource(type_))
_Source = cast(Callable[[], String], _SourceDescriptor)

class Timestamp(Version):
    dt: Annotated[datetime, Timezone(...)] = Field(default_factory=lambda: datetime.now(tz=UTC), validate_default=True)

    @field_validator('dt')
    @classmethod
    def _requires_timezone(cls, dt: datetime) -> datetime:
        if dt.tzinfo is None:
            raise ValueError('Timestamp requires a timezone-aware datetime!')
        return dt
