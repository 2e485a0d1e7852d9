from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
from typing import ClassVar, Self
from arti.internal.models import Model
from arti.types import Type, TypeSystem

class Format(Model):
    _abstract_ = True
    type_system: ClassVar[TypeSystem]
    extension: str = ''

    def _visit_type(self, type_: Type) -> Self:
        self.type_system.to_system(type_, hints={})
        return self

    @classmethod
    def get_default(cls) -> Format:
        from arti.formats.json import JSON
        return JSON()
