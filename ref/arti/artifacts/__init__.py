from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
import json
from itertools import chain
from typing import TYPE_CHECKING, Annotated, Any
from pydantic import Field, ValidationInfo, field_validator
from arti.annotations import Annotation
from arti.fingerprints import SkipFingerprint
from arti.formats import Format
from arti.internal.models import Model, get_field_default
from arti.internal.type_hints import get_annotation_from_value
from arti.statistics import Statistic
from arti.storage import Storage
from arti.types import Type
if TYPE_CHECKING:
    from arti.producers import ProducerOutput

class Artifact(Model):
    type: Type
    format: Format = Field(default_factory=Format.get_default, validate_default=True)
    storage: Storage = Field(default_factory=Storage.get_default, validate_default=True)
    annotations: Annotated[tuple[Annotation, ...], Field(validate_default=True)] = ()
    statistics: Annotated[tuple[Statistic, ...], Field(validate_default=True)] = ()
    producer_output: Annotated[ProducerOutput | None, Field(repr=False), SkipFingerprint()] = None

    @field_validator('format')
    @classmethod
    def _validate_format(cls, format: Format, info: ValidationInfo) -> Format:
        if (type_ := info.data.get('type')) is not None:
            return format._visit_type(type_)
        return format

    @field_validator('storage')
    @classmethod
    def _validate_storage(cls, storage: Storage, info: ValidationInfo) -> Storage:
        if (type_ := info.data.get('type')) is not None:
            storage = storage._visit_type(type_)
        if (format_ := info.data.get('format')) is not None:
            storage = storage._visit_format(format_)
        return storage

    @field_validator('annotations', 'statistics', mode='before')
    @classmethod
    def _merge_class_defaults(cls, value: tuple[Any, ...], info: ValidationInfo) -> tuple[Any, ...]:
        assert info.field_name is not None
        return tuple(chain(get_field_default(cls, info.field_name, fallback=()), value))

    @classmethod
    def cast(cls, value: Any) -> Artifact:
        from arti.formats.json import JSON
        from arti.producers import Producer
        from arti.storage.literal import StringLiteral
        from arti.types.python import python_type_system
        if isinstance(value, Artifact):
            return value
        if isinstance(value, Producer):
            output_artifacts = value.out()
            if isinstance(output_artifacts, Artifact):
                return output_artifacts
            n_outputs = len(output_artifacts)
            if n_outputs == 0:
                raise ValueError(f"{type(value).__name__} doesn't produce any Artifacts!")
            assert n_outputs > 1
            raise ValueError(f'{type(value).__name__} produces {len(output_artifacts)} Artifacts. Try assigning each to a new name in the Graph!')
        annotation = get_annotation_from_value(value)
        return cls(type=python_type_system.to_artigraph(annotation, hints={}), format=JSON(), storage=StringLiteral(value=json.dumps(value)))
