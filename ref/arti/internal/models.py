from __future__ import annotations
import json
from collections.abc import Iterable, Mapping
from functools import cached_property
from typing import TYPE_CHECKING, Annotated, Any, ClassVar, Self, cast, dataclass_transform, overload
from pydantic import BaseModel, ConfigDict, Field, PlainSerializer, PrivateAttr, SerializerFunctionWrapHandler, computed_field, model_serializer
from pydantic_core import PydanticUndefined, PydanticUndefinedType
from arti.fingerprints import Fingerprint, SkipFingerprint
from arti.internal.type_hints import get_item_from_annotated
from arti.internal.utils import class_name

@dataclass_transform(field_specifiers=(Field, PrivateAttr), frozen_default=True, kw_only_default=True)
class ModelMeta(type(BaseModel)):
    pass
ModelTypeSerializer = PlainSerializer(lambda m: m._arti_type_key_, return_type=str, when_used='json-unless-none')

class Model(BaseModel, metaclass=ModelMeta):
    _abstract_: ClassVar[bool] = True
    _arti_type_key_: ClassVar[str] = class_name()
    _arti_fingerprint_fields_: tuple[str, ...] = ()

    @computed_field(repr=False)
    def _arti_type_(self) -> Annotated[type[Self], ModelTypeSerializer]:
        return type(self)
    model_config = ConfigDict(extra='forbid', frozen=True, ser_json_inf_nan='constants', strict=True, validate_assignment=True, validate_default=True, validate_return=True)

    @classmethod
    def __pydantic_init_subclass__(cls, **kwargs: Any) -> None:
        super().__pydantic_init_subclass__(**kwargs)
        cls._abstract_ = cls.__dict__.get('_abstract_', False)
        if not cls.model_config.get('frozen'):
            raise ValueError(f'{cls._arti_type_key_} must be frozen to generate a fingerprint.')
        field_annotations = ((name, Annotated[cast(Any, field_info.annotation), *field_info.metadata] if field_info.metadata else field_info.annotation) for name, field_info in cls.model_fields.items() if not field_info.exclude)
        computed_annotations = ((name, computed_info.return_type) for name, computed_info in cls.model_computed_fields.items())
        cls._arti_fingerprint_fields_ = tuple(sorted((name for name, annotation in [*field_annotations, *computed_annotations] if not get_item_from_annotated(annotation, SkipFingerprint, default=SkipFingerprint(False), kind='object'))))
    if not TYPE_CHECKING:

        def __new__(cls, *args, **kwargs):
            if cls._abstract_:
                raise TypeError(f'{cls._arti_type_key_} cannot be instantiated directly.')
            return super().__new__(cls)

    def model_post_init(self, __context: Any) -> None:
        super().model_post_init(__context)
        hash(self)

    @model_serializer(mode='wrap')
    def _arti_serialize_model(self: Any, serializer: SerializerFunctionWrapHandler) -> dict[str, Any]:
        data = serializer(self)
        return {field: _sort_sets(getattr(self, field), data[field]) for field in self._arti_fingerprint_fields_ if field in data}

    def model_copy(self, *, update: dict[str, Any] | None=None, deep: bool=False) -> Self:
        copy = super().model_copy(update=update, deep=deep)
        if update:
            for name in copy.__dict__.keys() - copy.model_fields.keys():
                del copy.__dict__[name]
        return copy

    def model_dump(self, **kwargs) -> dict[str, Any]:
        _set_dump_kwargs_defaults(kwargs)
        return super().model_dump(**kwargs)

    def model_dump_json(self, **kwargs) -> str:
        _set_dump_kwargs_defaults(kwargs)
        return super().model_dump_json(**kwargs)

    @cached_property
    def fingerprint(self) -> Fingerprint:
        fingerprint = Fingerprint.from_string(json.dumps(self.model_dump(mode='json'), ensure_ascii=False, separators=(',', ':'), sort_keys=True))
        if fingerprint.is_identity:
            raise ValueError('Fingerprint is empty!')
        return fingerprint

    def __repr_args__(self) -> Iterable[tuple[str | None, Any]]:
        return [(k, v) for k, v in super().__repr_args__() if k in self.model_fields_set]

    def __str__(self) -> str:
        return repr(self)

def _sort_sets(value: Any, data: Any) -> Any:
    if not isinstance(data, list | dict) or not isinstance(value, Iterable):
        return data
    if isinstance(value, Mapping) and isinstance(data, dict) and (len(value) == len(data)):
        return {k: _sort_sets(v, d) for v, (k, d) in zip(value.values(), data.items(), strict=True)}
    if isinstance(value, frozenset | set | tuple) and isinstance(data, list):
        if len(value) == len(data):
            data = [_sort_sets(v, d) for v, d in zip(value, data, strict=True)]
        if not isinstance(value, tuple):
            data = sorted(data, key=lambda d: json.dumps(d, sort_keys=True))
    return data

def _set_dump_kwargs_defaults(kwargs: dict[str, Any]) -> None:
    kwargs.setdefault('serialize_as_any', True)

@overload
def get_field_default(model: type[Model], field: str, *, fallback: PydanticUndefinedType=PydanticUndefined) -> Any:
    ...

@overload
def get_field_default[T](model: type[Model], field: str, *, fallback: T) -> T:
    ...

def get_field_default[T](model: type[Model], field: str, *, fallback: T=PydanticUndefined) -> Any | T:
    default = model.model_fields[field].get_default(call_default_factory=True)
    if default is PydanticUndefined:
        if fallback is not PydanticUndefined:
            return fallback
        raise ValueError(f"No default value for field '{field}' in {model}")
    return default
