from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
from collections.abc import Callable, Iterator
from inspect import Parameter, Signature, getattr_static
from typing import TYPE_CHECKING, Annotated, Any, ClassVar, TypeVar, cast, get_args, get_origin, overload
from pydantic import ValidationInfo, field_validator
from arti.annotations import Annotation
from arti.artifacts import Artifact
from arti.fingerprints import Fingerprint, SkipFingerprint
from arti.internal import wrap_exc
from arti.internal.mappings import FrozenMapping, frozendict
from arti.internal.models import Model
from arti.internal.type_hints import NoneType, get_item_from_annotated, is_optional_hint, lenient_issubclass, signature
from arti.internal.utils import get_module_name, ordinal
from arti.partitions import InputFingerprints, NotPartitioned, PartitionKey
from arti.storage import StoragePartitions, StoragePartitionSnapshots
from arti.types import is_partitioned
from arti.versions import SemVer, Version
from arti.views import View
_T = TypeVar('_T')
MapInputs = set[str]
BuildInputs = frozendict[str, View]
Outputs = tuple[View, ...]
InputArtifactClasses = frozendict[str, type[Artifact]]
InputPartitions = frozendict[str, StoragePartitionSnapshots]
PartitionDependencies = frozendict[PartitionKey, InputPartitions]
MapSig = Callable[..., PartitionDependencies]
BuildSig = Callable[..., Any]
ValidateSig = Callable[..., tuple[bool, str]]

class Producer(Model):
    annotations: Annotated[tuple[Annotation, ...], SkipFingerprint()] = ()
    version: Version = SemVer(major=0, minor=0, patch=1)
    map: ClassVar[MapSig]
    build: ClassVar[BuildSig]
    if TYPE_CHECKING:
        validate_outputs: ClassVar[ValidateSig]
    else:

        @staticmethod
        def validate_outputs(*outputs: Any) -> bool | tuple[bool, str]:
            return (True, 'No validation performed.')
    _abstract_: ClassVar[bool] = True
    _input_artifact_classes_: ClassVar[InputArtifactClasses]
    _build_inputs_: ClassVar[BuildInputs]
    _build_sig_: ClassVar[Signature]
    _map_inputs_: ClassVar[MapInputs]
    _map_sig_: ClassVar[Signature]
    _outputs_: ClassVar[Outputs]

    @classmethod
    def __pydantic_init_subclass__(cls, **kwargs: Any) -> None:
        super().__pydantic_init_subclass__(**kwargs)
        if not cls._abstract_:
            with wrap_exc(ValueError, prefix=cls.__name__):
                cls._input_artifact_classes_ = cls._validate_fields()
                with wrap_exc(ValueError, prefix='.build'):
                    cls._build_sig_, cls._build_inputs_, cls._outputs_ = cls._validate_build_sig()
                with wrap_exc(ValueError, prefix='.validate_output'):
                    cls._validate_validate_output_sig()
                with wrap_exc(ValueError, prefix='.map'):
                    cls._map_sig_, cls._map_inputs_ = cls._validate_map_sig()
                cls._validate_no_unused_fields()

    @classmethod
    def _validate_fields(cls) -> InputArtifactClasses:
        artifact_fields = {k: v for k, v in cls.model_fields.items() if k not in Producer.model_fields}
        for name, field in artifact_fields.items():
            with wrap_exc(ValueError, prefix=f'.{name}'):
                if is_optional_hint(field.annotation):
                    raise ValueError('field must not be optional.')
                if not field.is_required():
                    raise ValueError('field must not have a default.')
                if not lenient_issubclass(field.annotation, Artifact):
                    raise ValueError(f'type hint must be an Artifact subclass, got: {field.annotation}')
        return InputArtifactClasses({name: cast(type[Artifact], field.annotation) for name, field in artifact_fields.items()})

    @classmethod
    def _validate_parameters(cls, sig: Signature, *, validator: Callable[[str, Parameter], _T]) -> Iterator[_T]:
        if (undefined_params := (set(sig.parameters) - set(cls._input_artifact_classes_))):
            raise ValueError(f'the following parameter(s) must be defined as a field: {undefined_params}')
        for name, param in sig.parameters.items():
            with wrap_exc(ValueError, prefix=f' {name} param'):
                if param.annotation is param.empty:
                    raise ValueError('must have a type hint.')
                if param.default is not param.empty:
                    raise ValueError('must not have a default.')
                if param.kind not in (param.POSITIONAL_OR_KEYWORD, param.KEYWORD_ONLY):
                    raise ValueError('must be usable as a keyword argument.')
                yield validator(name, param)

    @classmethod
    def _validate_build_param(cls, name: str, param: Parameter) -> tuple[str, View]:
        annotation = param.annotation
        field_artifact_class = cls._input_artifact_classes_[param.name]
        if get_item_from_annotated(annotation, Artifact, kind='class') is None:
            annotation = Annotated[annotation, field_artifact_class]
        view = View.from_annotation(annotation, mode='READ')
        if view.artifact_class != field_artifact_class:
            raise ValueError(f'annotation Artifact class ({view.artifact_class}) does not match that set on the field ({field_artifact_class}).')
        return (name, view)

    @classmethod
    def _validate_build_sig_return(cls, annotation: Any, *, i: int) -> View:
        with wrap_exc(ValueError, prefix=f' {ordinal(i + 1)} return'):
            return View.from_annotation(annotation, mode='WRITE')

    @classmethod
    def _validate_build_sig(cls) -> tuple[Signature, BuildInputs, Outputs]:
        if not hasattr(cls, 'build'):
            raise ValueError('must be implemented')
        if not isinstance(getattr_static(cls, 'build'), classmethod | staticmethod):
            raise ValueError('must be a @classmethod or @staticmethod')
        build_sig = signature(cls.build, force_tuple_return=True, remove_owner=True)
        build_inputs = BuildInputs(cls._validate_parameters(build_sig, validator=cls._validate_build_param))
        return_annotation = build_sig.return_annotation
        if return_annotation is build_sig.empty:
            raise ValueError('a return value must be set with the output Artifact(s).')
        if return_annotation == (NoneType,):
            raise ValueError('missing return signature')
        outputs = Outputs((cls._validate_build_sig_return(annotation, i=i) for i, annotation in enumerate(return_annotation)))
        seen_key_types = {PartitionKey.types_from(view.type) for view in outputs}
        if len(seen_key_types) != 1:
            raise ValueError('all outputs must have the same partitioning scheme')
        return (build_sig, build_inputs, outputs)

    @classmethod
    def _validate_validate_output_sig(cls) -> None:
        build_output_hints = [get_args(hint)[0] if get_origin(hint) is Annotated else hint for hint in cls._build_sig_.return_annotation]
        match_build_str = f'match the `.build` return (`{build_output_hints}`)'
        validate_parameters = signature(cls.validate_outputs).parameters

        def param_matches(param: Parameter, build_return: type) -> bool:
            return param.annotation is param.empty or lenient_issubclass(build_return, param.annotation)
        if len(validate_parameters) == 1 and (param := next(iter(validate_parameters.values()))).kind == param.VAR_POSITIONAL:
            if not all((param_matches(param, output_hint) for output_hint in build_output_hints)):
                with wrap_exc(ValueError, prefix=f' {param.name} param'):
                    raise ValueError(f'type hint must be `Any` or {match_build_str}')
        else:
            if len(validate_parameters) != len(build_output_hints):
                raise ValueError(f'must {match_build_str}')
            for i, (name, param) in enumerate(validate_parameters.items()):
                with wrap_exc(ValueError, prefix=f' {name} param'):
                    if param.default is not param.empty:
                        raise ValueError('must not have a default.')
                    if param.kind not in (param.POSITIONAL_ONLY, param.POSITIONAL_OR_KEYWORD):
                        raise ValueError('must be usable as a positional argument.')
                    if not param_matches(param, (expected := build_output_hints[i])):
                        raise ValueError(f'type hint must match the {ordinal(i + 1)} `.build` return (`{expected}`)')

    @classmethod
    def _validate_map_param(cls, name: str, param: Parameter) -> str:
        if param.annotation != StoragePartitions:
            raise ValueError('type hint must be `StoragePartitions`')
        return name

    @classmethod
    def _validate_map_sig(cls) -> tuple[Signature, MapInputs]:
        if not hasattr(cls, 'map'):
            if any((is_partitioned(view.type) for view in cls._outputs_)):
                raise ValueError('must be implemented when the `build` outputs are partitioned')

            def map(**kwargs: StoragePartitionSnapshots) -> PartitionDependencies:
                return PartitionDependencies({NotPartitioned: frozendict(kwargs)})
            map.__signature__ = Signature([Parameter(name=name, annotation=StoragePartitions, kind=Parameter.KEYWORD_ONLY) for name, artifact in cls._input_artifact_classes_.items() if name in cls._build_inputs_], return_annotation=PartitionDependencies)
            cls.map = cast(MapSig, staticmethod(map))
        if not isinstance(getattr_static(cls, 'map'), classmethod | staticmethod):
            raise ValueError('must be a @classmethod or @staticmethod')
        map_sig = signature(cls.map)
        map_inputs = MapInputs(cls._validate_parameters(map_sig, validator=cls._validate_map_param))
        return (map_sig, map_inputs)

    @classmethod
    def _validate_no_unused_fields(cls) -> None:
        if (unused_fields := (set(cls._input_artifact_classes_) - (set(cls._build_sig_.parameters) | set(cls._map_sig_.parameters)))):
            raise ValueError(f"the following fields aren't used in `.build` or `.map`: {unused_fields}")

    @field_validator('*')
    @classmethod
    def _validate_instance_artifact_args(cls, value: Artifact, info: ValidationInfo) -> Artifact:
        assert info.field_name is not None
        if (view := cls._build_inputs_.get(info.field_name)) is not None:
            view.check_artifact_compatibility(value)
        return value

    def __iter__(self) -> Iterator[Artifact]:
        ret = self.out()
        if not isinstance(ret, tuple):
            ret = (ret,)
        return iter(ret)

    def compute_input_fingerprint(self, dependency_partitions: FrozenMapping[str, StoragePartitionSnapshots]) -> Fingerprint:
        input_names = set(dependency_partitions)
        expected_names = set(self._build_inputs_)
        if input_names != expected_names:
            raise ValueError(f'Mismatched dependency inputs; expected {expected_names}, got {input_names}')
        return Fingerprint.from_string(self._arti_type_key_).combine(self.version.fingerprint, *(snapshot.content_fingerprint for name, partition_snapshots in dependency_partitions.items() for snapshot in partition_snapshots))

    def compute_dependencies(self, input_partitions: InputPartitions) -> tuple[PartitionDependencies, InputFingerprints]:
        partition_dependencies = self.map(**{name: partitions for name, partitions in input_partitions.items() if name in self._map_inputs_})
        partition_input_fingerprints = InputFingerprints({partition_key: self.compute_input_fingerprint(dependency_partitions) for partition_key, dependency_partitions in partition_dependencies.items()})
        return (partition_dependencies, partition_input_fingerprints)

    @property
    def inputs(self) -> dict[str, Artifact]:
        return {k: getattr(self, k) for k in self._input_artifact_classes_}

    @overload
    def out(self) -> Artifact | tuple[Artifact, ...]:
        ...

    @overload
    def out(self, a1: Artifact, /) -> Artifact:
        ...

    @overload
    def out(self, a1: Artifact, a2: Artifact, /, *rest: Artifact) -> tuple[Artifact, ...]:
        ...

    def out(self, *outputs: Artifact) -> Artifact | tuple[Artifact, ...]:
        if not outputs:
            outputs = tuple((view.artifact_class(type=view.type) for view in self._outputs_))
        passed_n, expected_n = (len(outputs), len(self._build_sig_.return_annotation))
        if passed_n != expected_n:
            ret_str = ', '.join([str(v) for v in self._build_sig_.return_annotation])
            raise ValueError(f'{self._arti_type_key_}.out() - expected {expected_n} arguments of ({ret_str}), but got: {outputs}')

        def validate(artifact: Artifact, *, ord: int) -> Artifact:
            view = self._outputs_[ord]
            with wrap_exc(ValueError, prefix=f'{self._arti_type_key_}.out() {ordinal(ord + 1)} argument'):
                view.check_artifact_compatibility(artifact)
                if artifact.producer_output is not None:
                    raise ValueError(f'{artifact} is produced by {artifact.producer_output.producer}!')
            return artifact.model_copy(update={'producer_output': ProducerOutput(producer=self, position=ord)})
        outputs = tuple((validate(artifact, ord=i) for i, artifact in enumerate(outputs)))
        if len(outputs) == 1:
            return outputs[0]
        return outputs

def producer(*, annotations: tuple[Annotation, ...] | None=None, map: MapSig | None=None, name: str | None=None, validate_outputs: ValidateSig | None=None, version: Version | None=None) -> Callable[[BuildSig], type[Producer]]:

    def decorate(build: BuildSig) -> type[Producer]:
        producer_name = build.__name__ if name is None else name
        __annotations__: dict[str, Any] = {}
        for param in signature(build).parameters.values():
            with wrap_exc(ValueError, prefix=f'{producer_name} {param.name} param'):
                view = View.from_annotation(param.annotation, mode='READ')
                __annotations__[param.name] = view.artifact_class
        if annotations:
            __annotations__['annotations'] = tuple[Annotation, ...]
        if version:
            __annotations__['version'] = Version
        return type(producer_name, (Producer,), {k: v for k, v in {'__annotations__': __annotations__, '__module__': get_module_name(depth=2), 'annotations': annotations, 'build': staticmethod(build), 'map': None if map is None else staticmethod(map), 'validate_outputs': None if validate_outputs is None else staticmethod(validate_outputs), 'version': version}.items() if v is not None})
    return decorate

class ProducerOutput(Model):
    producer: Producer
    position: int
Artifact.model_rebuild()
