from __future__ import annotations
import glob
import string
from collections import defaultdict
from collections.abc import Callable, Iterable, Iterator, Mapping
from functools import partial
from typing import Any
import parse
from arti.fingerprints import Fingerprint
from arti.partitions import InputFingerprints, PartitionField, PartitionKey, PartitionKeyTypes

class Placeholder:

    def __init__(self, key: str) -> None:
        self._key = key

class FormatPlaceholder(Placeholder):

    def __format__(self, spec: str) -> str:
        result = self._key
        if spec:
            result += ':' + spec
        return '{' + result + '}'

    def __getitem__(self, key: Any) -> FormatPlaceholder:
        self._key = f'{self._key}[{key}]'
        return self

    def __getattr__(self, attr: str) -> FormatPlaceholder:
        self._key = f'{self._key}.{attr}'
        return self

class StripIndexPlaceholder(FormatPlaceholder):

    def __getitem__(self, key: Any) -> StripIndexPlaceholder:
        return self

class WildcardPlaceholder(Placeholder):

    def __init__(self, key: str, key_types: PartitionKeyTypes):
        super().__init__(key)
        if key not in key_types:
            raise ValueError(f"No '{key}' partition key found, expected one of {tuple(key_types)}")
        self._key_type = key_types[key]
        self._attribute: str | None = None

    @classmethod
    def with_key_types(cls, key_types: Mapping[str, type[PartitionField]]) -> Callable[[str], WildcardPlaceholder]:
        return partial(cls, key_types=key_types)

    def _err_if_no_attribute(self) -> None:
        if self._attribute is None:
            example = sorted(self._key_type.components)[0]
            raise ValueError(f"'{self._key}' cannot be used directly in a partition path; access one of the key components (eg: '{self._key}.{example}').")

    def __getattr__(self, name: str) -> WildcardPlaceholder:
        if self._attribute is not None:
            raise ValueError(f"'{self._key}.{self._attribute}.{name}' cannot be used in a partition path; only immediate '{self._key}' attributes (such as '{self._attribute}') can be used.")
        if name not in self._key_type.components:
            raise AttributeError(f"'{self._key_type.__name__}' has no field or key component '{name}'")
        self._attribute = name
        return self

    def __getitem__(self, key: Any) -> Any:
        self._err_if_no_attribute()
        return key

    def __str__(self) -> str:
        self._err_if_no_attribute()
        return '*'

class FormatDict(dict[str, Any]):

    def __init__(self, placeholder_type: Callable[[str], Placeholder], /, *args: Iterable[tuple[str, Any]], **kwargs: Any) -> None:
        super().__init__(*args, **kwargs)
        self.placeholder_type = placeholder_type

    def __missing__(self, key: str) -> Placeholder:
        return self.placeholder_type(key)

def partial_format(spec: str, **kwargs: Any) -> str:
    return string.Formatter().vformat(spec, (), FormatDict(FormatPlaceholder, **kwargs))

def strip_partition_indexes(spec: str) -> str:
    return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))

class _GlobFormatter(string.Formatter):

    def parse(self, format_string: str) -> Iterator[tuple[str, str | None, str | None, str | None]]:
        for literal, field_name, format_spec, conversion in super().parse(format_string):
            yield (glob.escape(literal), field_name, format_spec, conversion)

def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
    return _GlobFormatter().vformat(spec, (), FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint='*'))

def extract_placeholders(*, error_on_no_match: bool=True, key_types: Mapping[str, type[PartitionField]], parser: parse.Parser, path: str, spec: str) -> tuple[Fingerprint | None, PartitionKey] | None:
    parsed_value = parser.parse(path)
    if parsed_value is None:
        if error_on_no_match:
            raise ValueError(f"Unable to parse '{path}' with '{spec}'.")
        return None
    input_fingerprint: Fingerprint | None = None
    field_components = defaultdict[str, dict[str, str]](dict)
    for k, v in parsed_value.named.items():
        if k == 'input_fingerprint':
            assert isinstance(v, str)
            input_fingerprint = Fingerprint.from_int(int(v))
            continue
        key, component = k.split('.')
        if isinstance(v, dict):
            v = next(iter(v))
        field_components[key][component] = v
    partition_key = PartitionKey({field_name: key_types[field_name].from_components(**components) for field_name, components in field_components.items()})
    if set(partition_key) != set(key_types):
        raise ValueError(f"Expected to find partition fields for {sorted(key_types)}, only found {sorted(partition_key)}. Is the partitioning spec ('{spec}') complete?")
    return (input_fingerprint, partition_key)

def parse_spec(paths: set[str], *, input_fingerprints: InputFingerprints=InputFingerprints(), key_types: Mapping[str, type[PartitionField]], spec: str) -> Mapping[str, tuple[Fingerprint | None, PartitionKey]]:
    parser = parse.compile(spec, case_sensitive=True)
    path_placeholders = ((path, placeholders) for path in paths if (placeholders := extract_placeholders(parser=parser, path=path, spec=spec, key_types=key_types)) is not None)
    return {path: (input_fingerprint, partition_key) for path, (input_fingerprint, partition_key) in path_placeholders if input_fingerprints.get(partition_key, None) == input_fingerprint}
