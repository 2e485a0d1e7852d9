from __future__ import annotations
from typing import Any, cast
import numpy as np
import pandas as pd
from arti.types import List, String, Struct, Type, TypeAdapter, TypeSystem
from arti.types.numpy import numpy_type_system
pandas_type_system = TypeSystem(key='pandas', extends=(numpy_type_system,))

@pandas_type_system.register_adapter
class SeriesAdapter(TypeAdapter):
    artigraph = List
    system = pd.Series

    @classmethod
    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
        return isinstance(type_, cls.artigraph) and (not isinstance(type_.element, Struct))

    @classmethod
    def to_artigraph(cls, type_: Any, *, hints: dict[str, Any], type_system: TypeSystem) -> Type:
        dtype = type_.dtype
        if dtype == np.dtype('O'):
            example_value = type_.iloc[0]
            if isinstance(example_value, str):
                return List(element=String())
            raise NotImplementedError(f'Non-string {dtype} is not supported yet, got values of: {example_value}')
        return List(element=type_system.to_artigraph(dtype, hints=hints))

    @classmethod
    def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
        return isinstance(type_, cls.system)

    @classmethod
    def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
        assert isinstance(type_, cls.artigraph)
        dtype = type_system.to_system(type_.element, hints=hints)
        return pd.Series([dtype()], dtype=dtype)

@pandas_type_system.register_adapter
class DataFrameAdapter(TypeAdapter):
    artigraph = List
    system = pd.DataFrame

    @classmethod
    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
        return isinstance(type_, cls.artigraph) and isinstance(type_.element, Struct)

    @classmethod
    def to_artigraph(cls, type_: Any, *, hints: dict[str, Any], type_system: TypeSystem) -> Type:
        assert isinstance(type_, cls.system)
        return List(element=Struct(fields={name: cast(List, type_system.to_artigraph(type_[name], hints=hints)).element for name in type_.columns}))

    @classmethod
    def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
        return isinstance(type_, cls.system)

    @classmethod
    def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
        assert isinstance(type_, cls.artigraph)
        assert isinstance(type_.element, Struct)
        return pd.DataFrame({name: type_system.to_system(List(element=subtype), hints=hints) for name, subtype in type_.element.fields.items()})
