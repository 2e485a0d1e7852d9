from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
from collections import defaultdict
from collections.abc import Callable
from functools import cached_property, wraps
from graphlib import TopologicalSorter
from operator import itemgetter
from types import TracebackType
from typing import TYPE_CHECKING, Annotated, Any, Literal, TypeVar
from pydantic import Field, PrivateAttr, field_validator
import arti
from arti import io
from arti.artifacts import Artifact
from arti.backends import Backend, BackendConnection
from arti.fingerprints import Fingerprint, SkipFingerprint
from arti.internal.mappings import FrozenMapping, TypedBox, frozendict
from arti.internal.models import Model
from arti.partitions import PartitionKey
from arti.producers import Producer
from arti.storage import StoragePartitionSnapshot, StoragePartitionSnapshots
from arti.types import is_partitioned
from arti.views import View
if TYPE_CHECKING:
    from arti.backends.memory import MemoryBackend
    from arti.executors import Executor

def _get_memory_backend() -> MemoryBackend:
    from arti.backends.memory import MemoryBackend
    return MemoryBackend()
type STATUS = Literal['open', 'closed']
OPEN: Literal['open'] = 'open'
CLOSED: Literal['closed'] = 'closed'
_Return = TypeVar('_Return')

def requires_sealed(fn: Callable[..., _Return]) -> Callable[..., _Return]:

    @wraps(fn)
    def check_if_sealed(self: Graph, *args: Any, **kwargs: Any) -> _Return:
        if self._status is not CLOSED:
            raise ValueError(f'{fn.__name__} cannot be used while the Graph is still being defined')
        return fn(self, *args, **kwargs)
    return check_if_sealed

class ArtifactBox(TypedBox[Artifact]):

    def _cast_value(self, key: str, value: Any) -> Artifact:
        artifact = super()._cast_value(key, value)
        storage = artifact.storage
        if (graph := arti.context.graph) is not None:
            storage = storage._visit_graph(graph)._visit_names((*self._namespace, key))
        if artifact.producer_output is None:
            storage = storage._visit_input_fingerprint(None)
        elif not storage.includes_input_fingerprint_template:
            raise ValueError("Produced Artifacts must have a '{input_fingerprint}' template in their Storage")
        return artifact.model_copy(update={'storage': storage})

    def __getattr__(self, key: str) -> Any:
        return super().__getattr__(key)
Node = Artifact | Producer
NodeDependencies = frozendict[Node, frozenset[Node]]

class Graph(Model):
    name: str
    artifacts: ArtifactBox = Field(default_factory=ArtifactBox)
    backend: Annotated[Backend, SkipFingerprint()] = Field(default_factory=_get_memory_backend, exclude=True)
    path_tags: FrozenMapping[str, str] = frozendict()
    _status: STATUS | None = PrivateAttr(default=None)
    _artifact_to_key: FrozenMapping[Artifact, str] = frozendict()

    @field_validator('artifacts')
    @classmethod
    def _convert_artifacts(cls, artifacts: ArtifactBox) -> ArtifactBox:
        artifacts._status.root = CLOSED
        return artifacts

    def __enter__(self) -> Graph:
        if arti.context.graph is not None:
            raise ValueError(f'Another graph is being defined: {arti.context.graph}')
        arti.context.graph = self
        self._toggle(OPEN)
        return self

    def __exit__(self, exc_type: type[BaseException] | None, exc_value: BaseException | None, exc_traceback: TracebackType | None) -> None:
        arti.context.graph = None
        self._toggle(CLOSED)
        TopologicalSorter(self.dependencies).prepare()

    def _toggle(self, status: Literal['open', 'closed']) -> None:
        self.artifacts._status.root = status
        self._status = status
        for name in ('dependencies', 'fingerprint', 'producer_outputs', 'producers'):
            self.__dict__.pop(name, None)
        self._artifact_to_key = frozendict({artifact: key for key, artifact in self.artifacts.walk()})

    @property
    def artifact_to_key(self) -> frozendict[Artifact, str]:
        return self._artifact_to_key

    @requires_sealed
    def build(self, executor: Executor | None=None) -> GraphSnapshot:
        return self.snapshot().build(executor)

    @requires_sealed
    def snapshot(self, *, connection: BackendConnection | None=None) -> GraphSnapshot:
        return GraphSnapshot.from_graph(self, connection=connection)

    @cached_property
    @requires_sealed
    def dependencies(self) -> NodeDependencies:
        artifact_deps = {artifact: frozenset({artifact.producer_output.producer}) if artifact.producer_output is not None else frozenset() for _, artifact in self.artifacts.walk()}
        producer_deps = {producer_output.producer: frozenset(producer_output.producer.inputs.values()) for artifact in artifact_deps if (producer_output := artifact.producer_output) is not None}
        return NodeDependencies(artifact_deps | producer_deps)

    @cached_property
    @requires_sealed
    def producers(self) -> frozenset[Producer]:
        return frozenset(self.producer_outputs)

    @cached_property
    @requires_sealed
    def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
        d = defaultdict[Producer, list[tuple[int, Artifact]]](list)
        for _, artifact in self.artifacts.walk():
            if artifact.producer_output is None:
                continue
            output = artifact.producer_output
            if (output.position, artifact) not in d[output.producer]:
                d[output.producer].append((output.position, artifact))
        return frozendict(((producer, tuple((artifact for _, artifact in sorted(outputs, key=itemgetter(0))))) for producer, outputs in d.items()))

    @requires_sealed
    def read(self, artifact: Artifact, *, annotation: Any | None=None, connection: BackendConnection | None=None, snapshot: GraphSnapshot | None=None, storage_partition_snapshots: StoragePartitionSnapshots | None=None, view: View | None=None) -> Any:
        key = self.artifact_to_key[artifact]
        if annotation is None and view is None:
            raise ValueError('Either `annotation` or `view` must be passed')
        if annotation is not None and view is not None:
            raise ValueError('Only one of `annotation` or `view` may be passed')
        if annotation is not None:
            view = View.get_class_for(annotation)(artifact_class=type(artifact), type=artifact.type, mode='READ')
            view.check_annotation_compatibility(annotation)
            view.check_artifact_compatibility(artifact)
        assert view is not None
        if storage_partition_snapshots is None:
            if snapshot is None and artifact.producer_output is None:
                storage_partition_snapshots = artifact.storage.discover_partitions()
            else:
                snapshot = snapshot or self.snapshot()
                with (connection or self.backend).connect() as conn:
                    storage_partition_snapshots = conn.read_snapshot_partitions(snapshot, key, artifact)
        return io.read(type_=artifact.type, format=artifact.format, storage_partition_snapshots=storage_partition_snapshots, view=view)

    @requires_sealed
    def write(self, data: Any, *, artifact: Artifact, input_fingerprint: Fingerprint | None=None, partition_key: PartitionKey=PartitionKey(), view: View | None=None, snapshot: GraphSnapshot | None=None, connection: BackendConnection | None=None) -> StoragePartitionSnapshot:
        key = self.artifact_to_key[artifact]
        if snapshot is not None and artifact.producer_output is None:
            raise ValueError(f'Writing to a raw Artifact (`{key}`) with a GraphSnapshot is not supported.')
        if view is None:
            view = View.get_class_for(type(data))(artifact_class=type(artifact), type=artifact.type, mode='WRITE')
        view.check_annotation_compatibility(type(data))
        view.check_artifact_compatibility(artifact)
        storage_partition_snapshot = io.write(data, type_=artifact.type, format=artifact.format, storage_partition=artifact.storage.generate_partition(input_fingerprint=input_fingerprint, partition_key=partition_key), view=view)
        with (connection or self.backend).connect() as conn:
            conn.write_artifact_partitions(artifact, (storage_partition_snapshot,))
            if snapshot is not None and artifact.producer_output is not None:
                conn.write_snapshot_partitions(snapshot, key, artifact, (storage_partition_snapshot,))
        return storage_partition_snapshot

class GraphSnapshot(Model):
    id: Fingerprint
    graph: Graph

    @property
    def artifacts(self) -> ArtifactBox:
        return self.graph.artifacts

    @property
    def backend(self) -> Backend:
        return self.graph.backend

    @property
    def name(self) -> str:
        return self.graph.name

    @classmethod
    def from_graph(cls, graph: Graph, *, connection: BackendConnection | None=None) -> GraphSnapshot:
        snapshot_id = graph.fingerprint
        known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
        for node, _ in graph.dependencies.items():
            snapshot_id = snapshot_id.combine(node.fingerprint)
            if isinstance(node, Artifact):
                key = graph.artifact_to_key[node]
                snapshot_id = snapshot_id.combine(Fingerprint.from_string(key))
                if node.producer_output is None:
                    known_artifact_partitions[key] = node.storage.discover_partitions()
                    if not known_artifact_partitions[key]:
                        content_str = 'partitions' if is_partitioned(node.type) else 'data'
                        raise ValueError(f'No {content_str} found for `{key}`: {node}')
                    snapshot_id = snapshot_id.combine(*[partition.fingerprint for partition in known_artifact_partitions[key]])
        snapshot = cls(graph=graph, id=snapshot_id)
        with (connection or snapshot.backend).connect() as conn:
            conn.write_graph(graph)
            conn.write_snapshot(snapshot)
            for key, partitions in known_artifact_partitions.items():
                conn.write_artifact_and_graph_partitions(snapshot, key, snapshot.artifacts[key], partitions)
        return snapshot

    def build(self, executor: Executor | None=None) -> GraphSnapshot:
        if executor is None:
            from arti.executors.local import LocalExecutor
            executor = LocalExecutor()
        executor.build(self)
        return self

    def tag(self, tag: str, *, overwrite: bool=False, connection: BackendConnection | None=None) -> None:
        with (connection or self.backend).connect() as conn:
            conn.write_snapshot_tag(self, tag, overwrite)

    @classmethod
    def from_tag(cls, name: str, tag: str, *, connectable: Backend | BackendConnection) -> GraphSnapshot:
        with connectable.connect() as conn:
            return conn.read_snapshot_tag(name, tag)

    def read(self, artifact: Artifact, *, annotation: Any | None=None, connection: BackendConnection | None=None, storage_partition_snapshots: StoragePartitionSnapshots | None=None, view: View | None=None) -> Any:
        return self.graph.read(artifact, annotation=annotation, storage_partition_snapshots=storage_partition_snapshots, view=view, snapshot=self, connection=connection)

    def write(self, data: Any, *, artifact: Artifact, connection: BackendConnection | None=None, input_fingerprint: Fingerprint | None=None, partition_key: PartitionKey=PartitionKey(), view: View | None=None) -> StoragePartitionSnapshot:
        return self.graph.write(data, artifact=artifact, input_fingerprint=input_fingerprint, partition_key=partition_key, view=view, snapshot=self, connection=connection)
