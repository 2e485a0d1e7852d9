from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
from abc import abstractmethod
from collections.abc import Iterator
from contextlib import contextmanager
from typing import TYPE_CHECKING, Self
from arti.artifacts import Artifact
from arti.fingerprints import Fingerprint
from arti.internal.models import Model
from arti.partitions import InputFingerprints
from arti.storage import StoragePartitionSnapshots
if TYPE_CHECKING:
    from arti.graphs import Graph, GraphSnapshot

class BackendConnection:

    @abstractmethod
    def read_artifact_partitions(self, artifact: Artifact, input_fingerprints: InputFingerprints=InputFingerprints()) -> StoragePartitionSnapshots:
        raise NotImplementedError()

    @abstractmethod
    def write_artifact_partitions(self, artifact: Artifact, partitions: StoragePartitionSnapshots) -> None:
        raise NotImplementedError()

    @abstractmethod
    def read_graph(self, name: str, fingerprint: Fingerprint) -> Graph:
        raise NotImplementedError()

    @abstractmethod
    def write_graph(self, graph: Graph) -> None:
        raise NotImplementedError()

    @abstractmethod
    def read_snapshot(self, name: str, fingerprint: Fingerprint) -> GraphSnapshot:
        raise NotImplementedError()

    @abstractmethod
    def write_snapshot(self, snapshot: GraphSnapshot) -> None:
        raise NotImplementedError()

    @abstractmethod
    def read_snapshot_tag(self, name: str, tag: str) -> GraphSnapshot:
        raise NotImplementedError()

    @abstractmethod
    def write_snapshot_tag(self, snapshot: GraphSnapshot, tag: str, overwrite: bool=False) -> None:
        raise NotImplementedError()

    @abstractmethod
    def read_snapshot_partitions(self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact) -> StoragePartitionSnapshots:
        raise NotImplementedError()

    @abstractmethod
    def write_snapshot_partitions(self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact, partitions: StoragePartitionSnapshots) -> None:
        raise NotImplementedError()

    def write_artifact_and_graph_partitions(self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact, partitions: StoragePartitionSnapshots) -> None:
        self.write_artifact_partitions(artifact, partitions)
        self.write_snapshot_partitions(snapshot, artifact_key, artifact, partitions)

    @contextmanager
    def connect(self) -> Iterator[Self]:
        yield self

class Backend[Connection: BackendConnection](Model):

    @contextmanager
    @abstractmethod
    def connect(self) -> Iterator[Connection]:
        raise NotImplementedError()
