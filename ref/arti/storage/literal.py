from __future__ import annotations
from arti import Fingerprint, InputFingerprints, PartitionKey, Storage, StoragePartition, StoragePartitionSnapshots
from arti.internal.mappings import frozendict
_not_written_err = FileNotFoundError('Literal has not been written yet')

class StringLiteralPartition(StoragePartition):
    id: str
    value: str | None = None

    def compute_content_fingerprint(self) -> Fingerprint:
        if self.value is None:
            raise _not_written_err
        return Fingerprint.from_string(self.value)

class StringLiteral(Storage[StringLiteralPartition]):
    id: str = '{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}'
    value: str | None = None

    @property
    def _format_fields(self) -> frozendict[str, str]:
        return frozendict({name: field for name, field in super()._format_fields.items() if name != 'value'})

    def discover_partitions(self, input_fingerprints: InputFingerprints=InputFingerprints()) -> StoragePartitionSnapshots:
        if input_fingerprints and self.value is not None:
            raise ValueError(f'Literal storage cannot have a `value` preset ({self.value}) for a Producer output')
        if self.key_types and (not input_fingerprints):
            raise ValueError('Literal storage can only be partitioned if generated by a Producer.')
        if self.value is None:
            return ()
        return tuple((self.generate_partition(input_fingerprint=input_fingerprint, partition_key=partition_key).snapshot() for partition_key, input_fingerprint in (input_fingerprints or {PartitionKey(): None}).items()))
