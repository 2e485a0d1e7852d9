from __future__ import annotations
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
import abc
import logging
from arti.backends import BackendConnection
from arti.fingerprints import Fingerprint
from arti.graphs import GraphSnapshot
from arti.internal.models import Model
from arti.internal.type_hints import assert_not_none
from arti.partitions import InputFingerprints, PartitionKey
from arti.producers import InputPartitions, Producer

class Executor(Model):

    @abc.abstractmethod
    def build(self, snapshot: GraphSnapshot) -> None:
        raise NotImplementedError()

    def get_producer_inputs(self, snapshot: GraphSnapshot, connection: BackendConnection, producer: Producer) -> InputPartitions:
        return InputPartitions({name: connection.read_snapshot_partitions(snapshot, snapshot.graph.artifact_to_key[artifact], artifact) for name, artifact in producer.inputs.items()})

    def discover_producer_partitions(self, snapshot: GraphSnapshot, connection: BackendConnection, producer: Producer, *, partition_input_fingerprints: InputFingerprints) -> set[PartitionKey]:
        output_partition_snapshots = {output: connection.read_artifact_partitions(output, partition_input_fingerprints) for output in snapshot.graph.producer_outputs[producer]}
        existing_partition_keys = set.intersection(*({partition_snapshot.partition_key for partition_snapshot in partition_snapshots} for partition_snapshots in output_partition_snapshots.values()))
        for artifact, partition_snapshots in output_partition_snapshots.items():
            connection.write_snapshot_partitions(snapshot, snapshot.graph.artifact_to_key[artifact], artifact, tuple((partition_snapshot for partition_snapshot in partition_snapshots if partition_snapshot.partition_key in existing_partition_keys)))
        return existing_partition_keys

    def build_producer_partition(self, snapshot: GraphSnapshot, connection: BackendConnection, producer: Producer, *, existing_partition_keys: set[PartitionKey], input_fingerprint: Fingerprint, input_partitions: InputPartitions, partition_key: PartitionKey) -> None:
        if partition_key in existing_partition_keys:
            pk_str = f' for: {dict(partition_key)}' if partition_key else '.'
            logging.info(f'Skipping existing {type(producer).__name__} output{pk_str}')
            return
        logging.info(f'Building {type(producer)} output for {partition_key} and inputs {input_fingerprint}...')
        arguments = {name: snapshot.read(artifact=producer.inputs[name], storage_partition_snapshots=input_partitions[name], view=view) for name, view in producer._build_inputs_.items()}
        outputs = producer.build(**arguments)
        if len(producer._outputs_) == 1:
            outputs = (outputs,)
        validation_passed, validation_message = producer.validate_outputs(*outputs)
        if not validation_passed:
            raise ValueError(validation_message)
        for artifact in snapshot.graph.producer_outputs[producer]:
            position = assert_not_none(artifact.producer_output).position
            snapshot.write(outputs[position], artifact=artifact, input_fingerprint=input_fingerprint, partition_key=partition_key, view=producer._outputs_[position])
