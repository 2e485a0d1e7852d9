from __future__ import annotations
import logging
from graphlib import TopologicalSorter
from arti.artifacts import Artifact
from arti.executors import Executor
from arti.graphs import GraphSnapshot
from arti.internal.type_hints import assert_not_none
from arti.producers import Producer

class LocalExecutor(Executor):

    def build(self, snapshot: GraphSnapshot) -> None:
        with snapshot.backend.connect() as backend:
            for node in TopologicalSorter(snapshot.graph.dependencies).static_order():
                if isinstance(node, Artifact):
                    pass
                elif isinstance(node, Producer):
                    logging.info(f'Building {node}...')
                    input_partitions = self.get_producer_inputs(snapshot, backend, node)
                    partition_dependencies, partition_input_fingerprints = node.compute_dependencies(input_partitions)
                    existing_keys = self.discover_producer_partitions(snapshot, backend, node, partition_input_fingerprints=partition_input_fingerprints)
                    for partition_key, dependencies in partition_dependencies.items():
                        self.build_producer_partition(snapshot, backend, node, existing_partition_keys=existing_keys, input_fingerprint=assert_not_none(partition_input_fingerprints[partition_key]), input_partitions=dependencies, partition_key=partition_key)
                else:
                    raise NotImplementedError()
        logging.info('Build finished.')
