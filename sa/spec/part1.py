"""Identity, fingerprints, snapshots and building."""

MODEL_SERIALISATION = [
    ("arti.internal.models.Model", ["fingerprint", "_arti_serialize_model", "model_dump",
                                    "model_dump_json", "_arti_type_", "__pydantic_init_subclass__",
                                    "model_post_init", "model_copy"],
     "the fingerprint hashes the sorted json of the type key and every field that is not excluded"),
    ("arti.internal.models", ["_set_dump_kwargs_defaults", "_sort_sets"], "dumps use the declared "
     "serialisers, leave fields out only where asked to, and sort sets"),
    ("arti.internal.mappings.frozendict", ["_get_functional_schema", "__get_pydantic_core_schema__",
                                           "__iter__", "__getitem__"],
     "mappings are serialised with all their entries"),
    ("arti.internal.mappings.TypedBox", ["__get_pydantic_core_schema__", "__iter__", "__getitem__"],
     "nested artifact containers are serialised with all their entries"),
    ("arti.types.Enum", ["_serialize_items"], "unordered enum items are serialised in a fixed order"),
]

PROPS = [
    dict(
        id="C01", title="A fingerprint covers the kind and every identifying field of an object",
        statement="For every pair of model objects (artifacts, types, formats, storages, views, "
                  "producers, graphs, versions, partitions), a difference in the name of the concrete "
                  "class or in any field that is not explicitly opted out, at any nesting depth, "
                  "changes the text their fingerprints are computed from. Opted-out fields are "
                  "exactly the output link of an artifact, the annotations of a producer, the "
                  "description of a type, the backend of a graph, and the minor and patch parts of a "
                  "semantic version from major version 1 on; nothing else is left out.",
        quant=(["inputs", "programs"], "all model classes and all values of their fields, however nested"),
        why="Tests compare a few fingerprints of hand-made objects; a field silently left out of the "
            "serialised form only shows for the pairs of objects differing in just that field.",
        files=["src/arti/internal/models.py", "src/arti/fingerprints/__init__.py",
               "src/arti/internal/mappings.py", "src/arti/graphs/__init__.py"],
        mech=[("fingerprint from serialised model", "src/arti/internal/models.py Model.fingerprint"),
              ("type key added to the serialised form",
               "src/arti/internal/models.py Model._arti_serialize_model"),
              ("excluded fields", "Field(exclude=True) declarations")],
        obl=[*MODEL_SERIALISATION,
             ("arti.fingerprints.Fingerprint", ["from_string", "__get_pydantic_core_schema__"],
              "the whole text is hashed"),
             ("arti.internal.utils.ClassName", ["__get__"], "the type key names the concrete class")],
        classes="models",
        modules=["arti.internal.models", "arti.internal.mappings"],
        rules=["exclusions"],
        note="Field exclusion and serialisers of every model class, and the functions producing the "
             "serialised text, agree with the reviewed model. Collisions of the hash are out of scope."),
    dict(
        id="C02", title="Fingerprints are reproducible across processes and constructions",
        statement="Objects built from the same field values have equal fingerprints in every process, for "
                  "every hash seed and for every order in which unordered fields were given. A fingerprint never depends on "
                  "object identity, on the time or environment of its computation or on opted-out "
                  "fields.",
        quant=(["inputs", "histories", "configurations"],
               "all objects, all constructions of equal objects, all interpreter hash seeds"),
        why="A test run has one hash seed and one construction order; order or seed dependence only "
            "shows between runs.",
        files=["src/arti/internal/models.py", "src/arti/fingerprints/__init__.py",
               "src/arti/types/__init__.py"],
        mech=[("sorted json", "src/arti/internal/models.py Model.fingerprint"),
              ("ordered serialisation of unordered items",
               "src/arti/types/__init__.py Enum._serialize_items")],
        obl=[*MODEL_SERIALISATION,
             ("arti.fingerprints.Fingerprint", ["from_string", "from_int", "from_int64", "from_uint64",
                                                "combine", "identity", "is_identity",
                                                "__get_pydantic_core_schema__"],
              "hashing depends on the text alone"),
             ("arti.types.Enum", ["_cast_values", "_validate_values", "_default_friendly_key"],
              "unordered items are made ordered wherever text is built from them"),
             ("arti.producers.Producer", ["compute_input_fingerprint"],
              "combination is order independent"),
             ("arti.graphs.GraphSnapshot", ["from_graph"], "the id is combined order independently"),
             ("arti.versions._SourceDescriptor", ["__get__"], "source versions depend on source text")],
        classes="models", modules=["arti.internal.models"], rules=["exclusions"],
        note="Functions reaching a fingerprint call nothing of identity, time, randomness or unordered "
             "iteration outside of order independent combination."),
    dict(
        id="C03", title="Model objects and keys are immutable and are never silently shared-mutated",
        statement="No field of a constructed model object can be rebound, unknown fields are rejected, and "
                  "its mapping and sequence fields cannot be changed in place. Copying a model or casting "
                  "it never modifies the original, and objects declared uncopyable stay the same object "
                  "under copying.",
        quant=(["inputs", "histories"], "all model classes and all sequences of operations on them"),
        why="Tests try a few assignments; mutability of one nested field of one class is invisible to them.",
        files=["src/arti/internal/models.py", "src/arti/internal/mappings.py",
               "src/arti/internal/utils.py"],
        mech=[("frozen configuration", "src/arti/internal/models.py Model.model_config"),
              ("frozen mappings", "src/arti/internal/mappings.py frozendict")],
        obl=[("arti.internal.models.Model", ["__new__", "model_post_init", "__pydantic_init_subclass__"],
              "abstract classes are not instantiated and no field is exposed"),
             ("arti.internal.mappings.frozendict", ["__init__", "__getitem__", "__hash__", "__iter__",
                                                    "__len__", "__or__", "__ror__",
                                                    "_get_functional_schema",
                                                    "__get_pydantic_core_schema__"],
              "mappings copy their input, expose no mutator and hash by content"),
             ("arti.internal.utils.NoCopyMixin", ["__copy__", "__deepcopy__"], "copies are the object"),
             ("arti.artifacts.Artifact", ["cast", "_merge_class_defaults"],
              "casting and merging build new values"),
             ("arti.producers.Producer", ["out"], "linking outputs copies the artifacts"),
             ("arti.storage.Storage", ["_visit_type", "_visit_format", "_visit_graph",
                                       "_visit_input_fingerprint", "_visit_names", "resolve"],
              "visiting returns copies")],
        classes=["arti.internal.models.Model", "arti.internal.mappings.frozendict",
                 "arti.internal.utils.NoCopyMixin", "arti.fingerprints.Fingerprint",
 "arti.types.Type", "arti.artifacts.Artifact"],
        modules=[], rules=["frozen"],
        note="Frozen configuration along every model class, absence of mutators in the frozen mapping, "
             "and the copying operations equal to the reviewed model."),
    dict(
        id="C04", title="Fingerprint combination is commutative, associative and 64 bit exact",
        statement="Combining fingerprints gives the same value for every order and grouping, the identity "
                  "changes nothing, and combining any number of them stays inside the signed 64 bit range. "
                  "Conversions between signed and unsigned 64 bit integers wrap exactly and reject values "
                  "outside of their range, and arithmetic on them keeps the fixed width kind.",
        quant=(["inputs"], "all sequences of fingerprints and all 64 bit integers"),
        why="The properties quantify over all 64 bit patterns and all sequences; tests use a handful.",
        files=["src/arti/fingerprints/__init__.py", "src/arti/internal/utils.py"],
        mech=[("xor combination", "src/arti/fingerprints/__init__.py Fingerprint.combine"),
              ("fixed width integers", "src/arti/internal/utils.py int64, uint64, _int")],
        obl=[("arti.fingerprints.Fingerprint", "*", "combination is a xor from the receiver; conversions "
              "go through the fixed width integers"),
             ("arti.internal.utils._int", "*", "operators return the receiver's fixed width type"),
             ("arti.internal.utils.int64", "*", "range check and two's complement wrap"),
             ("arti.internal.utils.uint64", "*", "range check and two's complement wrap"),
             ("arti.fingerprints.SkipFingerprint", "*", "marker semantics")],
        classes=["arti.fingerprints.Fingerprint", "arti.fingerprints.SkipFingerprint",
                 "arti.internal.utils._int", "arti.internal.utils.int64", "arti.internal.utils.uint64"],
        modules=["arti.fingerprints"], rules=[],
        note="Every operator and conversion, by its value as a function of its operands."),
    dict(
        id="C05", title="A snapshot id determines the graph and the exact raw inputs it was taken of",
        statement="The id of a snapshot combines the fingerprint of the graph with the key and fingerprint "
                  "of every artifact and, for every raw artifact, the fingerprint of every discovered "
                  "storage partition including its content. Two snapshots of a graph have the same id only "
                  "if all of those agree, whatever order they were visited in; missing raw inputs are an "
                  "error instead of an id.",
        quant=(["inputs", "histories"], "all graphs, all sets of raw partitions, all contents"),
        why="Tests snapshot small graphs and change one file; a component missing from the id only shows "
            "for the change it would have caught.",
        files=["src/arti/graphs/__init__.py", "src/arti/storage/__init__.py"],
        mech=[("snapshot identity", "src/arti/graphs/__init__.py GraphSnapshot.from_graph"),
              ("content fingerprints", "src/arti/storage/__init__.py StoragePartition.snapshot")],
        obl=[("arti.graphs.GraphSnapshot", ["from_graph"], "every node contributes its key, fingerprint "
              "and, when raw, the content of all of its partitions; none is an error"),
             ("arti.graphs.Graph", ["artifact_to_key", "dependencies", "_toggle", "snapshot"],
              "keys, nodes and the fingerprint are those of the sealed graph"),
             ("arti.storage.StoragePartition", ["snapshot"], "records the computed content fingerprint"),
             ("arti.storage.StoragePartitionSnapshot", "*", "exposes the partition it was taken of"),
             ("arti.types", ["is_partitioned"], "distinguishes the error for missing inputs"),
             ("arti.storage.literal.StringLiteral", ["discover_partitions"], "raw partitions are found"),
             ("arti.storage.local.LocalFile", ["discover_partitions"], "raw partitions are found"),
             ("arti.storage.local.LocalFilePartition", ["compute_content_fingerprint"],
              "content is fingerprinted")],
        classes=["arti.graphs.GraphSnapshot", "arti.graphs.Graph", "arti.storage.StoragePartitionSnapshot",
                 "arti.storage.StoragePartition"],
        modules=[], rules=[], fresh=["from_graph", "discover_partitions", "snapshot",
                                     "compute_content_fingerprint"],
        note="The id term of from_graph, per kind of node."),
    dict(
        id="C06", title="Snapshots, their raw partitions and tags are recorded completely",
        statement="Taking a snapshot records its graph, the snapshot and, for every raw artifact, all "
                  "discovered partitions both for the artifact and under the key of the artifact in that "
                  "snapshot, before anyone receives the snapshot. Tags name exactly the snapshot they were "
                  "given, are resolved per graph name, and are only moved when overwriting was requested.",
        quant=(["histories", "inputs"], "all sequences of snapshots, tags and lookups on any backend"),
        why="The recorded set must be complete for every graph; tests read back what small graphs recorded.",
        files=["src/arti/graphs/__init__.py", "src/arti/backends/__init__.py",
               "src/arti/backends/memory.py"],
        mech=[("recording", "src/arti/graphs/__init__.py GraphSnapshot.from_graph"),
              ("tags", "src/arti/backends/memory.py MemoryConnection.write_snapshot_tag")],
        obl=[("arti.graphs.GraphSnapshot", ["from_graph", "tag", "from_tag", "name", "backend",
                                            "artifacts"], "records and resolves via one connection"),
             ("arti.graphs.Graph", ["snapshot"], "delegates to the recording constructor"),
             ("arti.backends.BackendConnection", ["write_artifact_and_graph_partitions", "connect"],
              "links partitions to the artifact and to the snapshot"),
             ("arti.backends.memory.MemoryConnection", ["write_graph", "write_snapshot", "read_snapshot",
                                                        "read_graph", "write_snapshot_tag",
                                                        "read_snapshot_tag",
                                                        "write_snapshot_partitions",
                                                        "read_snapshot_partitions",
                                                        "write_artifact_partitions"],
              "what was written is what is read back"),
             ("arti.backends.Backend", ["connect"], "connections are released")],
        classes=["arti.graphs.GraphSnapshot"], modules=[], rules=[],
        fresh=["from_tag", "read_snapshot", "read_snapshot_tag", "read_graph",
               "read_snapshot_partitions", "snapshot", "from_graph"],
        note="Recorded terms and their guards per artifact."),
    dict(
        id="C07", title="An output's input fingerprint reflects producer, version and every input content",
        statement="The input fingerprint of a produced partition changes with the producer's kind, with its "
                  "version and with the content of any input partition it depends on, and with nothing "
                  "else: not with build order, snapshot, time or partitions it does not depend on. A "
                  "producer whose dependency map does not name exactly its inputs is rejected.",
        quant=(["inputs", "histories"], "all producers, versions and sets of input partitions"),
        why="Tests check the formula on one example; staleness needs the particular input that is left out.",
        files=["src/arti/producers/__init__.py", "src/arti/versions/__init__.py"],
        mech=[("input fingerprint", "src/arti/producers/__init__.py Producer.compute_input_fingerprint"),
              ("dependencies", "src/arti/producers/__init__.py Producer.compute_dependencies")],
        obl=[("arti.producers.Producer", ["compute_input_fingerprint", "compute_dependencies", "inputs"],
              "type key, version and the content of all dependencies are combined"),
             ("arti.producers", ["producer"], "the type key is the name of the function decorated"),
             ("arti.storage.StoragePartition", ["snapshot"], "content fingerprints are recomputed"),
             ("arti.versions._SourceDescriptor", ["__get__"], "the version covers the source"),
             ("arti.versions.SemVer", "*", "version identity"),
             ("arti.executors.Executor", ["get_producer_inputs"], "inputs are those of the snapshot"),
             ("arti.executors.local.LocalExecutor", ["build"], "fingerprints pair with their partition")],
        classes=["arti.producers.Producer", "arti.versions.SemVer", "arti.versions.GitCommit",
                 "arti.versions.String", "arti.versions.Timestamp", "arti.versions.Version"],
        modules=["arti.versions"], rules=["input_fingerprint"],
        fresh=["compute_input_fingerprint", "compute_dependencies", "get_producer_inputs"],
        note="The value of the fingerprint as a term over the dependencies. Equal contents of two inputs "
             "cancel in the combination: listed as a known finding."),
    dict(
        id="C08", title="A build skips exactly the partitions all of whose outputs are up to date",
        statement="A producer partition is skipped only if every one of its outputs is already recorded for "
                  "the same partition key with the same input fingerprint; otherwise it is built and all "
                  "outputs are written. Skipped outputs are linked to the snapshot being built, so that "
                  "after a build every output partition can be read through that snapshot.",
        quant=(["histories", "fault_sequences"], "all histories of builds, including interrupted ones"),
        why="Only a history with partially written outputs distinguishes the outcomes; tests build from "
            "scratch or rebuild a complete graph.",
        files=["src/arti/executors/__init__.py", "src/arti/executors/local.py",
               "src/arti/backends/memory.py"],
        mech=[("discovery", "src/arti/executors/__init__.py Executor.discover_producer_partitions"),
              ("skip", "src/arti/executors/__init__.py Executor.build_producer_partition")],
        obl=[("arti.executors.Executor", ["discover_producer_partitions", "build_producer_partition",
                                          "get_producer_inputs"],
              "existing keys are those present for all outputs; others are built and written"),
             ("arti.executors.local.LocalExecutor", ["build"], "every dependency is discovered or built"),
             ("arti.backends.memory.MemoryConnection", ["read_artifact_partitions",
                                                        "write_artifact_partitions",
                                                        "write_snapshot_partitions",
                                                        "read_snapshot_partitions"],
              "matching requires the input fingerprint recorded for that key"),
             ("arti.graphs.Graph", ["producer_outputs", "write", "artifact_to_key"],
              "all outputs are known, written and linked"),
             ("arti.storage.StoragePartitionSnapshot", "*", "key and input fingerprint of the partition")],
        classes=["arti.storage.StoragePartitionSnapshot"], modules=[], rules=[],
        fresh=["discover_producer_partitions", "read_artifact_partitions", "read_snapshot_partitions",
               "get_producer_inputs", "build_producer_partition", "build"],
        note="The set of skipped keys as a term over the recorded partitions of all outputs."),
    dict(
        id="C09", title="Producers run after all their inputs, on exactly the mapped partitions and views",
        statement="In a build every producer runs after everything it depends on, and each run receives, "
                  "for every build argument, the partitions its partition map assigns to that output key, "
                  "read through the declared view. Every node of the graph is handled and unknown kinds of "
                  "nodes are an error; cyclic graphs are rejected.",
        quant=(["programs", "inputs"], "all graphs, all partition maps, all traversal orders"),
        why="Tests build linear graphs; ordering and argument mix-ups need larger shapes.",
        files=["src/arti/executors/local.py", "src/arti/executors/__init__.py",
               "src/arti/graphs/__init__.py", "src/arti/producers/__init__.py"],
        mech=[("topological order", "src/arti/executors/local.py LocalExecutor.build"),
              ("arguments", "src/arti/executors/__init__.py Executor.build_producer_partition")],
        obl=[("arti.executors.local.LocalExecutor", ["build"], "static topological order over the "
              "dependencies, each mapped partition built"),
             ("arti.executors.Executor", ["get_producer_inputs", "build_producer_partition"],
              "arguments are read through their views from the partitions mapped to the key"),
             ("arti.producers.Producer", ["compute_dependencies", "inputs", "compute_input_fingerprint",
                                          "__pydantic_init_subclass__"],
              "the map is applied to the input partitions"),
             ("arti.graphs.Graph", ["dependencies", "producers", "producer_outputs", "__exit__", "build"],
              "dependency edges are complete; cycles are rejected on sealing"),
             ("arti.graphs.GraphSnapshot", ["build", "read"], "the given executor builds this snapshot")],
        classes=[], modules=[], rules=[], fresh=["get_producer_inputs", "compute_dependencies", "build"],
        note="Iteration source, argument terms and guards of the build loop."),
    dict(
        id="C10", title="Nothing is stored unless validation passed, and each output goes to its artifact",
        statement="For every partition a producer builds, its outputs are validated before anything is "
                  "written and a failed validation raises without writing any output. Each returned value "
                  "is written to the artifact of the same output position through the view declared for "
                  "that position, whatever order or multiplicity the artifacts have in the graph.",
        quant=(["inputs", "programs", "fault_sequences"], "all producers, outputs and validation results"),
        why="Order and multiplicity of outputs in a graph are not varied by tests; failing validations are "
            "only tried with one output.",
        files=["src/arti/executors/__init__.py", "src/arti/producers/__init__.py",
               "src/arti/graphs/__init__.py"],
        mech=[("validation gate", "src/arti/executors/__init__.py Executor.build_producer_partition"),
              ("positions", "src/arti/producers/__init__.py Producer.out")],
        obl=[("arti.executors.Executor", ["build_producer_partition"], "writes are guarded by the "
              "validation of all outputs and use each artifact's own position"),
             ("arti.producers.Producer", ["validate_outputs", "out", "__iter__",
                                          "_validate_validate_output_sig", "_validate_build_sig",
                                          "__pydantic_init_subclass__"],
              "every output takes part in validation and keeps its position"),
             ("arti.graphs.Graph", ["producer_outputs"], "all artifacts of a position are known"),
             ("arti.executors.local.LocalExecutor", ["build"], "every partition goes through the gate")],
        classes=["arti.producers.ProducerOutput"], modules=[], rules=[],
        fresh=["build_producer_partition", "validate_outputs"],
        note="Guards and argument terms of the writes."),
    dict(
        id="C11", title="Writing checks, persists, fingerprints and then registers exactly one partition",
        statement="A write verifies that the data and the artifact suit the view before touching storage, "
                  "refuses raw artifacts of a snapshot, stores the data under the path of the given "
                  "partition key and input fingerprint, fingerprints what was stored and only then "
                  "registers it, once for the artifact and once for the snapshot when there is one. A "
                  "failing step leaves nothing registered.",
        quant=(["inputs", "fault_sequences"], "all artifacts, views, keys, and a failure at any step"),
        why="Tests write successfully; that nothing is registered when any step fails, for every kind of "
            "artifact, cannot be sampled.",
        files=["src/arti/graphs/__init__.py", "src/arti/io/__init__.py", "src/arti/backends/__init__.py"],
        mech=[("write protocol", "src/arti/graphs/__init__.py Graph.write"),
              ("persisting", "src/arti/io/__init__.py write")],
        obl=[("arti.graphs.Graph", ["write"], "checks, then persists, then registers"),
             ("arti.graphs.GraphSnapshot", ["write"], "passes itself and everything it was given"),
             ("arti.io", ["write"], "persists, then snapshots the content of what was written"),
             ("arti.storage.Storage", ["generate_partition"], "the partition of the key"),
             ("arti.storage.StoragePartition", ["snapshot"], "content fingerprint after persisting"),
             ("arti.backends.BackendConnection", ["write_artifact_and_graph_partitions"],
              "artifact and snapshot registration"),
             ("arti.backends.memory.MemoryConnection", ["write_artifact_partitions",
                                                        "write_snapshot_partitions"],
              "registration stores exactly the given partitions"),
             ("arti.views.View", ["check_annotation_compatibility", "check_artifact_compatibility",
                                  "get_class_for"], "compatibility is checked")],
        classes=[], modules=[], rules=[], fresh=["write", "generate_partition"],
        note="Events of the write with their order and guards."),
    dict(
        id="C12", title="A failing write never destroys or truncates stored data",
        statement="When data cannot be serialised, the write fails before the destination is opened, so that "
                  "previously stored content of the same partition stays intact and no partial file is left "
                  "to be taken for a complete one.",
        quant=(["fault_sequences", "inputs"], "all data, all formats and storages, failure while serialising"),
        why="Needs a failure in the middle of a write; tests only write serialisable data.",
        files=["src/arti/io/json_localfile_python.py", "src/arti/io/pickle_localfile_python.py",
               "src/arti/io/json_gcsfile_python.py", "src/arti/io/pickle_gcsfile_python.py"],
        mech=[("serialise, then open", "src/arti/io/*_python.py writers")],
        obl=[(f"arti.io.{f}_{s}_python", [f"_write_{f}_{s}_python"],
              "the serialised bytes exist before the destination is opened")
             for f, s in (("json", "localfile"), ("pickle", "localfile"), ("json", "gcsfile"),
                          ("pickle", "gcsfile"))] +
            [("arti.io.json_stringliteral_python", ["_write_json_stringliteral_python"],
              "a literal that was written is not overwritten"),
             ("arti.io", ["write"], "nothing is fingerprinted unless the writer returned")],
        classes=[], modules=[], rules=["serialise_first", "in_place"],
        note="Order of serialisation and opening in every registered writer. A crash of the machine in "
             "the middle of the one write call is listed as a known finding."),
]
