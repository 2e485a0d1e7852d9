"""Reading, backends, graphs, storage."""

IO_MODULES = ["arti.io.json_localfile_python", "arti.io.pickle_localfile_python",
              "arti.io.json_gcsfile_python", "arti.io.pickle_gcsfile_python",
              "arti.io.json_stringliteral_python"]

PROPS = [
    dict(
        id="C13", title="A read returns exactly the partitions asked for, or fails",
        statement="A read through a snapshot uses the partitions linked to that artifact in that snapshot; a "
                  "read without one uses those discovered in storage; explicitly passed partitions are used "
                  "as they are. Exactly one of view and annotation must be given and must suit the "
                  "artifact; missing partitions, or several for an unpartitioned type, are errors rather "
                  "than partial data.",
        quant=(["inputs", "histories"], "all artifacts, snapshots, partitions, views and annotations"),
        why="Which partitions a read uses only differs after particular histories; tests read right after "
            "writing.",
        files=["src/arti/graphs/__init__.py", "src/arti/io/__init__.py", "src/arti/backends/memory.py"],
        mech=[("selection", "src/arti/graphs/__init__.py Graph.read"),
              ("cardinality", "src/arti/io/__init__.py read")],
        obl=[("arti.graphs.Graph", ["read"], "partition selection and checks"),
             ("arti.graphs.GraphSnapshot", ["read"], "passes itself and everything it was given"),
             ("arti.io", ["read", "_read"], "cardinality errors; the partitions of the snapshots"),
             ("arti.backends.memory.MemoryConnection", ["read_snapshot_partitions",
                                                        "read_artifact_partitions"],
              "what is linked is what is read"),
             ("arti.views.View", ["check_annotation_compatibility", "check_artifact_compatibility",
                                  "from_annotation", "get_class_for"], "compatibility is checked"),
             ("arti.types", ["is_partitioned"], "partitionedness")],
        classes=[], modules=[], rules=[], fresh=["read", "_read", "read_snapshot_partitions",
                                                 "read_artifact_partitions"],
        note="Partition argument of the read as a term per case, and the raising conditions."),
    dict(
        id="C14", title="Every reader restores what the writer of its format and storage stored",
        statement="For every registered combination of type, format, storage and view there is a matching "
                  "reader and writer: the reader opens the location the writer stored to, in the matching "
                  "mode and encoding, with the inverse codec. Partitioned reads concatenate all partitions "
                  "once each and an unpartitioned read returns the single value itself.",
        quant=(["inputs", "configurations"], "all registered format and storage combinations, all data"),
        why="Tests round-trip small values for some combinations; cloud storage is mocked.",
        files=["src/arti/io/__init__.py", *(f"src/{m.replace('.', '/')}.py" for m in IO_MODULES)],
        mech=[("readers and writers", "src/arti/io/*_python.py"),
              ("dispatch", "src/arti/io/__init__.py register_reader, register_writer")],
        obl=[(m, "*", "location, mode, codec, and the annotations it is registered for")
             for m in IO_MODULES] +
            [("arti.io", "*", "dispatch on type, format, partitions and view"),
             ("arti.storage.google.cloud.storage._GCSMixin", ["qualified_path"], "object location"),
             ("arti.internal.utils", ["import_submodules"], "all implementations are loaded")],
        classes=["arti.formats.json.JSON", "arti.formats.pickle.Pickle"],
        modules=["arti.io", *IO_MODULES], rules=["io_pairs"], fresh=["read", "_read"],
        note="Per pair: terms of opened location, mode and codec, and registration annotations."),
    dict(
        id="C15", title="The memory backend returns what was written, per artifact, snapshot and tag",
        statement="Through any connection of one memory backend, reads return exactly what was written: "
                  "graphs and snapshots by name and fingerprint, partitions of an artifact filtered by the "
                  "requested keys and input fingerprints, partitions per snapshot and artifact key, and tags "
                  "per graph name. Writing again is idempotent, different graphs, artifacts and snapshots "
                  "never mix, and a tag is only replaced when overwriting is requested.",
        quant=(["histories", "inputs"], "all sequences of reads and writes"),
        why="Interference between entries needs particular histories of several names and fingerprints.",
        files=["src/arti/backends/memory.py", "src/arti/backends/__init__.py"],
        mech=[("tables", "src/arti/backends/memory.py MemoryConnection")],
        obl=[("arti.backends.memory.MemoryConnection", "*", "each table is read and written under the same "
              "keys"),
             ("arti.backends.memory.MemoryBackend", "*", "all connections share the backend's container"),
             ("arti.backends.memory._NoCopyContainer", "*", "the container is shared, not copied"),
             ("arti.internal.utils.NoCopyMixin", "*", "copies share the container"),
             ("arti.backends.BackendConnection", ["connect", "write_artifact_and_graph_partitions"],
              "nested use of a connection")],
        classes=["arti.backends.memory.MemoryBackend", "arti.backends.memory._NoCopyContainer",
                 "arti.internal.utils.NoCopyDict"],
        modules=["arti.backends.memory"], rules=[],
        hooks=["arti.storage.Storage", "arti.storage.StoragePartition",
               "arti.storage.StoragePartitionSnapshot", "arti.partitions.PartitionField"],
        fresh=["read_artifact_partitions", "read_graph", "read_snapshot", "read_snapshot_tag",
               "read_snapshot_partitions"],
        note="Key terms of the reads and writes of each table."),
    dict(
        id="C16", title="Graphs change only while open, and sealed graphs show their current contents",
        statement="Artifacts can be added only while a graph is open, only one graph is open at a time, and "
                  "building, snapshotting, reading or inspecting structure requires a sealed graph. Closing "
                  "or reopening a graph, including after an error inside the block, drops everything derived "
                  "from the previous contents, so that dependencies, outputs, keys and fingerprint always "
                  "describe the current artifacts.",
        quant=(["histories"], "all sequences of opening, editing, closing and inspecting"),
        why="Staleness needs inspecting, reopening, editing and inspecting again; tests open a graph once.",
        files=["src/arti/graphs/__init__.py", "src/arti/internal/mappings.py", "src/arti/__init__.py"],
        mech=[("open and close", "src/arti/graphs/__init__.py Graph.__enter__, __exit__, _toggle"),
              ("guards", "src/arti/graphs/__init__.py requires_sealed")],
        obl=[("arti.graphs.Graph", ["__enter__", "__exit__", "_toggle", "_convert_artifacts", "build",
                                    "snapshot", "artifact_to_key", "dependencies", "producers",
                                    "producer_outputs", "read", "write"],
              "status changes, cache invalidation and guards"),
             ("arti.graphs", ["requires_sealed"], "raises while the graph is open"),
             ("arti.graphs.ArtifactBox", "*", "registration happens through the open graph"),
             ("arti.internal.mappings.TypedBox", ["__setitem__", "__setattr__", "_cast", "__init__",
                                                  "__setstate__"], "closed containers reject changes"),
             ("arti.internal.mappings.BoxStatus", "*", "status is shared by nested containers"),
             ("arti._Context", "*", "the open graph")],
        classes=["arti.graphs.Graph", "arti._Context", "arti.graphs.ArtifactBox",
                 "arti.internal.mappings.BoxStatus"],
        modules=["arti", "arti.graphs"], rules=["cache_invalidation"],
        note="Each memoised attribute derived from the artifacts is dropped by the status change, and each "
             "public operation of a graph carries the sealed guard."),
    dict(
        id="C17", title="Graph structure contains every artifact, producer, edge and output",
        statement="The dependencies of a sealed graph contain every artifact with exactly its producer and "
                  "every producer with exactly its inputs; all producers and all artifacts written by each "
                  "output position are listed, in position order; and every artifact is known under the "
                  "full dotted key it was added with.",
        quant=(["programs", "inputs"], "all graphs, nested keys, shared producers and repeated outputs"),
        why="Shapes with shared producers or repeated outputs are not sampled by tests.",
        files=["src/arti/graphs/__init__.py", "src/arti/internal/mappings.py"],
        mech=[("edges", "src/arti/graphs/__init__.py Graph.dependencies"),
              ("outputs", "src/arti/graphs/__init__.py Graph.producer_outputs")],
        obl=[("arti.graphs.Graph", ["dependencies", "producers", "producer_outputs", "artifact_to_key",
                                    "_toggle", "_convert_artifacts"], "derived from all artifacts"),
             ("arti.graphs.ArtifactBox", "*", "artifacts are completed with graph, name and names"),
             ("arti.internal.mappings.TypedBox", ["walk", "__iter__", "__getitem__", "__setitem__",
                                                  "_get_leaf_and_key", "_cast", "_cast_value",
                                                  "__init__"],
              "walking yields every leaf under its dotted key"),
             ("arti.producers.Producer", ["inputs", "out"], "inputs and outputs of a producer"),
             ("arti.storage.Storage", ["_visit_graph", "_visit_names"], "artifact completion")],
        classes=["arti.graphs.Graph", "arti.producers.ProducerOutput", "arti.artifacts.Artifact"],
        modules=["arti.graphs"], rules=[],
        note="The derived maps as terms over the walk of the artifacts."),
    dict(
        id="C18", title="The artifact container keeps every key, and rejects unknown or duplicate ones",
        statement="In the nested artifact container a value stored under a dotted key is found under exactly "
                  "that key by item, attribute, membership, iteration and walking, nested containers share "
                  "the open or closed status, keys cannot be redefined, names starting with an underscore "
                  "are refused, values are validated on entry, and equal containers hash equally.",
        quant=(["inputs", "histories"], "all nested keys and sequences of insertions"),
        why="Nesting, overlap of keys and status sharing combine; tests cover single levels.",
        files=["src/arti/internal/mappings.py", "src/arti/graphs/__init__.py"],
        mech=[("nested container", "src/arti/internal/mappings.py TypedBox")],
        obl=[("arti.internal.mappings.TypedBox", "*", "lookup, insertion, iteration, status"),
             ("arti.internal.mappings.BoxStatus", "*", "shared status"),
             ("arti.internal.mappings.InvalidKeyError", "*", "error for bad keys"),
             ("arti.graphs.ArtifactBox", "*", "typed use for artifacts")],
        classes=["arti.internal.mappings.TypedBox", "arti.internal.mappings.BoxStatus",
                 "arti.internal.mappings.InvalidKeyError", "arti.graphs.ArtifactBox"],
        modules=["arti.internal.mappings"], rules=[],
        note="All operations of the container as functions of its nested data."),
    dict(
        id="C19", title="Storage templates are resolved once, per field, without losing placeholders",
        statement="Resolving a storage fills every placeholder that is known (graph, type, format, "
                  "names and input fingerprint) in every templated field, leaves all other "
                  "placeholders exactly as they are for later, and removes the placeholder of an "
                  "empty value together with its separator, failing if nothing is left. When an "
                  "artifact is put into a graph, a storage for produced data must have a place for "
                  "the input fingerprint and one for raw data loses it.",
        quant=(["inputs", "configurations"], "all templates, field combinations, names and types"),
        why="Templates are strings: combinations of optional placeholders and separators are unbounded.",
        files=["src/arti/storage/__init__.py", "src/arti/storage/_internal.py",
               "src/arti/storage/local.py", "src/arti/storage/literal.py",
               "src/arti/storage/google/cloud/storage.py"],
        mech=[("resolution", "src/arti/storage/__init__.py Storage.resolve"),
              ("visits", "src/arti/storage/__init__.py Storage._visit_*")],
        obl=[("arti.storage.Storage", ["resolve", "_resolve_field", "_visit_type", "_visit_format",
                                       "_visit_graph", "_visit_input_fingerprint", "_visit_names",
                                       "includes_input_fingerprint_template", "key_types",
                                       "_format_fields", "get_default", "__class_getitem__",
                                       "__pydantic_init_subclass__"], "resolution per field"),
             ("arti.storage._internal", ["partial_format", "strip_partition_indexes"],
              "partial formatting keeps unknown placeholders"),
             ("arti.storage._internal.FormatDict", "*", "unknown names become placeholders"),
             ("arti.storage._internal.FormatPlaceholder", "*", "placeholders format to themselves"),
             ("arti.storage._internal.Placeholder", "*", "placeholder key"),
             ("arti.storage._internal.StripIndexPlaceholder", "*", "index removal"),
             ("arti.storage.literal.StringLiteral", ["_format_fields"], "only the id is a template"),
             ("arti.storage.local.LocalFile", ["rooted_at"], "same template under another root"),
             ("arti.graphs.ArtifactBox", ["_cast_value"], "order of the visits"),
             ("arti.artifacts.Artifact", ["_validate_storage"], "storage visits type and format")],
        classes=["arti.storage.Storage", "arti.storage.local.LocalFile",
                 "arti.storage.google.cloud.storage._GCSMixin",
                 "arti.storage.google.cloud.storage.GCSFile", "arti.storage.literal.StringLiteral"],
        modules=["arti.storage"], rules=[],
        note="Resolved fields as terms over template and values."),
    dict(
        id="C20", title="A generated partition path is unique per key and input fingerprint",
        statement="A storage partition is only generated with a partition key when the type is "
                  "partitioned and without one when it is not, and with an input fingerprint exactly "
                  "when the template has a place for one. All template fields are formatted with the "
                  "full key and fingerprint, the partition carries both, and so partitions whose "
                  "template names all partition fields never share a location for different keys or "
                  "fingerprints.",
        quant=(["inputs"], "all keys, fingerprints and templates"),
        why="A path colliding for two keys needs the pair of keys that collide.",
        files=["src/arti/storage/__init__.py", "src/arti/partitions/__init__.py"],
        mech=[("generation", "src/arti/storage/__init__.py Storage.generate_partition")],
        obl=[("arti.storage.Storage", ["generate_partition", "_check_key", "key_types", "_format_fields",
                                       "includes_input_fingerprint_template", "_visit_type",
                                       "_visit_input_fingerprint", "__pydantic_init_subclass__"],
              "checks and formatting"),
             ("arti.storage.literal.StringLiteral", ["_format_fields"], "only the id is a template"),
             ("arti.partitions.PartitionKey", "*", "key types"),
             ("arti.partitions.DateField", "*", "components used by templates"),
             ("arti.partitions._IntField", "*", "components used by templates"),
             ("arti.partitions.PartitionField", "*", "fields of the type"),
             ("arti.types", ["is_partitioned"], "whether keys are expected"),
             ("arti.types.Collection", ["partition_fields", "fields"], "partition fields of the type"),
             ("arti.storage.google.cloud.storage._GCSMixin", ["qualified_path"], "full location")],
        classes=["arti.storage.StoragePartition", "arti.storage.Storage", 
                 "arti.storage.local.LocalFilePartition", "arti.storage.local.LocalFile",
                 "arti.storage.google.cloud.storage._GCSMixin",
                 "arti.storage.google.cloud.storage.GCSFilePartition",
                 "arti.storage.literal.StringLiteralPartition"],
        modules=["arti.partitions"], rules=[],
        note="Raising conditions and the formatted fields as terms."),
    dict(
        id="C21", title="Discovery finds exactly the partitions generation stored, with the same key",
        statement="Discovering the partitions of a storage returns one partition for every stored path the "
                  "template could have generated and for no other, with the key and input fingerprint that "
                  "generate exactly that path again, restricted to the requested input fingerprints. "
                  "Characters special to pattern matching are taken literally, and a path that cannot be "
                  "parsed back is skipped or reported, not misread.",
        quant=(["inputs"], "all templates, keys and directory contents"),
        why="Inverse of string formatting over all templates and file names.",
        files=["src/arti/storage/_internal.py", "src/arti/storage/local.py",
               "src/arti/storage/google/cloud/storage.py", "src/arti/storage/literal.py"],
        mech=[("wildcard", "src/arti/storage/_internal.py spec_to_wildcard"),
              ("parsing", "src/arti/storage/_internal.py parse_spec, extract_placeholders")],
        obl=[("arti.storage._internal", "*", "pattern, parse, filter and consistency check"),
             ("arti.storage._internal.WildcardPlaceholder", "*", "wildcard per component"),
             ("arti.storage._internal._GlobFormatter", "*", "literal text is escaped"),
             ("arti.storage._internal.FormatPlaceholder", "*", "placeholders"),
             ("arti.storage._internal.FormatDict", "*", "placeholders"),
             ("arti.storage._internal.Placeholder", "*", "placeholders"),
             ("arti.storage._internal.StripIndexPlaceholder", "*", "index removal"),
             ("arti.storage.local.LocalFile", ["discover_partitions"], "all matching files, parsed"),
             ("arti.storage.literal.StringLiteral", ["discover_partitions"], "the written literal"),
             ("arti.storage.google.cloud.storage.GCSFile", ["discover_partitions"],
              "all matching objects, parsed"),
             ("arti.storage.google.cloud.storage._GCSMixin", ["qualified_path"], "listing pattern"),
             ("arti.partitions.PartitionField", "*", "component names"),
             ("arti.partitions.DateField", "*", "components parse back"),
             ("arti.partitions._IntField", "*", "components parse back"),
             ("arti.partitions.NullField", "*", "components parse back"),
             ("arti.storage.Storage", ["key_types", "generate_partition", "_check_key"],
              "discovered keys regenerate their path")],
        classes=[], modules=[], rules=[], fresh=["discover_partitions", "parse_spec"],
        note="Pattern, parse and filter terms; regular language equality of arbitrary templates is not "
             "attempted."),
    dict(
        id="C22", title="Partition field components format and parse to the same value",
        statement="Every component a partition field offers to templates is an injective text of its value "
                  "together with the components required with it, and rebuilding a field from the components "
                  "found in a path gives the original value; incomplete or unknown components are rejected. "
                  "Every supported kind of type maps to exactly one kind of partition field.",
        quant=(["inputs"], "all dates, integers and component combinations"),
        why="Zero padding, signs and component combinations vary over all values.",
        files=["src/arti/partitions/__init__.py"],
        mech=[("components", "src/arti/partitions/__init__.py PartitionField subclasses")],
        obl=[("arti.partitions.DateField", "*", "components and parsing"),
             ("arti.partitions._IntField", "*", "components and parsing"),
             ("arti.partitions.NullField", "*", "components and parsing"),
             ("arti.partitions.PartitionField", "*", "component listing and lookup by type"),
             ("arti.partitions.PartitionKey", "*", "types of a key")],
        classes=["arti.partitions.DateField", "arti.partitions._IntField", "arti.partitions.NullField",
                 "arti.partitions.PartitionField", "arti.partitions.Int8Field",
                 "arti.partitions.Int16Field", "arti.partitions.Int32Field",
                 "arti.partitions.Int64Field", "arti.partitions.PartitionKey"],
        modules=["arti.partitions"], rules=[],
        note="Format terms against parse terms of each field."),
    dict(
        id="C23", title="Content fingerprints cover all stored bytes and are recomputed when asked",
        statement="The content fingerprint of a stored partition is computed from all of its current bytes "
                  "(or the content hash its storage service reports) every time it is taken, so that any "
                  "change of content is seen and equal content has an equal fingerprint, whatever the size. "
                  "Content that does not exist is an error.",
        quant=(["inputs", "histories"], "all contents, sizes and rewrites"),
        why="Files in tests are smaller than one read buffer and written once.",
        files=["src/arti/storage/local.py", "src/arti/storage/literal.py",
               "src/arti/storage/google/cloud/storage.py", "src/arti/storage/__init__.py"],
        mech=[("hashing", "compute_content_fingerprint of the partition classes")],
        obl=[("arti.storage.local.LocalFilePartition", ["compute_content_fingerprint"],
              "all bytes of the file, read to the end"),
             ("arti.storage.literal.StringLiteralPartition", ["compute_content_fingerprint"],
              "the literal value; error if not written"),
             ("arti.storage.google.cloud.storage.GCSFilePartition", ["compute_content_fingerprint"],
              "hash reported for the object, uncached"),
             ("arti.storage.google.cloud.storage._GCSMixin", ["qualified_path"], "the object"),
             ("arti.storage.StoragePartition", ["snapshot", "compute_content_fingerprint"],
              "a snapshot records a freshly computed fingerprint"),
             ("arti.fingerprints.Fingerprint", ["from_string"], "the whole digest is hashed")],
        classes=["arti.storage.StoragePartitionSnapshot", "arti.storage.StoragePartition"],
        modules=[], rules=[], fresh=["compute_content_fingerprint", "snapshot"],
        note="Hash input as a term over the bytes read; no memoisation on the way."),
]
