"""Types, views, producers and supporting semantics."""

ADAPTERS = {
    "arti.types.python": ["PyValueContainer", "PyDatetime", "PyLiteral", "PyMap", "PyNone", "PyOptional",
                          "PyStruct", "PyTuple"],
    "arti.types.pydantic": ["BaseModelAdapter"],
    "arti.types.numpy": ["ArrayAdapter", "_NumpyScalarTypeAdapter"],
    "arti.types.pandas": ["DataFrameAdapter", "SeriesAdapter"],
    "arti.types.pyarrow": ["BinaryTypeAdapter", "BoolTypeAdapter", "DateTimeTypeAdapter",
                           "GeographyTypeAdapter", "ListTypeAdapter", "MapTypeAdapter",
                           "SchemaTypeAdapter", "StructTypeAdapter", "TimestampTypeAdapter",
                           "_BaseSizedTimeTypeAdapter", "_BaseTimeTypeAdapter",
                           "_PyarrowTypeAdapter"],
    "arti.types.bigquery": ["ListFieldTypeAdapter", "StructTypeAdapter", "TableTypeAdapter",
                            "_BaseTimeTypeAdapter", "_BigQueryTypeAdapter"],
}
ADAPTER_MODULES = list(ADAPTERS)
HINTS = ["assert_not_none", "assert_all_instances", "_check_issubclass", "discard_Annotated",
         "get_class_type_vars", "get_item_from_annotated", "get_annotation_from_value",
         "lenient_issubclass", "_tidy_return", "tidy_signature", "signature", "is_annotated",
         "is_annotated_hint", "is_generic_alias", "is_optional_hint", "is_union", "is_union_hint"]

PROPS = [
    dict(
        id="C24", title="Type lookup prefers higher priority adapters, then the extended systems",
        statement="Converting a type to or from a type system uses, among the adapters matching it, one of "
                  "the highest priority; only without a match are the extended systems tried, in order and "
                  "on behalf of the system originally asked, with all hints passed along; and a type nobody "
                  "matches is an error. Adapter keys are unique within a system and nested types are "
                  "converted by the system originally asked.",
        quant=(["inputs", "configurations"], "all types, hints, adapters and extension chains"),
        why="Which adapter is chosen only differs for types several adapters match or nested in extended "
            "systems.",
        files=["src/arti/types/__init__.py"],
        mech=[("lookup", "src/arti/types/__init__.py TypeSystem.to_artigraph, to_system"),
              ("registration", "src/arti/types/__init__.py TypeSystem.register_adapter")],
        obl=[("arti.types.TypeSystem", "*", "ordered lookup, fallback and errors"),
             ("arti.types.TypeAdapter", "*", "default matching"),
             ("arti.types._ScalarClassTypeAdapter", "*", "scalar adapters"),
             ("arti.internal.utils", ["register"], "unique keys")] +
            [(m, ["_gen_adapter"], "generated adapters are registered with their priority")
             for m in ("arti.types.bigquery", "arti.types.pyarrow")],
        classes=["arti.types.TypeSystem", "arti.types.TypeAdapter", "arti.types._ScalarClassTypeAdapter"],
        modules=["arti.types", *ADAPTER_MODULES], rules=[],
        note="Selection and fallback terms; registrations of every module with key and priority."),
    dict(
        id="C25", title="Type adapters carry every attribute in both directions",
        statement="For every adapter, converting a supported type to the other system and back keeps its "
                  "kind, element and field types, field order, nullability, precision, size, partitioning "
                  "and clustering, as far as both systems can express them (and in BigQuery also "
                  "descriptions); unsupported types are refused, and systems which have only one size or "
                  "precision of a kind use that one. Matching in both directions accepts "
                  "exactly what conversion supports.",
        quant=(["inputs"], "all types of every system, nested to any depth"),
        why="Nested, nullable and attribute combinations are unbounded; tests list some.",
        files=[f"src/{m.replace('.', '/')}.py" for m in ADAPTER_MODULES],
        mech=[("conversion", "to_artigraph, to_system, matches_artigraph and matches_system of the adapters")],
        obl=[(f"{m}.{c}", "*", "conversion and matching of this adapter")
             for m, cs in ADAPTERS.items() for c in cs] +
            [("arti.types._ScalarClassTypeAdapter", "*", "scalars"),
             ("arti.types.TypeAdapter", "*", "default matching"),
             ("arti.types.bigquery", ["_create_schema_field", "_gen_adapter"], "field construction"),
             ("arti.types.pyarrow", ["_gen_adapter"], "field construction")],
        classes="adapters", modules=ADAPTER_MODULES, rules=["nested_nullability"],
        note="Constructed types as terms over the converted one, per adapter; conversions by third party "
             "libraries are taken at their documented meaning."),
    dict(
        id="C26", title="A view is only used where its type and annotation suit the artifact",
        statement="A view is chosen by the class registered for an annotation itself, then for its "
                  "unsubscripted form, the highest priority registration winning, unless a view is "
                  "named explicitly. Reading or writing through it requires the artifact class, the "
                  "type, the Python annotation and a registered reader or writer for the mode of use "
                  "to be compatible; incompatible combinations and unknown annotations raise.",
        quant=(["inputs", "configurations"], "all annotations, types, views and modes"),
        why="Compatibility is a relation over all annotations and types in three modes.",
        files=["src/arti/views/__init__.py", "src/arti/views/python.py",
               "src/arti/internal/type_hints.py"],
        mech=[("compatibility", "src/arti/views/__init__.py View.check_annotation_compatibility"),
              ("selection", "src/arti/views/__init__.py View.get_class_for, from_annotation")],
        obl=[("arti.views.View", "*", "selection and compatibility per mode"),
             ("arti.internal.type_hints", ["lenient_issubclass", "_check_issubclass",
                                           "discard_Annotated", "get_item_from_annotated",
                                           "get_annotation_from_value"], "annotation comparison"),
             ("arti.internal.utils", ["register", "import_submodules"], "registration of views")],
        classes=["arti.views.View", "arti.views.python.PythonBuiltin", "arti.views.python.Date",
                 "arti.views.python.Datetime", "arti.views.python.Dict", "arti.views.python.Float",
                 "arti.views.python.Int", "arti.views.python.List", "arti.views.python.Null",
                 "arti.views.python.Str"],
        modules=["arti.views", "arti.views.python"], rules=["discover_first"],
        note="Raising conditions per mode as formulas."),
    dict(
        id="C27", title="Ill-formed producers are rejected when they are defined",
        statement="Defining a producer fails unless its build, map and validation functions agree with its "
                  "inputs and outputs: every parameter names an artifact field or is permitted, has a "
                  "matching view, kind and no default; every output matches what is validated; every "
                  "artifact field is used; and a partitioned output needs a partition map when it cannot be "
                  "inferred. A definition that is accepted has its signatures recorded as declared.",
        quant=(["programs"], "all producer definitions"),
        why="Every rejected shape is a different program; tests list common mistakes.",
        files=["src/arti/producers/__init__.py"],
        mech=[("definition checks", "src/arti/producers/__init__.py Producer.__pydantic_init_subclass__")],
        obl=[("arti.producers.Producer", ["__pydantic_init_subclass__", "_validate_fields",
                                          "_validate_parameters", "_validate_build_param",
                                          "_validate_build_sig_return", "_validate_build_sig",
                                          "_validate_validate_output_sig", "_validate_map_param",
                                          "_validate_map_sig", "_validate_no_unused_fields",
                                          "_validate_instance_artifact_args"], "raising conditions"),
             ("arti.producers", ["producer"], "functions become producers with the same checks"),
             ("arti.internal.type_hints", ["signature", "tidy_signature", "_tidy_return",
                                           "get_item_from_annotated", "lenient_issubclass",
                                           "_check_issubclass", "assert_all_instances"],
              "signatures are read as declared"),
             ("arti.views.View", ["from_annotation", "check_annotation_compatibility",
                                  "check_artifact_compatibility"], "views of parameters"),
             ("arti.internal", ["wrap_exc"], "errors stay errors"),
             ("arti.internal.utils", ["ordinal"], "messages")],
        classes=["arti.producers.Producer"], modules=["arti.producers"], rules=[],
        note="Raising conditions of every check and the call order establishing them."),
    dict(
        id="C28", title="Producer inputs and outputs are wired to the artifacts given, in position",
        statement="The inputs of a producer are exactly the artifacts passed for the parameters of its build "
                  "and map functions. Calling for outputs pairs the given or default artifacts with the "
                  "output positions one to one, checks number and type, leaves already produced artifacts "
                  "alone by raising, and marks every returned artifact as produced by this producer at "
                  "that position.",
        quant=(["inputs", "programs"], "all producers and output artifacts"),
        why="Needs multi-output producers with mixed artifacts.",
        files=["src/arti/producers/__init__.py"],
        mech=[("wiring", "src/arti/producers/__init__.py Producer.out, inputs, __iter__")],
        obl=[("arti.producers.Producer", ["out", "inputs", "__iter__", "_validate_instance_artifact_args",
                                          "validate_outputs"], "wiring"),
             ("arti.artifacts.Artifact", ["cast"], "given objects become artifacts"),
             ("arti.producers", ["producer"], "function producers"),
             ("arti.views.View", ["check_artifact_compatibility"], "type check of outputs")],
        classes=["arti.producers.ProducerOutput", "arti.producers.Producer"], modules=["arti.producers"],
        rules=[],
        note="Returned artifacts as terms over outputs and positions."),
    dict(
        id="C29", title="Artifacts are completed and validated from class, instance and hint values",
        statement="An artifact carries exactly the annotations and statistics of its class and of its "
                  "instance, its format and storage are always checked and completed against its type, and "
                  "defaults are only used when nothing was given. Casting returns artifacts unchanged, takes "
                  "the single output of a producer, and wraps other Python values as a literal artifact with "
                  "the type of the value, otherwise fails.",
        quant=(["inputs"], "all artifact classes and constructor arguments"),
        why="Combinations of class and instance values are unbounded.",
        files=["src/arti/artifacts/__init__.py", "src/arti/formats/__init__.py",
               "src/arti/storage/__init__.py"],
        mech=[("validation", "src/arti/artifacts/__init__.py Artifact"),
              ("casting", "src/arti/artifacts/__init__.py Artifact.cast")],
        obl=[("arti.artifacts.Artifact", "*", "merging, validation, casting"),
             ("arti.formats.Format", "*", "type support and default"),
             ("arti.storage.Storage", ["_visit_type", "_visit_format", "get_default"],
              "storage completion"),
             ("arti.internal.models", ["get_field_default"], "class defaults"),
             ("arti.graphs.ArtifactBox", ["_cast_value"], "completion when added to a graph"),
             ("arti.internal.type_hints", ["get_annotation_from_value"], "type of a value")],
        classes=["arti.artifacts.Artifact", "arti.formats.Format", "arti.annotations.Annotation",
                 "arti.statistics.Statistic", "arti.formats.json.JSON", "arti.formats.pickle.Pickle",
                 "arti.storage.literal.StringLiteral"],
        modules=[], rules=[],
        note="Validators with their fields and modes, and their values as terms."),
    dict(
        id="C30", title="Dispatch and registries pick the registered implementation or fail",
        statement="Implementations registered for a dispatched operation must agree with its parameters, are "
                  "selected by the runtime classes of all dispatched arguments, and an unmatched call "
                  "raises. Registering a second entry under a taken key raises unless it has strictly higher "
                  "priority, an entry of lower priority never replaces one of higher priority, and all "
                  "submodules are imported before the first lookup, once, from any thread.",
        quant=(["inputs", "schedules", "histories"], "all registrations, calls and importing threads"),
        why="Registration order, priorities and threads combine; tests register in one order.",
        files=["src/arti/internal/dispatch.py", "src/arti/internal/utils.py", "src/arti/io/__init__.py"],
        mech=[("dispatch", "src/arti/internal/dispatch.py"),
              ("registration", "src/arti/internal/utils.py register, import_submodules")],
        obl=[("arti.internal.dispatch._multipledispatch", "*", "registration checks and lookup"),
             ("arti.internal.dispatch", ["multipledispatch"], "canonical function"),
             ("arti.internal.utils", ["register", "import_submodules", "one_or_none"],
              "registries and import"),
             ("arti.io", ["_discover", "_read", "_write"], "io dispatch"),
             ("arti.types.TypeSystem", ["register_adapter"], "adapters by key"),
             ("arti.views.View", ["__pydantic_init_subclass__", "get_class_for"], "views by class"),
             ("arti.partitions.PartitionField", ["__pydantic_init_subclass__", "get_class_for"],
              "fields by type")],
        classes=["arti.internal.dispatch._multipledispatch"],
        modules=["arti.internal.dispatch", "arti.io"], rules=["discover_first"],
        note="Conditions under which entries are stored; the import is under its lock."),
    dict(
        id="C31", title="Versions identify what they claim to identify",
        statement="From major version 1 on exactly the major part of a semantic version decides its "
                  "identity, and before that all of its parts do; a timestamp version requires an "
                  "explicit timezone; a source version is the text of the class it is attached to; "
                  "and a commit version defaults to the current commit of the working directory.",
        quant=(["inputs", "configurations"], "all versions and classes"),
        why="The rule has to hold for all version numbers.",
        files=["src/arti/versions/__init__.py"],
        mech=[("versions", "src/arti/versions/__init__.py")],
        obl=[("arti.versions.SemVer", "*", "fingerprint of the identifying parts"),
             ("arti.versions.Timestamp", "*", "timezone required"),
             ("arti.versions._SourceDescriptor", "*", "source text of the owner")],
        classes=["arti.versions.SemVer", "arti.versions.Timestamp", "arti.versions.GitCommit",
                 "arti.versions.String", "arti.versions.Version"],
        modules=["arti.versions"], rules=[],
        note="Fingerprint terms of the version classes."),
    dict(
        id="C32", title="Type definitions reject inconsistent fields and values",
        statement="A collection only accepts partition and cluster fields that its element type has, without "
                  "overlap; an enum only accepts values of its element type and at least one; the fields of "
                  "a collection are those of its element type; a type counts as partitioned exactly when it "
                  "has partition fields; and default names of types are determined by their contents.",
        quant=(["inputs"], "all type definitions"),
        why="All combinations of fields and values.",
        files=["src/arti/types/__init__.py"],
        mech=[("validators", "src/arti/types/__init__.py Collection, Enum, Struct")],
        obl=[("arti.types.Collection", "*", "field checks"), ("arti.types.Enum", "*", "value checks"),
             ("arti.types", ["is_partitioned"], "partitionedness"),
             ("arti.types.List", "*", "names"), ("arti.types.Map", "*", "names"),
             ("arti.types.Set", "*", "names"), ("arti.types.Struct", "*", "names"),
             ("arti.types.Timestamp", "*", "names"), ("arti.types.Type", "*", "names"),
             ("arti.types._NamedMixin", "*", "names")],
        classes="types", modules=["arti.types"], rules=[],
        note="Raising conditions of the validators, and the declared fields of every type."),
    dict(
        id="C33", title="Frozen mappings behave as immutable values",
        statement="A frozen mapping copies what it is built from, compares and hashes by content independent "
                  "of insertion order, and merging returns a new mapping in which the right operand wins in "
                  "both directions of the operator; it validates the types of keys and values wherever it "
                  "is declared.",
        quant=(["inputs"], "all mappings"),
        why="Holds for all operands and both operand orders.",
        files=["src/arti/internal/mappings.py"],
        mech=[("frozen mapping", "src/arti/internal/mappings.py frozendict")],
        obl=[("arti.internal.mappings.frozendict", "*", "construction, merge, hash, schema"),
             ("arti.partitions.PartitionKey", "*", "keys are frozen mappings"),
             ("arti.internal.type_hints", ["get_class_type_vars"], "declared key and value types")],
        classes=["arti.internal.mappings.frozendict", "arti.partitions.PartitionKey"],
        modules=["arti.internal.mappings"], rules=[],
        note="Values of the operators as terms of their operands."),
    dict(
        id="C34", title="Annotation comparison and signature reading follow typing semantics",
        statement="Compatibility of annotations treats unions, optionals, literals, generics, tuples and "
                  "Annotated wrappers structurally, so that it accepts only annotations all of whose values "
                  "are acceptable; signatures are read with annotations resolved and returns normalised to "
                  "one entry per output; and the annotation of a value describes all of its elements.",
        quant=(["inputs", "programs"], "all annotations, signatures and values"),
        why="Annotations nest without bound.",
        files=["src/arti/internal/type_hints.py"],
        mech=[("comparison", "src/arti/internal/type_hints.py lenient_issubclass"),
              ("signatures", "src/arti/internal/type_hints.py tidy_signature")],
        obl=[("arti.internal.type_hints", HINTS, "structural comparison and normalisation")],
        classes=[], modules=["arti.internal.type_hints"], rules=[],
        note="Results as formulas over the structure of the annotations, one level per call."),
    dict(
        id="C35", title="Errors keep their kind and helpers release what they acquire",
        statement="Wrapping an error to add context keeps its class of error and raises it again, temporary "
                  "files are removed when done, a lookup expecting at most one element raises for more, "
                  "connections are closed when their block ends, and abstract operations raise instead of "
                  "returning nothing.",
        quant=(["fault_sequences", "inputs"], "all errors raised inside the helpers' blocks"),
        why="Needs failures inside of the blocks.",
        files=["src/arti/internal/__init__.py", "src/arti/internal/utils.py",
               "src/arti/backends/__init__.py"],
        mech=[("context", "src/arti/internal/__init__.py wrap_exc"),
              ("helpers", "src/arti/internal/utils.py")],
        obl=[("arti.internal", ["wrap_exc"], "re-raises"),
             ("arti.internal.utils", ["named_temporary_file", "one_or_none", "ordinal",
                                      "get_module_name", "classproperty"], "helpers"),
             ("arti.internal.utils.ClassName", "*", "class name"),
             ("arti.backends.BackendConnection", "*", "abstract operations and nested connections"),
             ("arti.backends.Backend", "*", "connections"),
             ("arti.backends.memory.MemoryBackend", "*", "connections"),
             ("arti.executors.Executor", ["build"], "abstract"),
             ("arti.thresholds.Threshold", "*", "abstract"),
             ("arti.graphs", ["_get_memory_backend"], "default backend")],
        classes=["arti.internal.utils.ClassName", "arti.backends.Backend",
                 "arti.backends.BackendConnection"],
        modules=["arti.internal", "arti.internal.utils"], rules=[],
        note="Raised classes and guards."),
    dict(
        id="C36", title="Connections and files are used only while they are open, and are always closed",
        statement="Every operation on a backend goes through a connection obtained in a with statement, "
                  "nested operations reuse the connection they are given, and no connection or file is "
                  "used after the block that acquired it, neither directly nor through a lazy value "
                  "leaving the block. Every file that is opened is closed again, also when an error is "
                  "raised, so that everything written is stored when a write returns.",
        quant=(["histories", "fault_sequences", "configurations"],
               "all operations with and without a given connection, all backends"),
        why="The in-memory backend works without being connected, and CPython usually closes forgotten "
            "files in time, so tests pass with a misused connection or file.",
        files=["src/arti/backends/__init__.py", "src/arti/graphs/__init__.py",
               "src/arti/executors/local.py", "src/arti/storage/local.py"],
        mech=[("connections", "src/arti/backends/__init__.py Backend.connect, BackendConnection.connect"),
              ("uses", "src/arti/graphs/__init__.py Graph.read, Graph.write, GraphSnapshot.from_graph")],
        obl=[("arti.backends.BackendConnection", ["connect"], "nested connections reuse the outer one"),
             ("arti.backends.Backend", ["connect"], "connections are made per block"),
             ("arti.backends.memory.MemoryBackend", ["connect"], "one connection per block"),
             ("arti.graphs.Graph", ["read", "write"], "operations inside the connection given or made"),
             ("arti.graphs.GraphSnapshot", ["from_graph", "from_tag", "read", "tag", "write"],
              "operations inside the connection given or made"),
             ("arti.executors.local.LocalExecutor", ["build"], "one connection for the whole build"),
             ("arti.storage.local.LocalFilePartition", ["compute_content_fingerprint"], "reads inside "
              "the block"),
             ("arti.internal.utils", ["named_temporary_file"], "closed and removed")],
        classes=["arti.backends.Backend", "arti.backends.BackendConnection"], modules=[],
        rules=["released"],
        note="Every with statement and every file opened anywhere in the source."),
]

