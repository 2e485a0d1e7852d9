"""Further constructs a property rests on, apart from the ones it is anchored at."""

STORED = [("arti.storage.local.LocalFilePartition", ["compute_content_fingerprint"]),
          ("arti.storage.literal.StringLiteralPartition", ["compute_content_fingerprint"]),
          ("arti.storage.google.cloud.storage.GCSFilePartition", ["compute_content_fingerprint"])]
FORMS = ("json_localfile_python", "pickle_localfile_python", "json_gcsfile_python",
         "pickle_gcsfile_python", "json_stringliteral_python")
READERS = [(f"arti.io.{m}", [f"_read_{m}"]) for m in FORMS]
WRITERS = [(f"arti.io.{m}", [f"_write_{m}"]) for m in FORMS]
SUBCLASS = [("arti.internal.type_hints", ["lenient_issubclass", "_check_issubclass"])]

WIDER = {
    "C01": ("decides what identifies an object", [
        ("arti.fingerprints.SkipFingerprint", ["__bool__", "__eq__"]),
        ("arti.internal.type_hints", ["get_item_from_annotated"]),
        ("arti.versions.SemVer", ["model_post_init"]),
        ("arti.internal.mappings.TypedBox", ["walk"])]),
    "C02": ("text fingerprints are computed from", [
        ("arti.fingerprints.SkipFingerprint", ["__bool__", "__eq__"]),
        ("arti.internal.utils.ClassName", ["__get__"]),
        ("arti.internal.mappings.TypedBox", ["walk"])]),
    "C03": ("copies keep nothing computed from old values", [
        ("arti.internal.models.Model", ["model_copy"])]),
    "C05": ("content of raw inputs", [
        *STORED, ("arti.storage.google.cloud.storage.GCSFile", ["discover_partitions"])]),
    "C06": ("records kept", [("arti.backends.memory.MemoryConnection", ["__init__"])]),
    "C07": ("content of inputs", [("arti.fingerprints.Fingerprint", ["combine"]), *STORED]),
    "C09": ("what a producer is given", [
        ("arti.backends.memory.MemoryConnection", ["read_snapshot_partitions"]),
        ("arti.graphs.Graph", ["artifact_to_key"]), ("arti.io", ["read"]),
        ("arti.views.View", ["from_annotation"])]),
    "C10": ("path from an output to its artifact", [
        ("arti.graphs.Graph", ["write", "artifact_to_key"]), ("arti.graphs.GraphSnapshot", ["write"]),
        ("arti.io", ["write"])]),
    "C11": ("what is persisted and fingerprinted", [
        *WRITERS, *STORED, ("arti.storage.Storage", ["_check_key"])]),
    "C12": ("order of the steps of a write", [("arti.graphs.Graph", ["write"])]),
    "C13": ("partitions are read one by one", READERS),
    "C14": ("a written literal is known", STORED[1:2]),
    "C16": ("looking up names in a sealed graph", [
        ("arti.internal.mappings.TypedBox", ["__getitem__", "__contains__", "__getattr__",
                                             "_get_leaf_and_key"])]),
    "C17": ("what becomes part of a graph", [
        ("arti.artifacts.Artifact", ["cast"]), ("arti.graphs.Graph", ["__exit__"]),
        ("arti.internal.mappings.TypedBox", ["__setattr__", "__contains__"])]),
    "C20": ("text of fingerprints and keys in paths", [
        ("arti.graphs.ArtifactBox", ["_cast_value"]), ("arti.internal.utils._int", ["__str__", "__repr__"]),
        ("arti.storage._internal", ["partial_format"]),
        ("arti.partitions.NullField", ["from_components"])]),
    "C21": ("text of fingerprints in paths", [
        ("arti.internal.utils._int", ["__str__"]), ("arti.internal.utils.int64", ["__new__"]),
        ("arti.fingerprints.Fingerprint", ["from_int", "from_int64"])]),
    "C24": ("which adapters claim a type", [
        ("arti.types.python.PyOptional", ["matches_artigraph"]),
        ("arti.types.bigquery.ListFieldTypeAdapter", ["matches_artigraph"]),
        ("arti.types.pandas.SeriesAdapter", ["matches_artigraph"]),
        ("arti.types.pandas.DataFrameAdapter", ["matches_artigraph"]),
        ("arti.types.pyarrow.SchemaTypeAdapter", ["matches_artigraph"]),
        ("arti.types.pydantic.BaseModelAdapter", ["matches_artigraph"])]),
    "C26": ("lookup of a reader or writer", [
        ("arti.internal.dispatch._multipledispatch", ["lookup"]),
        ("arti.internal.models", ["get_field_default"])]),
    "C27": ("views of parameters and outputs", [
        ("arti.views.View", ["get_class_for", "_get_kwargs_from_annotation", "_validate_type",
                             "_check_type_compatibility"])]),
    "C30": ("comparison of signatures", [*SUBCLASS, ("arti.internal.type_hints", ["tidy_signature"])]),
    "C31": ("fields of a version that are fingerprinted", [
        ("arti.internal.models.Model", ["_arti_serialize_model", "fingerprint"])]),
    "C32": ("values are instances of the declared type", SUBCLASS),
    "C34": ("the one matching hint", [("arti.internal.utils", ["one_or_none"])]),
}
CLASSES = {
    "C24": ["arti.types.python.PyDatetime", "arti.types.python.PyList", "arti.types.python.PySet",
            "arti.types.python.PyOptional", "arti.types.bigquery.ListFieldTypeAdapter",
            "arti.types.bigquery.TableTypeAdapter", "arti.types.pyarrow.SchemaTypeAdapter"],
}


def widen(props):
    for p in props:
        reason, obl = WIDER.get(p["id"], ("", ()))
        p["obl"] = [*p["obl"], *((o, n, reason) for o, n in obl)]
        if p["id"] in CLASSES:
            p["classes"] = [*(p.get("classes") or ()), *CLASSES[p["id"]]]
    return props
