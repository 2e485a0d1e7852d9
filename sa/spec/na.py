"""Properties static analysis cannot decide here."""

NOT_APPLICABLE = [
    dict(id="N01", title="Data read during a build is the data the snapshot identifies",
         statement="Whatever other processes write to raw storage while a graph is being built, every "
                   "producer of that build reads the bytes whose content fingerprints are part of the "
                   "snapshot id.",
         quant=(["schedules"], "all interleavings of a build with writers of its raw inputs"),
         why="Tests run one process; the gap between fingerprinting and reading is never interleaved.",
         files=["src/arti/graphs/__init__.py", "src/arti/executors/__init__.py"],
         mech=[("snapshot, then read", "src/arti/graphs/__init__.py GraphSnapshot.from_graph")],
         reason="The code documents the gap between fingerprinting and reading; whether bytes changed in "
                "between is a fact of the storage at run time that no property of the source bounds."),
    dict(id="N02", title="Different objects have different fingerprints",
         statement="No two objects that differ in an identifying field, and no two stored contents that "
                   "differ, have the same 64 bit fingerprint.",
         quant=(["inputs"], "all pairs of objects and contents"),
         why="Collisions of a 64 bit hash are not met by sampling.",
         files=["src/arti/fingerprints/__init__.py"],
         mech=[("64 bit hash", "src/arti/fingerprints/__init__.py Fingerprint.from_string")],
         reason="False for any 64 bit hash of unbounded texts by counting; how likely collisions are is a "
                "statistical question about the hash function. C01 decides what can be decided from the "
                "source: that the hashed text differs."),
    dict(id="N03", title="Values survive a round trip through a format",
         statement="Every value of a supported type that is written in a format and read back through the "
                   "same view is equal to the original and of the same Python type.",
         quant=(["inputs"], "all values of all supported types and formats"),
         why="Tests round trip a few values.",
         files=["src/arti/formats/json.py", "src/arti/formats/pickle.py", "src/arti/io/__init__.py"],
         mech=[("codecs", "src/arti/io/*_python.py")],
         reason="Decided by the value domain of the json and pickle codecs, outside of this repository's "
                "source (json turns tuples into lists, for example). C14 decides that reader and writer use "
                "inverse codecs on the same location."),
    dict(id="N04", title="Parsing a stored path inverts formatting it for every template",
         statement="For every template a user can write and every partition key, the text matched for each "
                   "placeholder of a stored path is the text that was formatted into it, even when adjacent "
                   "placeholders or keys contain each other's separators.",
         quant=(["inputs", "programs"], "all templates, keys and paths"),
         why="Ambiguous templates are not in the tests.",
         files=["src/arti/storage/_internal.py"],
         mech=[("path parsing", "src/arti/storage/_internal.py parse_spec")],
         reason="Depends on the matching strategy of the third party parse library over arbitrary user "
                "templates; C21 and C22 decide this repository's share."),
    dict(id="N05", title="A crash at any point leaves storage and backend consistent",
         statement="After a crash at any point of a build and a restart with a persistent backend, every "
                   "partition registered in the backend is completely stored, and rebuilding gives the same "
                   "result as an uninterrupted build.",
         quant=(["crash_points"], "all crash points of all builds"),
         why="Tests do not crash.",
         files=["src/arti/graphs/__init__.py", "src/arti/executors/__init__.py"],
         mech=[("persist, then register", "src/arti/graphs/__init__.py Graph.write")],
         reason="The repository ships only an in-memory backend, and durability of a completed write is "
                "decided by the file system. C11 and C12 decide the order of the steps."),
    dict(id="N06", title="Concurrent use of one backend loses no record",
         statement="For every interleaving of threads writing graphs, snapshots, partitions and tags through "
                   "connections of one backend, every record written is found afterwards.",
         quant=(["schedules"], "all interleavings"),
         why="Tests are single threaded.",
         files=["src/arti/backends/memory.py"],
         mech=[("containers", "src/arti/backends/memory.py MemoryConnection")],
         reason="Nothing in the code claims or provides synchronisation: the memory backend relies on the "
                "atomicity of single interpreter steps, a property of the interpreter rather than of the "
                "source."),
]
