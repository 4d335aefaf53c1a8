"""Writes /verif/properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                        "mechanism": [dict(name=n, where=w) for n, w in mech],
                        "observe_at": observe, "hook_needed": None}}

SC, DA, ST, FR, EX = ("dsch/schema.py", "dsch/data.py", "dsch/storage.py", "dsch/frontend.py",
                      "dsch/exceptions.py")
H5, NP, MT, IM = ("dsch/backends/hdf5.py", "dsch/backends/npz.py", "dsch/backends/mat.py",
                  "dsch/backends/inmem.py")
DOM = ("Schemas: any nesting of Compilation and List over all nine item types, with field names that are plain "
       "ASCII identifiers of up to 63 characters, starting with a letter and not colliding with node attributes. Values: what the schema node type documents "
       "(numpy arrays of boolean/integer/float/complex dtypes in native byte order, any shape incl. empty; any bytes incl. NULs and "
       "b''; any NUL-free str incl. '' and non-BMP; naive dates/times over their whole range; every scalar of the dtype).")

PROPS = [
P("C01", "Saved data reloads identically in every file format",
  "Saving a file-based storage and loading the file again yields the same schema and exactly the same data: every "
  "filled field keeps its exact value (Python type, dtype, shape, every element), every empty field is still empty, and "
  "every list keeps its length, order and empty entries. This holds for every schema tree and every valid, possibly "
  "incomplete, data set, in each of the HDF5, npz and MATLAB formats.",
  ["inputs", "programs"], "Over all schemas and all valid data for them, complete or partial, for the three file backends. " + DOM,
  "Unit tests reload one fixed value per type (two int32 elements, 'spam', 1970-01-01 ...) and one fixed nested schema; "
  "empty strings, bytes, one-element or multi-dimensional arrays, all dtypes, empty list entries, and combinations are never saved.",
  [NP, H5, MT, DA, ST], [("per-type replace/_value encodings", NP), ("per-type replace/_value encodings", H5),
   ("struct/cell mapping and loading", MT), ("dotted flattening/inflating of keys", NP),
   ("recursive _init_from_storage", DA)],
  ["storage.save()", "dsch.load()", "node.value / empty / len"],
  [("file content", "serialised data node tree plus schema JSON", "file at storage_path")]),
P("C02", "All storage backends behave identically through the API",
  "The same sequence of API operations with valid values (assign, replace, append, clear, element access, copy between nodes) gives the same "
  "observable results on every backend after every step: values, emptiness, completeness, list lengths and order, data trees and "
  "validation outcome. These results are those of a plain tree holding the most recently assigned values.",
  ["histories", "inputs", "configurations"], "Over all operation histories on all schemas, for the in-memory, HDF5, npz and MATLAB backends. " + DOM,
  "Tests apply one or two operations to a fresh node; overwriting a value with one of another size, reusing a cleared list, or mixing "
  "operations on nested nodes in long histories is not covered.",
  [DA, IM, H5, NP, MT], [("value/replace/clear/append/complete/empty", DA), ("backend replace/clear overrides", H5),
   ("backend replace overrides", NP), ("backend replace overrides", IM)],
  ["node.value", "node.empty", "node.complete", "len(list)", "node.data_tree()", "node.validate()"]),
P("C03", "A file always holds the state of the last save, across sessions",
  "After any history of edits, saves and reopenings, loading the file gives exactly the state at the last save: overwritten values, removed "
  "list entries and cleared fields do not come back, and nothing else is lost. Edits that were not saved, and merely opening or "
  "loading a file, do not change what later sessions read.",
  ["histories", "crash_points"], "Over all multi-session histories (edit/save/reopen), with the process ending at any point between operations. " + DOM,
  "Existing tests do one create-save-load cycle; none re-saves over earlier data after shrinking lists, clearing fields or changing value sizes, "
  "and none ends a session with unsaved edits.",
  [ST, NP, H5, MT], [("save/_save", ST), ("_save/_load", NP), ("_save/_load, in-place datasets", H5), ("_save/_load", MT)],
  ["storage.save()", "dsch.load()", "file bytes"],
  [("file at storage_path", "state of last save", "backends/*.Storage")]),
P("C04", "Copying data between storages is exact and independent",
  "Creating a storage from another one, saving a storage under a new path/format, and loading a node from another node produce a target with the same "
  "schema and exactly the same data as the source (including empty fields and list lengths), whatever the target held before, for every pair of backends. "
  "The source is not changed, later changes to either side do not affect the other, and copying between different schemas is refused without changing the target.",
  ["inputs", "configurations", "histories"], "Over all schemas, source states, earlier target states and backend pairs. " + DOM,
  "Tests copy complete one-value nodes into fresh targets and do not look at the source afterwards; partial sources, non-empty targets and "
  "aliasing are not sampled.",
  [FR, ST, DA], [("create_from", FR), ("save_as", ST), ("load_from", DA)],
  ["dsch.create_from()", "storage.save_as()", "node.load_from()"]),
P("C05", "A value validates exactly when it meets every schema constraint",
  "For every item type, validating a value succeeds if and only if the value has the required type (and exact dtype and number of dimensions) and lies "
  "within every configured limit on length, shape and element values, with limits inclusive and unset limits not restricting anything. "
  "A rejection is reported as a validation error that carries a violated constraint's limit and the actual value.",
  ["inputs", "configurations"], "Over all constraint configurations of all item and list schema nodes and all values, in particular at the limits, including limits of zero.",
  "Tests use one value inside and one outside for each constraint; limits of zero, values exactly at a limit, single violating elements, and combinations are not sampled.",
  [SC, EX], [("validate methods", SC), ("ValidationError", EX)], ["schema_node.validate()", "node.validate()"]),
P("C06", "Dependent arrays must match their independent variables",
  "An array that declares independent variables validates only if, for every dimension with a declared variable, that dimension's size equals the length "
  "of that variable's array; dimensions declared without a variable are not restricted. The result depends only on the current values, whatever order they were assigned, "
  "resized, saved or loaded in, and an independent variable that is still empty does not restrict anything.",
  ["inputs", "histories", "configurations"], "Over all dependency declarations (including undeclared dimensions), all array shapes, and all assignment histories, on all backends.",
  "Only one 1-D pair and one 2-D pair are tested; declarations with undeclared dimensions, mismatches in a later dimension, or edits after validation are not.",
  [SC, DA], [("Array.validate independent values", SC), ("Array.validate collects independent variables from parent", DA)],
  ["node.validate()", "storage.validate()"]),
P("C07", "Validating a tree finds any violation and names its exact location",
  "Validating a storage or any node succeeds if and only if every filled field and every list below it satisfies its own constraints, however deeply nested; empty fields never fail. "
  "On failure the error names the exact path (field names and list indices) of a field that really violates its constraint, and exposes the original violation.",
  ["inputs", "programs"], "Over all schema trees, all data, and all positions and kinds of one or more violations, on all backends.",
  "One fixed three-level tree with one violation is tested; other shapes, positions, list-of-list paths and multiple violations are not.",
  [DA, EX, ST], [("recursive validate", DA), ("SubnodeValidationError.node_path/original_cause", EX), ("Storage.validate", ST)],
  ["storage.validate()", "SubnodeValidationError.node_path()", "original_cause()"]),
P("C08", "Invalid data does not pass save or load unless forced",
  "Saving without force raises and does not put data violating the schema into the file, which keeps its previous content, and loading without force never returns a storage whose data violates the schema stored with it. "
  "With force both succeed and preserve the data, and for valid data forcing makes no difference.",
  ["inputs", "histories"], "Over all schemas with constraints, valid and invalid data, previously saved content, and the force flag of save and load, for all file backends.",
  "One String(max_length=3) case is tested for load; the file content after a refused save is never looked at.",
  [ST, FR, NP, H5, MT], [("FileStorage.save validates first", ST), ("load validates unless force", FR)],
  ["storage.save(force)", "dsch.load(force)", "file content"]),
P("C09", "Schemas survive serialisation unchanged",
  "Turning any schema into its dictionary or JSON form and back gives an equal schema with the same hash, the same attributes and the same validation behaviour, also after several rounds and after being stored in and loaded from a file. "
  "Descriptions with an unknown or mismatching node type are rejected with an error.",
  ["inputs", "programs"], "Over all schema trees with all configuration options, including dtype given as string, type or numpy dtype, shapes, limits, units and optionals.",
  "Tests convert one fixed configuration per node type in one direction only; JSON round trips of whole trees are not compared.",
  [SC, NP, H5, MT], [("to_dict/to_json/from_dict", SC), ("node_from_dict/node_from_json", SC)],
  ["node.to_dict()", "node.to_json()", "schema.node_from_json()", "storage.schema_node"]),
P("C10", "Schema hash and equality identify the configuration",
  "Two schemas are equal and have the same hash exactly when their configurations are the same: field order does not matter, every configuration option at every level does. "
  "The hash is the SHA256 of the documented sorted-key JSON form of the configuration, so it is stable across processes, sessions, backends and releases.",
  ["inputs", "programs"], "Over all schema trees and all single-option changes to them.",
  "The equality test compares ten fixed pairs that all differ, and only the hash of Bool() is pinned.",
  [SC, ST], [("to_json with sorted keys, sha256", SC), ("__eq__", SC), ("schema_hash", ST)],
  ["node.hash()", "node1 == node2", "storage.schema_hash()"]),
P("C11", "Loading with a required schema admits exactly that schema",
  "Loading with a required schema (as object, as hash, or both) succeeds if and only if the stored schema is identical to every requirement given; otherwise a schema error is raised before any data is handed out, also when the data is invalid or force is given. The file is not changed either way.",
  ["inputs", "configurations"], "Over all pairs of stored and required schemas (equal, reordered, differing in one option anywhere), ways of stating the requirement, force flag and file backends.",
  "Only the accepting cases are tested, with Bool(); no test loads with a non-matching requirement.",
  [FR], [("load requirement checks", FR)], ["dsch.load(required_schema, required_schema_hash, force)"]),
P("C12", "Pseudo-storages give uniform access to storages and nodes",
  "A pseudo-storage opened on a path loads the existing storage or creates a new one with the primary schema, and opened on a node gives that node; it opens if and only if the actual schema is the primary one or one of the alternatives (given as schema or hash), and reports the actual schema. "
  "While open it gives access to the data; closing it saves a managed storage exactly as edited and then withdraws access, and it can be reopened; a node it was given is never saved or closed by it.",
  ["histories", "configurations", "inputs"], "Over all histories of open/edit/close/with-blocks, path and node targets, primary and alternative schemas, on all backends.",
  "Tests open and close once and never edit data through the object, reopen it or check what was saved.",
  [FR], [("PseudoStorage.open/close/_verify_schema", FR)], ["PseudoStorage.data/storage/schema_node", "file content"]),
P("C13", "Storages are created and loaded at exactly the given path",
  "Creating a storage on an existing path and loading from a missing path are refused, leaving the file system as it was; otherwise saving writes exactly the given path and no other file, "
  "and the same path and backend load it again. The backend is chosen from the path's ending (or the in-memory marker) unless one is named, and a path without a known ending is refused.",
  ["inputs", "configurations", "histories"], "Over all paths (with and without known endings, several dots, directories, neighbours with similar names), named and detected backends, existing and missing files.",
  "Tests only use paths ending in the backend's own name and never look at other files in the directory.",
  [FR, ST, NP, MT, H5], [("_autodetect_backend", FR), ("existence checks", ST), ("_save", NP), ("_save", MT)],
  ["dsch.create()", "dsch.load()", "storage.save()", "directory listing"]),
P("C14", "Emptiness and completeness reflect exactly what is filled",
  "An item is empty exactly when it holds no value, and then reading it raises the empty-node error; a compilation or list is empty exactly when everything below it is empty. An item is complete when filled, a list when all its entries are, and a compilation when all its "
  "non-optional fields are; clearing returns an item or compilation field to empty and removes all entries of a list, also after reloading.",
  ["inputs", "programs", "histories"], "Over all schema trees (including optionals and nested lists), all fill patterns, all clear operations, on all backends, before and after save/load.",
  "Tests check two-field compilations and lists with one element; nested combinations with optionals and the state after reload are not sampled.",
  [DA, ST], [("empty/complete/clear", DA), ("Storage.complete", ST)], ["node.empty", "node.complete", "storage.complete", "node.clear()"]),
P("C15", "The data tree is an exact image of the data",
  "The exported data tree has exactly the structure of the data: dictionaries with the field names, lists in order, and the current values; empty fields and list entries are left out, or included as None when asked for. "
  "Putting the exported tree back into an empty storage of the same schema reproduces the data.",
  ["inputs", "programs"], "Over all schema trees and fill patterns, with and without empty fields, at every node, on all backends.",
  "Tests export a two-field compilation and a one-element list of one type at a time.",
  [DA], [("data_tree", DA), ("replace", DA)], ["node.data_tree()", "node.replace()"]),
P("C16", "Refused operations leave the data untouched",
  "Assigning to a field or list position itself instead of its value is always refused with an error naming it, whatever the name and whether or not it exists. This and every other refused operation (assigning an item a value, or appending a list entry, that the backend rejects, loading from "
  "an incompatible node, reading an empty node, a failing validation) leaves all data exactly as it was and the storage usable.",
  ["inputs", "histories", "fault_sequences"], "Over all schema trees and data states and every kind of refused operation at every node, on all backends.",
  "Tests assert that an exception is raised for one name or index; the data is never compared before and after.",
  [DA, H5, NP], [("__setattr__/__setitem__ guards", DA), ("replace", H5), ("replace", NP), ("load_from check", DA)],
  ["compilation.field = x", "list[i] = x", "node.value = bad", "node.load_from(other)"]),
P("C17", "Files are readable and writable without dsch in a stable layout",
  "Files written by dsch can be opened with the plain HDF5, npz or MATLAB library and hold the schema JSON and every value under the established names and encodings. Files produced with the plain library in that layout, "
  "including all files written by earlier releases, load with dsch to exactly those values.",
  ["inputs", "programs"], "Over all schema trees and data, in both directions, for the three file formats.",
  "Round-trip tests cannot see a layout change made to writer and reader alike; the few tests that look at raw files use two booleans.",
  [NP, H5, MT], [("names and encodings", NP), ("names and encodings", H5), ("names and encodings", MT)],
  ["h5py.File", "numpy.load", "scipy.io.loadmat", "dsch.load()"]),
P("C18", "Automatic timestamps are set on creation and only then",
  "A date, time or date-time field configured for it is set to the current moment when its node is created (with the storage, or with a new list entry), and no other field is filled automatically. Afterwards it behaves like any other field: it keeps its value across "
  "saving, loading, validating and further edits, it can be replaced or cleared, and a cleared one stays empty after reloading.",
  ["histories", "inputs"], "Over all schema trees with any mix of automatic and plain fields, and all histories of creating entries, clearing, saving and loading, on all backends.",
  "Tests look at a fresh node only; none saves, reloads, clears or copies an automatic field.",
  [DA, H5, NP], [("_init_new of Date/DateTime/Time", DA), ("_init_from_storage of absent fields", DA)],
  ["node.value", "node.empty", "dsch.load()"]),
P("C19", "The printed tree shows every node with its current state",
  "The printed representation of any node or storage content is always available, shows every field and list entry of the tree exactly once under its name or index and in its nesting, with its type, and shows the current value with unit (arrays: the shape) or that it is empty. It is the same on all backends.",
  ["inputs", "programs"], "Over all schema trees and fill patterns, on all backends.",
  "No test looks at the printed representation at all.",
  [DA], [("node_tree/__repr__", DA)], ["repr(node)", "node.node_tree()"]),
P("C20", "Array fields support element access and resizing like plain arrays",
  "Reading and writing elements and slices of an array field acts like the same operation on a plain array of the current value; resizing keeps every element whose position exists in both shapes and fills new positions with zero; a negative size or another number of dimensions is refused. The result is what is read back, validated and saved, on every backend, and only that field changes: not the array that was assigned to it, nor another field assigned from the same array.",
  ["histories", "inputs"], "Over all numeric arrays of one or more dimensions and all histories of element/slice reads and writes, resizes, replacements and save/load, on all backends.",
  "Tests resize a one-element vector and write three fixed slices.",
  [DA, H5, NP, IM], [("__getitem__/__setitem__/resize", DA), ("Array datasets", H5)],
  ["node[key]", "node[key] = x", "node.resize()", "node.value"]),
P("C21", "Every node is reached by its name or index and knows its place",
  "Each field of a compilation is available as an attribute and listed by dir() under its name, each list entry by its positive or negative index, by slicing and by iterating, in order; names and indices that do not exist give AttributeError or IndexError. "
  "Every node's parent is the node that contains it and its schema node is the one of its place. This holds after creating, editing, copying, saving and reloading, and a reference kept to a field still shows the field's current data.",
  ["inputs", "histories"], "Over all schema trees with any field names and all histories of edits, copies, saves and reloads, on all backends.",
  "Tests access one or two fields of a fresh node; none checks parents, unknown names, slices, or references kept over edits.",
  [DA, H5, NP, IM], [("Compilation.__getattr__/__dir__", DA), ("List.__getitem__/__len__", DA), ("data_node_from_schema", DA)],
  ["getattr(node, name)", "dir(node)", "list[i]", "node.parent", "node.schema_node"]),
P("C22", "Storages in one process do not affect each other",
  "Any number of storages can be used at the same time, also when they were created from the very same schema object or hold copies of the same data. Editing, saving, copying from, reloading or dropping one of them changes neither the data, the schema nor the file of any other, nor the schema object it was created from, and schemas built or loaded separately share nothing.",
  ["histories", "inputs"], "Over all schema trees, all mixes of backends and all interleavings of operations on several storages.",
  "Every test uses one storage, or two for a single copy.",
  [DA, H5, NP, IM, FR, SC], [("node state", DA), ("item storage", NP), ("create/save_as", FR)],
  ["dsch.create()", "dsch.load()", "storage.save_as()", "node.load_from()"]),
P("C23", "A schema behaves the same wherever it is embedded",
  "Using a schema as part of a broader schema (as a field of a compilation or an entry of a list, at any depth) gives a node that behaves exactly like a storage of that schema on its own: the same results of all operations, data tree, printed tree, schema hash and validation, with error paths prefixed by the place, also after saving and reloading. Data can be copied between the two in both directions, the node can be used through a pseudo-storage of the schema, and nothing around it is affected.",
  ["inputs", "histories"], "Over all schemas, all broader schemas around them, all data (also invalid) and histories of edits, on all backends.",
  "Tests use the schema extension with one fixed pair of schemas, and look at which node is returned only.",
  [DA, H5, NP, MT, FR], [("nodes are created recursively", DA), ("top-level and nested storage", H5), ("top-level and nested storage", NP)],
  ["node.data_tree()", "node.validate()", "node.load_from()", "dsch.PseudoStorage"]),
P("C24", "Schemas hold exactly the given configuration or are refused",
  "A schema built with any documented arguments (by position, by keyword, or left out for the default) has exactly this configuration: unset options restrict nothing, and the number of dimensions of an array is that of its shape limits. Neither building, using nor storing a schema changes it or its arguments. "
  "Contradictory array configurations (shape limits of different lengths, another number of independent variables than dimensions) are refused with an error, also when restoring a description.",
  ["inputs", "configurations"], "Over all schema trees, all forms of giving the arguments, all uses, and all contradictory array configurations.",
  "Tests pass keyword arguments one at a time and look at the attributes once; the refused combinations are sampled once each.",
  [SC, ST], [("constructors", SC), ("from_dict", SC)],
  ["schema.Array(...) and the other node types", "node attributes", "schema.node_from_dict()"]),
]
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
