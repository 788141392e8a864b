# Executed by props.py. One call per property.
GEN = "property-based testing (hypothesis, shrinking): "
EXPL = ("Exploration: holds on every generated case of the run (counts in the evidence file); seeds derive from "
        "VERIF_SEED. Trusts Python, hypothesis and the independent oracle in vlib. ")

prop("P01", "An object reloaded from JSON carries the same data",
     "For every object, writing it to its dict form, a JSON text, a file or a stream, with or without pointers, and "
     "reading it back gives an object of the same class, equal to the original, whose data are the same field by "
     "field at every depth: numbers exactly, texts (unless they are the full path of an importable class), sequences "
     "in order, tuple arguments as tuples, dictionaries, measures with their unit, classes, None, keyword-only "
     "arguments and names. Objects of equal data inside one object may come back as one of them. Doing it twice "
     "changes nothing more.",
     ["inputs"], "every graph of objects (shared, nested in lists, tuples, dictionaries), every channel",
     "The tests reload a handful of model objects and mostly compare with the library's own equality; shared or "
     "look-alike objects in containers and unusual texts and numbers are not sampled.",
     [D + "serialization.py", D + "core.py", D + "measures.py", D + "utils/types.py"],
     [("serialization with and without pointers", D + "serialization.py: serialize, serialize_with_pointers"),
      ("deserialization", D + "serialization.py: dict_to_object, deserialize, dereference_jsonpointers"),
      ("files and streams", D + "core.py: save_to_file, save_to_stream, from_json, from_json_stream")],
     GEN + "round trip of generated object graphs against an independent structural oracle",
     EXPL + "Oracle: structural canonical form computed from the instances' attributes, not the library's equality.",
     ["to_dict", "dict_to_object", "save_to_file", "from_json"])

prop("P02", "Sharing survives serialization and references resolve",
     "In the form with pointers, every reference leads to one entry of the table of references, references are never "
     "circular, following them gives the pointer-free form, and an object stored on its own is never embedded. After "
     "reloading, an object that was used at several places is one instance used at these places, and objects with "
     "different data are different instances.",
     ["inputs"], "every graph of objects, embedded or stored on their own, with or without shared instances",
     "A few fixed layouts are tested; the rewriting of first occurrences depends on the order and nesting of the "
     "occurrences.",
     [D + "serialization.py", D + "utils/helpers.py"],
     [("memo of serialized objects", D + "serialization.py: serialize_with_pointers, add_references"),
      ("order of dereferencing", D + "serialization.py: pointer_graph, deserialization_order")],
     GEN + "generated sharing patterns; identity relation before/after and reference resolution by an independent walker",
     EXPL + "Equal-data objects may be merged (equality is data equality), different ones never.",
     ["to_dict(use_pointers=True)", "dict_to_object"])

prop("P03", "The serialized form is plain, complete and detached JSON",
     "The serialized form of any object only holds JSON values, with the class and every public attribute of every "
     "object and none of its private or excluded attributes; what JSON cannot hold is refused. Serializing does not "
     "change the object, reading a form does not change the form, and afterwards changing the form, the object or the "
     "reloaded object never changes the others.",
     ["inputs"], "every object graph, with numpy numbers, private, excluded and computed attributes",
     "Tests check forms of fixed objects and never mutate one side to look at the other.",
     [D + "serialization.py", D + "core.py"],
     [("attribute selection", D + "serialization.py: _serializable_dict, to_dict"),
      ("value serialization", D + "serialization.py: serialize, serialize_with_pointers")],
     GEN + "comparison with an independently computed form; mutation of one side as a metamorphic relation",
     EXPL + "Oracle: form recomputed from the attributes.", ["to_dict"])

prop("P04", "Equality and hash follow the data",
     "Two objects are equal exactly when they are of the same class and hold the same data, names and declared "
     "neutral attributes left aside, whatever the order of dictionary keys; equality is reflexive, symmetric, gives a "
     "boolean against any value, and equal objects have equal hashes. Classes declared with identity equality are "
     "only equal to themselves.",
     ["inputs"], "every pair of object graphs that are identical or differ by a local change, including pairs built "
     "to have colliding hashes",
     "Hash only samples ends of containers, so wrong equality only shows on colliding data, which tests do not build.",
     [D + "core.py", D + "utils/diff.py"],
     [("equality", D + "core.py: __eq__, data_eq, dict_data_eq, sequence_data_eq"),
      ("hash", D + "core.py: _data_hash; " + D + "utils/diff.py: choose_hash")],
     GEN + "generated pairs with mutations and built collisions against structural comparison",
     EXPL + "Values are on a grid, so that the float tolerance never decides.", ["==", "hash"])

prop("P05", "Copies are equal and independent",
     "Copying any object gives a new object of the same class, equal to it, with the same data and name, including "
     "keyword-only arguments and the nature of sequences. A deep copy shares no list, dictionary or object with its "
     "original, keeps the sharing there was inside it, and changing it never changes the original; reassigning "
     "attributes of a shallow copy never changes the original.",
     ["inputs"], "every object graph, through every way of copying",
     "Tests copy a few objects and compare with ==.",
     [D + "core.py", D + "utils/copy.py"],
     [("copies", D + "core.py: copy, __copy__, __deepcopy__"), ("values", D + "utils/copy.py: deepcopy_value")],
     GEN + "structural comparison, identity disjointness and mutation of the copy",
     EXPL + "Equal-data objects inside one object may become one.", ["copy"])

prop("P06", "A diff reports exactly what differs",
     "The diff of two objects or values is empty exactly when their data are the same. Otherwise it reports each "
     "deepest place where they differ and no other, by its path, with the first's value then the second's, or the "
     "side where a key is missing.",
     ["inputs"], "every pair of objects or nested containers, identical or with local changes",
     "Tests look at one or two dictionaries.",
     [D + "utils/diff.py", D + "core.py"],
     [("diff", D + "utils/diff.py: diff, dict_diff, sequence_diff")],
     GEN + "reported entries checked one by one against the two structures, and coverage of an independent difference",
     EXPL + "Builtin values, on a grid.", ["_data_diff", "utils.diff.diff"])

prop("P07", "A path designates one place, to read and to write",
     "For every object, each path made of attribute names, indices and keys leads to the very value at that place, "
     "and in a serialized form references met on the way are followed. Setting a value at a path changes that place "
     "and nothing else; a path leading nowhere is refused.",
     ["inputs"], "every object graph and every path in it, with integer and pair keys",
     "Tests read a few paths of fixed objects.",
     [D + "utils/helpers.py"],
     [("paths", D + "utils/helpers.py: get_in_object_from_path, set_in_object_from_path, extract_segment_from_object")],
     GEN + "every path of generated graphs against direct navigation",
     EXPL, ["_get_from_path", "get_in_object_from_path", "set_in_object_from_path"])

prop("P08", "A filter keeps exactly the elements that satisfy it",
     "Applying a filter, whatever its comparison operator, to any list of objects keeps exactly the objects whose "
     "attribute, reached by its path, compares to the bound, the same instances and in their order; filters combined "
     "by 'and' or 'or' keep the objects satisfying all or any of them, and 'xor' of two filters those satisfying "
     "exactly one. It is so through the filters themselves, reloaded filters, the workflow block and datasets; filters "
     "are equal when they ask the same, their text tells each of them, and an unknown logical operator is refused.",
     ["inputs"], "every list of objects and every combination of filters",
     "Tests filter one list of cars with a few filters.",
     [D + "core.py", D + "datatools/dataset.py", D + "workflow/blocks.py"],
     [("filters", D + "core.py: DessiaFilter, FiltersList"), ("datasets", D + "datatools/dataset.py: filtering"),
      ("block", D + "workflow/blocks.py: Filter.evaluate")],
     GEN + "a naive reference filter", EXPL, ["DessiaFilter", "FiltersList", "Dataset.filtering", "Filter block"])

prop("P09", "Annotations written as text are read back the same",
     "Writing any supported annotation as text and reading it gives the same annotation, however it nests builtins, "
     "classes, measures, files, lists, dictionaries, tuples of fixed or any length, unions, literals (whatever the "
     "letters, spaces, commas and brackets of their choices), instance, class, method and attribute types; an optional "
     "annotation is written as the one it holds. Two different annotations never have the same text, and the text for "
     "humans is the same without the modules.",
     ["inputs"], "every nesting of supported annotations",
     "Tests enumerate about twenty annotations.",
     [D + "schemas/core.py", D + "typings.py", D + "utils/helpers.py"],
     [("text", D + "schemas/core.py: serialize_annotation, deserialize_annotation, extract_args, *Property.serialized"),
      ("members", D + "typings.py: MethodType, AttributeType")],
     GEN + "round trip", EXPL, ["serialize_annotation", "deserialize_annotation", "pretty_annotation"])

prop("P10", "Types match when values of the first are acceptable as the second",
     "A type matches itself, Any, a parent class, float for int, a union holding a type it matches (or, for a union, "
     "all its members), and lists, dictionaries and tuples match when their arguments do, tuples having the same "
     "length unless the expected one has any length; being optional changes nothing. Otherwise types do not match, and "
     "the connections a workflow proposes between its variables are exactly the matching ones.",
     ["inputs"], "every pair of nested types; every set of typed variables",
     "Tests enumerate about thirty pairs.",
     [D + "utils/types.py", D + "workflow/core.py"],
     [("match", D + "utils/types.py: typematch, heal_type"), ("workflow", D + "workflow/core.py: match_variables")],
     GEN + "a reference matching on the recipes of the types",
     EXPL + "Unions are of classes; a container against a union is left out.", ["typematch", "match_variables"])

prop("P11", "A schema says what a class or a method takes",
     "The schema of any class or method lists its arguments in order, each once, with their type, serialized "
     "annotation, description from the docstring, allowed choices, unit, items, classes, and whether they are "
     "standalone; its default dictionary holds, for each, the declared default, serialized, or what stands for none. "
     "The schema is reported invalid exactly when a declaration cannot be handled: mutable default, dictionary with "
     "keys that are not texts or values that are not builtins, union mixing standalone classes and others.",
     ["inputs"], "every signature made of supported annotations, with or without defaults and descriptions",
     "Tests look at the schemas of the classes of forms.py.",
     [D + "schemas/core.py", D + "core.py"],
     [("schemas", D + "schemas/core.py: MemberSchema, SchemaStep, *Property.to_dict, default_value, check_list"),
      ("defaults", D + "schemas/core.py: split_default_args")],
     GEN + "generated signatures, whose recipe is the oracle", EXPL,
     ["ClassSchema", "MethodSchema", "method_dict", "default_dict"])

prop("P12", "Serialized arguments become what the method expects",
     "The arguments of a method, serialized and sent through JSON, are given back with the types its annotations "
     "announce and the same data: builtins, whole numbers where a float is expected, measures, classes, objects of the "
     "annotated class, of a child of it or of a union, lists, tuples of fixed or any length, optional values. Arguments "
     "which are not sent are left to their defaults, and a builtin of the wrong type is refused.",
     ["inputs"], "every nesting of annotations, and values for it",
     "Tests deserialize the arguments of a few methods.",
     [D + "serialization.py", D + "core.py"],
     [("arguments", D + "core.py: dict_to_arguments"),
      ("values", D + "serialization.py: deserialize_argument, deserialize_with_typing")],
     GEN + "round trip of generated typed values", EXPL + "Names of equal objects may be merged.",
     ["dict_to_arguments", "deserialize_argument"])

prop("P14", "An object written to Excel is there whole, and comes back",
     "For any object made of numbers, texts, booleans, lists of them, other objects (nested, shared, equal), and lists, "
     "dicts or sets of objects of a class met nowhere else, the workbook it writes reads back to an equal object with its "
     "names. The workbook has the object on its first sheet and one sheet per class with one row per distinct sub-object "
     "(named by a shortest path to it, as breakdown gives), its values (floats to 6 decimals) under their attributes, and "
     "links that lead to the rows of the objects. Catalogs read as the objects of their rows, wrong ones are refused.",
     ["inputs"], "every object of the supported kinds and every catalog",
     "Tests write and read one object.",
     [D + "exports.py", D + "excel_reader.py", D + "breakdown.py"],
     [("write", D + "exports.py: XLSXWriter"), ("read", D + "excel_reader.py: ExcelReader.read_workbook, read_catalog"),
      ("paths", D + "breakdown.py: breakdown")],
     GEN + "round trip through workbooks, which are also read with openpyxl and compared with the object",
     EXPL + "Attributes are annotated; texts are not empty (but names) and hold no control character; dict keys hold no dot.",
     ["XLSXWriter", "ExcelReader", "breakdown"])

prop("P15", "Exports hold the object they are made from",
     "For any object, every export it declares (its own decorated methods, json, xlsx, docx, archive) is proposed once, "
     "saved under the asked name with its extension once, is the same by file and by stream, and holds what its method "
     "writes; the archive holds every other export, each under its own name. Markdown tables show each row once, in "
     "order, or tell how many are not shown; an object's table shows each attribute with its type and value; documents "
     "made from markdown or part by part hold the headings with their level, the texts and the tables in order, and "
     "their headers and footers.",
     ["inputs"], "every object, table and markdown text",
     "Tests export a handful of objects and hardly look at the files.",
     [D + "core.py", D + "exports.py", D + "document_generator.py"],
     [("formats", D + "core.py: _export_formats, save_export_to_file, to_zip_stream"),
      ("tables", D + "exports.py: MarkdownWriter._content_table, matrix_table, object_table"),
      ("documents", D + "document_generator.py: DocxWriter.from_markdown")],
     GEN + "files read back with independent readers (zipfile, json, openpyxl, python-docx)",
     EXPL + "Cells with '|', limits of tables below two, control characters are not generated.",
     ["exports", "MarkdownWriter", "DocxWriter"])

prop("P16", "Files held in memory keep their content, name and class",
     "For any text or bytes, a file in memory, its copy, the file read from the disk or from a stream, and what is "
     "written of it hold exactly the same content under the expected name and class, read from the start; a copy shares "
     "nothing; two files are equal exactly when they are both texts or both binary with the same content and name, and "
     "templates are saved whole under a name with their extension.",
     ["inputs"], "every content, name, class of file and position",
     "Tests open a few fixed files.",
     [D + "files.py"],
     [("copy and equality", D + "files.py: copy, __eq__, __hash__"),
      ("reading and templates", D + "files.py: from_file, from_stream, save_template_to_file")],
     GEN + "the content and the names themselves, in a scratch folder", EXPL, ["BinaryFile", "StringFile"])

prop("P17", "Running a workflow computes what its blocks and pipes say",
     "For any workflow of blocks, pipes, non block variables and inner workflows, a run gives to each block the values "
     "its pipes, inputs and default values say, evaluates each block the output needs exactly once and after those it "
     "depends on, and its output is the value of the output variable; arguments sent through JSON give the same run. "
     "A run that lacks the value of a needed input is refused, it never computes with something else.",
     ["inputs"], "every workflow, and every set of input values",
     "Tests run a dozen fixed workflows.",
     [D + "workflow/core.py", D + "workflow/blocks.py"],
     [("run", D + "workflow/core.py: Workflow.run, WorkflowState.continue_run, _evaluate_block"),
      ("blocks", D + "workflow/blocks.py: evaluate of each block"),
      ("arguments", D + "workflow/core.py: Workflow.dict_to_arguments")],
     GEN + "a reference interpreter of workflow recipes",
     EXPL + "Up to 12 blocks, inner workflows up to two levels deep.",
     ["Workflow.run", "Workflow.dict_to_arguments", "run_from_value"])

prop("P18", "The order in which a run is fed, stepped, saved and resumed is immaterial",
     "Whatever the sequence of input values given one by one or block by block, evaluations of a block, of the next "
     "block or of all that can be, copies and reloads of the state through JSON, a block is evaluated at most once and "
     "only when its inputs are known, progress follows the evaluated blocks, and the run that comes out "
     "has the same output as a direct run. A copy of a state, or another state of the same workflow, and the original "
     "do not influence each other. Files are not saved with a state nor compared: once reloaded it is equal, and given its "
     "files again it ends the same.",
     ["histories"], "every workflow and every sequence of operations on its state",
     "Tests step through one or two workflows in one order.",
     [D + "workflow/core.py"],
     [("stepping", D + "workflow/core.py: WorkflowState.add_input_value, add_block_input_values, evaluate_next_block, "
       "block_evaluation, continue_run, to_workflow_run"),
      ("persistence", D + "workflow/core.py: WorkflowState.to_dict, dict_to_object, copy")],
     GEN + "histories of operations against a model of what is known and evaluated",
     EXPL + "Histories of up to 25 operations.", ["WorkflowState", "WorkflowRun"])

prop("P19", "Locked inputs keep their value, others use their default unless given one",
     "In a run, an input that is given no value uses its default value, one that is given a value uses it, and a "
     "locked one uses its locked value whatever is given, also inside inner workflows. The default dictionary of "
     "the run method tells exactly these defaults, arguments sent for a locked input are dropped, and locking a "
     "variable that has no value is refused.",
     ["inputs", "histories"], "every workflow with default and locked values, every set of given values",
     "Tests lock one input of one workflow.",
     [D + "workflow/core.py"],
     [("variables", D + "workflow/core.py: Variable.lock, unlock"),
      ("run", D + "workflow/core.py: Workflow.run, method_dict, dict_to_arguments")],
     GEN + "a reference interpreter, and a model of a variable", EXPL,
     ["Workflow.run", "Workflow.method_dict", "Variable.lock"])

prop("P20", "A workflow reloaded or copied is the same workflow, a changed one is not",
     "A workflow sent through JSON or copied is equal to the first one, serializes the same and gives the same runs: "
     "blocks with their parameters and positions, pipes, output, names, labels, types, default values, locks, steps, "
     "description and documentation. Two workflows that differ by a parameter of a block, a pipe, the output, a "
     "default value or a lock are not equal.",
     ["inputs"], "every workflow, and every single change to it",
     "Tests reload a dozen fixed workflows.",
     [D + "workflow/core.py", D + "workflow/blocks.py"],
     [("persistence", D + "workflow/core.py: Workflow.to_dict, dict_to_object, copy; blocks' dict_to_object"),
      ("equality", D + "workflow/core.py: Workflow._data_eq; blocks' equivalent, equivalent_hash")],
     GEN + "round trip and copy, and single mutations of the recipe", EXPL,
     ["Workflow.to_dict", "Workflow.dict_to_object", "copy", "=="])

prop("P21", "The script of a workflow makes the same workflow when executed",
     "The Python script written for any workflow can be executed and makes an equal workflow, that gives the same "
     "runs: blocks, pipes, output, inner workflows, names, labels and documentations whatever their letters, types of "
     "variables, and default and locked values made of builtins. The script of a run whose inputs are builtins makes "
     "the same run, and writing a script changes nothing.",
     ["inputs"], "every workflow, every text, every type of variable, every run with builtin values",
     "Tests compare the script of one workflow with an expected text, without executing it.",
     [D + "workflow/core.py", D + "workflow/blocks.py", D + "workflow/utils.py", D + "schemas/core.py"],
     [("workflow", D + "workflow/core.py: Workflow.to_script, WorkflowRun.to_script; blocks' _to_script"),
      ("inputs", D + "workflow/utils.py: blocks_to_script, nonblock_variables_to_script, generate_default_value"),
      ("imports", D + "schemas/core.py: get_import_names, pretty_annotation")],
     GEN + "round trip through the execution of the script", EXPL, ["Workflow.to_script", "save_script_to_stream"])

prop("P22", "Displays and exports of a run are those of the values it computed",
     "Each display block and each export block of a workflow gives one display setting or export format, with its own "
     "selector, and the display or the file it gives on a run is the one of the value that reaches the block: views, "
     "samples referring to the right objects, texts, binary files, archives. It is so however many times and in "
     "whatever order they are asked, on the run, on a copy or reloaded through JSON, on a state, and asking does not "
     "change the run. The text of a run or a state tells its names, how far it is, each block that was evaluated and the "
     "output of a run, whatever it is, and its archive holds the files of its exports.",
     ["inputs", "histories"], "every workflow with display and export blocks, every order of requests",
     "Tests display and export the run of a few fixed workflows, just after it.",
     [D + "workflow/core.py", D + "workflow/blocks.py", D + "files.py"],
     [("branches", D + "workflow/core.py: secondary_branch_blocks, branch_by_selector, evaluate_branch, block_display, export"),
      ("memory", D + "workflow/core.py: memorized_pipes, WorkflowRun.to_dict, dict_to_object"),
      ("blocks", D + "workflow/blocks.py: Display, MultiPlot, MultiObject, Export, Archive")],
     GEN + "a reference interpreter of the recipes, over sequences of requests, copies and reloads",
     EXPL + "Selectors of display blocks are different, as they have to be.",
     ["WorkflowRun.block_display", "WorkflowRun.export", "display_settings", "blocks_export_formats"])

prop("P23", "Each input is at one place of the form of a workflow, whatever its history",
     "Through any sequence of editions of the steps of a workflow (inserting, removing, reordering, renaming and "
     "documenting steps, moving, removing and reordering inputs, adding and removing displays, renaming, locking and "
     "setting defaults of inputs, copying, reloading), each input is in exactly one step or left out of them, steps have "
     "the expected inputs in order, labels, documentations and displays, the form tells the same, and a refused edition "
     "changes nothing. A display is offered to a step when no later step has an input it needs, adding it brings these "
     "inputs, and what it shows is computed from the values given. Two forms that differ are not equal, copies and "
     "reloads are.",
     ["inputs", "histories"], "every workflow and every sequence of editions",
     "Tests edit one workflow with a few fixed sequences.",
     [D + "workflow/core.py"],
     [("steps", D + "workflow/core.py: insert_step, remove_step, reorder_steps, change_input_step, "
                    "remove_input_from_step, reorder_step_inputs"),
      ("displays", D + "workflow/core.py: add_step_display, compute_step_display, displayable_display_settings"),
      ("form", D + "workflow/core.py: method_schemas, copy_step; Step")],
     GEN + "a list model of the form, and the reference interpreter for displays, over sequences of editions",
     EXPL + "The order of the inputs left out of steps, and of those a display brings, is free.",
     ["Workflow steps", "method_schemas"])

prop("P24", "A workflow tells its own structure right",
     "For any workflow, the address of a variable leads to it and to the same variable of copies and reloads, and so do "
     "indices of inputs and pipes; the blocks and inputs needed by an output or a block, the branches, the blocks and "
     "variables the output does not need, the pipes of a block or between two, are exactly those of its wires, each once. "
     "Its layout shows each block and shared variable once, connected ones together, each on the left of those it feeds. "
     "Variables that can be wired, and only they, match.",
     ["inputs"], "every workflow",
     "Tests ask a few questions to a dozen workflows.",
     [D + "workflow/core.py", D + "graph.py"],
     [("addresses", D + "workflow/core.py: variable_indices, variable_from_index, input_index"),
      ("wires", D + "workflow/core.py: runtime_blocks, upstream_branch, upstream_inputs, block_upstream_variables, "
                    "pipes_between_blocks"),
      ("layout", D + "workflow/core.py: layout; graph.py: get_column_by_node"),
      ("matches", D + "workflow/core.py: match_variables")],
     GEN + "the wires of the generated recipe", EXPL + "Which types match is decided by P10.",
     ["Workflow queries", "layout", "match_variables"])

prop("P25", "Each block gives what it announces, every time",
     "For any kind of block and any parameters, the inputs and outputs have the names, types, defaults and documentation "
     "of the arguments and results they stand for, however deep in inner workflows and loops, and evaluated on any "
     "values the block gives what it announces: the "
     "object, the result of the method, the sequence, product, sum, text, attribute, view, file or archive. Evaluated again, "
     "or alone in a workflow, copied, reloaded or made by its script, it gives the same, and changes neither itself nor "
     "its values, but the model whose attribute is set. Blocks of one kind are equivalent exactly when their parameters "
     "are the same.",
     ["inputs"], "every kind of block, parameters and values",
     "Tests evaluate a few blocks in fixed workflows.",
     [D + "workflow/blocks.py"],
     [("blocks", D + "workflow/blocks.py: evaluate, __init__, equivalent, dict_to_object, _to_script of each block"),
      ("variables", D + "workflow/blocks.py: _method_inputs, output_from_function")],
     GEN + "direct calls of the same classes and methods", EXPL + "Deprecated display blocks are left out.",
     ["workflow blocks"])

prop("P26", "Through any history, a dataset is its objects and the table of their features",
     "Whatever the sequence of slicing, picking by booleans or indices, filtering, sorting, adding and extending, and "
     "whenever its table was read before, a dataset holds exactly the expected objects in order, its common attributes "
     "are the features shared by all of them, and its matrix, columns, attribute values, sub matrices, items and "
     "iteration are read on them; the data sets it was made from are unchanged, except by sorting and extending, and "
     "keys of another kind or length are refused. Its "
     "text shows every object, or the first and last five, and its plots have one point per object with its values and "
     "its path, and one axis per common attribute.",
     ["inputs", "histories"], "every list of objects of several classes and every sequence of operations",
     "No unit test covers data sets; one script clusters one list of cars.",
     [D + "datatools/dataset.py"],
     [("list and table", D + "datatools/dataset.py: __getitem__, __add__, extend, sort, filtering, matrix, "
                             "common_attributes"),
      ("text", D + "datatools/dataset.py: __str__"),
      ("plots", D + "datatools/dataset.py: plot_scatter_matrix, plot_parallel_plot")],
     GEN + "a list model, over sequences of operations",
     EXPL + "Indices pick objects in the order of the data set, as the repository's own script expects. The order of "
            "the columns is only decided for objects of one class.", ["Dataset"])

prop("P27", "Statistics and distances are those of the values",
     "Means, variances, standard deviations, covariances, norms, Manhattan, Euclidean, Minkowski and Mahalanobis "
     "distances are what their definitions give on any vectors, and so are, feature by feature and object by object, "
     "the means, variances, deviations, covariance matrix, distance matrix and normalized singular values of a dataset.",
     ["inputs"], "every vectors and every list of objects with features",
     "No unit test covers them.",
     [D + "datatools/metrics.py", D + "datatools/dataset.py"],
     [("vectors", D + "datatools/metrics.py"), ("table", D + "datatools/dataset.py: mean, variances, "
                                                "standard_deviation, covariance_matrix, distance_matrix, singular_values")],
     GEN + "exact rational arithmetic, and eigenvalues for singular values",
     EXPL + "Within floating point tolerance, numbers up to 1e6.", ["metrics", "Dataset statistics"])

prop("P28", "Pareto points are the points no other one dominates",
     "For any costs, the Pareto points of a dataset are exactly the objects that no other one equals or betters on all "
     "costs while bettering one, in their order; each next sheet is the same on the objects left by the previous ones, "
     "the sheets and what remains being the objects given, each once. Clusters made of the sheets label each object "
     "with the number of its sheet.",
     ["inputs"], "every list of points, with ties, equal points, constant costs and large offsets",
     "No unit test covers them.",
     [D + "datatools/dataset.py", D + "datatools/cluster.py"],
     [("points", D + "datatools/dataset.py: pareto_indexes, pareto_points, pareto_sheets"),
      ("clusters", D + "datatools/cluster.py: from_pareto_sheets")],
     GEN + "the definition of dominance, by brute force", EXPL, ["pareto_indexes", "pareto_points", "pareto_sheets"])

prop("P29", "Clusters keep each object with its label",
     "Whatever the sequence of slicing, picking, filtering, sorting and reloading, each object of a clustered dataset "
     "keeps its label, and its sublists, their names and labels, means, distances to the mean, real centroids, points, "
     "families of points and text are those of the objects of each label, whatever the labels are. Clusterings keep the "
     "objects in order, find groups that are far apart, scaled or not, and density clustering follows its definition.",
     ["inputs", "histories"], "every labelled list of objects and every sequence of operations",
     "One script clusters one list of cars and picks two results.",
     [D + "datatools/cluster.py", D + "datatools/dataset.py"],
     [("labels", D + "datatools/cluster.py: _pick_from_slice, _pick_from_boolist, clustered_sublists"),
      ("centroids", D + "datatools/cluster.py: mean_clusters, cluster_distances, cluster_real_centroids"),
      ("clustering", D + "datatools/cluster.py: from_kmeans, from_agglomerative_clustering, from_dbscan")],
     GEN + "a list model of labelled objects, separated groups and the definition of density clustering",
     EXPL, ["ClusteredDataset"])

prop("P30", "Optimizers answer within the bounds, with the cost of what they give",
     "For any problem with fixed parameters and bounded ones, optimizers give a model whose bounded attributes are within "
     "their bounds, whose fixed ones are as fixed, and whose cost is the one told; the gradient starts from the point it is "
     "given and reaches the optimum of convex problems, CMA then gradient is never worse than CMA, starts its polish where "
     "CMA ended. Values and their dimensionless form, normalized form, and equality up to a period, agree.",
     ["inputs"], "every set of bounds, fixed values and starting point",
     "Only a script, out of the test suite, runs two optimizations.",
     [D + "optimization.py", D + "core.py"],
     [("optimizers", D + "optimization.py: InstantiatingModelOptimizer"),
      ("bounds", D + "optimization.py: BoundedAttributeValue"), ("parameters", D + "core.py: Parameter, ParameterSet")],
     GEN + "convex problems of known optimum, inside the bounds or on them", EXPL + "Costs are quadratic.",
     ["optimization", "Parameter"])

prop("P31", "Generators give every valid leaf of their tree, once, and end",
     "For any decision tree, regular or not, any set of vectors and models that are not valid, the generator ends, gives "
     "exactly the leaves all of whose ancestors are valid (sorted and unique ones only, if asked), once, in order, and does "
     "not visit what is below a node that is not valid. Explored from leaves, a graph gives each node after those it leads "
     "to, and cycles are refused; longest paths are longest.",
     ["inputs", "histories"], "every tree and every choice of nodes that are not valid",
     "Only a script, out of the test suite, runs one tree of each kind.",
     [D + "generation.py", D + "graph.py"],
     [("trees", D + "generation.py: DecisionTreeGenerator.generate, RegularDecisionTreeGenerator.generate"),
      ("graphs", D + "graph.py: explore_tree_from_leaves, get_longest_path, get_paths_from_to")],
     GEN + "enumeration of the leaves of the generated tree", EXPL + "Up to 256 leaves.",
     ["generation", "graph helpers"])

prop("P32", "Interpolation gives values back, factors are complete, measures stay measures",
     "For any list, increasing or not, the place told of a value is the first one where interpolation gives it back; values "
     "out of it are refused, or put at the closest end if asked. All ways to write a number as two or three factors are "
     "told, once. Measures behave as their number, show it with their unit, and come back as the same measure from dicts, "
     "copies and files.",
     ["inputs"], "every list, value, number and measure",
     "Scripts, out of the test suite, try one list and one number.",
     [D + "utils/interpolation.py", D + "utils/algebra.py", D + "measures.py"],
     [("interpolation", D + "utils/interpolation.py"), ("factors", D + "utils/algebra.py"), ("measures", D + "measures.py")],
     GEN + "round trip of places and values, enumeration of factors", EXPL + "Numbers up to 46656.",
     ["interpolation", "algebra", "measures"])

prop("P33", "Platform checks tell what is wrong, displays show what methods give",
     "For any list of checks, those above a level are told and raise, others do not, and an object passes the platform check "
     "when it survives serialization, copy, BSON, displays and schemas, wherever what is wrong lies in it, and fails the "
     "right check otherwise. Values are BSON valid exactly when made of BSON types and keys. Each decorated display is "
     "proposed once, shows what its method gives, and its failure is told without hiding the others; graphs are drawn with "
     "each node and edge once.",
     ["inputs", "fault_sequences"], "every object, check list, value and graph",
     "Tests run the platform check on sound objects and look at no display data.",
     [D + "checks.py", D + "core.py", D + "displays.py", D + "decorators.py", D + "utils/types.py"],
     [("checks", D + "checks.py"), ("platform", D + "core.py: check_platform, is_valid"),
      ("BSON", D + "utils/types.py: is_bson_valid; core.py: stringify_dict_keys"),
      ("displays", D + "core.py: display_settings, _displays; displays.py"), ("graphs", D + "displays.py: networkx_to_visjs_data")],
     GEN + "objects with a fault injected at a drawn place, and independent oracles of validity",
     EXPL + "The structure tree display, computed out of the library, is not judged.",
     ["checks", "displays"])
