"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib
SD = "sd_mecha/"
MM = SD + "extensions/builtin/merge_methods/__init__.py"
CFG = SD + "extensions/builtin/model_configs/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

p("P01", "A merge computes every key exactly as the recipe says",
  "For every recipe graph, the output of a merge holds, under each key of the target model, exactly the value obtained by evaluating the recipe independently for that key: operators, literals (one value for all keys, or a dictionary with one value or one sub-recipe per key), merge methods that read other keys of a state dict, shared sub-recipes and the fallback model included. "
  "A key that some needed input does not provide is left out of the output (or taken from the fallback), and never stops, alters or borrows from the merge of any other key. "
  "No key outside of the target model appears in the output.",
  ["programs", "inputs"], "every acyclic recipe over any number of models, literals and merge methods, every set of present/missing keys per input, every key",
  "Existing tests cover a few fixed two-model merges with all keys present; arbitrary graph shapes, missing-key patterns and per-key dictionaries are unbounded.",
  [SD+"merging.py", SD+"recipe_nodes.py", SD+"extensions/merge_methods.py", MM],
  [("per-key recipe evaluation", "merging.py KeyMergeVisitor, MergeNodeWrapperStateDict"), ("operators", "recipe_nodes.py RecipeNode.__add__/__sub__/__or__"), ("missing keys", "merging.py _track_output, ErrorHolder; fallback merge method")],
  ["the mapping returned by merge() or the saved file"])

p("P02", "Threads, buffering and storage never change the result of a merge",
  "For every deterministic recipe, the merged tensors (keys, shapes, dtypes and bits) are the same whatever the number of threads, the thread interleaving, the total buffer size, whether each input is a file or an in-memory dictionary, and whether the output is a file or a dictionary. "
  "Every key is written exactly once, under its own name, with its own data.",
  ["schedules", "configurations", "inputs"], "every interleaving of the worker threads, every thread count >= 0, every buffer size >= 0, every combination of input and output storage",
  "Tests run one schedule with the default thread count and buffer; races between readers sharing a buffer or writers sharing a file show up only under particular interleavings and sizes.",
  [SD+"merging.py", SD+"streaming.py"],
  [("reader lock and read-ahead buffer", "streaming.py InSafetensorsDict._load_tensor/_ensure_buffer"), ("per-thread output buffers", "streaming.py OutSafetensorsDict"), ("executor choice", "merging.py merge, ThisThreadExecutor")])

p("P03", "Streaming reads return exactly the bytes stored in a safetensors file",
  "For every valid safetensors file, every key read through the streaming reader yields a tensor with exactly the dtype, shape and bytes that the file stores for it, in any order of access, any number of times, from any thread and for any buffer size; tensors obtained earlier keep their values when other keys are read or the file is closed. "
  "Iteration, length, membership and metadata list exactly the tensors of the file without its free-form metadata, and reading an unknown key raises a KeyError.",
  ["inputs", "histories", "schedules"], "every valid file (dtypes, shapes including scalars and empty tensors, header orders, padding, metadata), every access history, every buffer size",
  "No test reads files with unusual layouts, dtypes or access orders; the read-ahead buffer makes results depend on the whole access history.",
  [SD+"streaming.py", SD+"extensions/model_formats.py"],
  [("read-ahead buffer", "streaming.py InSafetensorsDict._ensure_buffer"), ("dtype table", "streaming.py DTYPE_MAPPING"), ("header parsing", "streaming.py InSafetensorsDict._read_header")])

p("P04", "Streaming writes produce a valid file holding exactly the tensors given",
  "For every sequence of tensors written to a streamed output file, by any number of threads and with any buffer size, closing it leaves a safetensors file that independent readers accept and that contains exactly those keys with the same dtype, shape and bytes, plus the recipe text in its metadata. "
  "This holds for every supported dtype, for scalars, empty tensors, views, transposed or expanded tensors, and when the announced shapes, dtypes or keys differ from what is written, so that the space reserved for the header is too small or too large.",
  ["inputs", "histories", "schedules"], "every write sequence, interleaving, buffer size, tensor layout and announced header",
  "Tests never read back a saved file; header reallocation, buffer flush boundaries and non-contiguous tensors depend on sizes and sequences tests do not sample.",
  [SD+"streaming.py"],
  [("flush offsets", "streaming.py OutSafetensorsDict._flush_buffer"), ("header reservation and reallocation", "streaming.py OutSafetensorsDict._init_buffer/close"), ("tensor bytes", "streaming.py tensor_to_bytes")])

p("P05", "I/O faults and damaged files never produce wrong data silently",
  "Truncating or corrupting the structure of a safetensors file makes reading the damaged part raise an error: no tensor with bytes that are not in the file is ever returned. "
  "Reads and writes that the operating system completes only in part are continued until complete, so results are the same as without them. "
  "When a write fails (no space left, I/O error) the merge raises instead of reporting success.",
  ["fault_sequences", "crash_points"], "every truncation point, every short-read/short-write pattern, every failing write",
  "Tests never inject faults; partial reads and writes do not happen on small local files.",
  [SD+"streaming.py", SD+"merging.py"],
  [("complete reads", "streaming.py read_into, InSafetensorsDict._ensure_buffer"), ("complete writes", "streaming.py write_all"), ("error propagation at close", "merging.py _get_output_dict")])

p("P06", "Merging never alters its inputs and never depends on earlier merges",
  "No merge modifies the tensors, dictionaries, literals or files it is given, whatever the built-in methods, dtypes and options used. "
  "A recipe object can be merged any number of times, in any order with other merges and conversions and with any options, and each merge gives the result it would give in a fresh process; the registered model configs are the same before and after.",
  ["histories", "inputs"], "every sequence of merges, conversions and serializations sharing recipe nodes, tensors, files and model configs",
  "Each test performs one merge on fresh objects; in-place operations and state kept in nodes, configs or caches only show on the next use.",
  [SD+"merging.py", SD+"recipe_nodes.py", SD+"extensions/model_configs.py", MM],
  [("merge methods work out of place", "builtin merge methods"), ("state dicts opened and closed per merge", "merging.py open_input_dicts"), ("configs restored after a merge", "merging.py LoadInputDictsVisitor")])

p("P07", "Recipe text round-trips to the same recipe",
  "Serializing any recipe made of models, literals, dictionaries and registered merge methods and deserializing the text (from a string, a list of lines or a .mecha file) gives a recipe with the same structure: the same methods, arguments bound to the same parameters, paths, model configs, merge spaces and literal values with the same types, down to every string character, integer and float. "
  "Serializing the result again gives the same text, and merging it gives the same tensors.",
  ["programs", "inputs"], "every serializable recipe, every literal value and string content (quotes, backslashes, newlines, equal signs, unicode, infinities)",
  "Tests round-trip a couple of fixed recipes; escaping and typing bugs depend on specific characters and values.",
  [SD+"serialization.py"],
  [("escaping and tokenizer", "serialization.py tokenize, SerializerVisitor"), ("instruction references", "serialization.py SerializerVisitor.__add_instruction")])

p("P08", "A saved merge carries a recipe that reproduces it",
  "Every file saved from a serializable recipe contains in its metadata the recipe text of the recipe given to merge; deserializing this text and merging it with the same options and input files produces the same tensors as the saved file (from the same random state, for methods that draw random numbers without a seed). "
  "When the recipe cannot be serialized (for example when it holds in-memory tensors) the file is still saved, complete and without a recipe.",
  ["programs", "configurations"], "every recipe over model files and every merge option",
  "No test inspects the metadata of saved files or merges a recipe recovered from one.",
  [SD+"merging.py", SD+"serialization.py", SD+"streaming.py"],
  [("embedding", "merging.py _get_output_dict; streaming.py OutSafetensorsDict header metadata")])

p("P09", "Merge spaces are checked and inferred exactly as methods declare",
  "Building a recipe succeeds exactly when every argument lies in a merge space its parameter accepts and arguments sharing a merge space symbol agree; the merge space of the result is the declared one, or the one bound to the symbol. "
  "Every other combination is rejected when the recipe is built, and merging a recipe whose result is not in weight space is rejected unless strict checking is turned off.",
  ["programs", "inputs"], "every method signature (fixed spaces, sets, symbols, defaults, varargs) and every combination of argument merge spaces",
  "Tests check a few hand-picked signatures; the combinations of declared and actual merge spaces are unbounded.",
  [SD+"extensions/merge_methods.py", SD+"extensions/merge_spaces.py", SD+"recipe_nodes.py", SD+"merging.py"],
  [("merge space resolution", "merge_methods.py MergeMethod.get_return_merge_space/get_input_merge_spaces"), ("strict check", "merging.py merge")])

p("P10", "Merge method calls bind arguments like Python calls and keep values",
  "Calling a merge method with any mix of positional and keyword arguments binds each value to the same parameter as calling the plain Python function, defaults and variadic parameters included, and is rejected exactly when Python would reject it. "
  "During the merge the function receives exactly the numbers, strings, booleans and None that were passed, with the type declared for the parameter, and the key being merged.",
  ["inputs", "programs"], "every function signature with tensor, numeric, string and boolean parameters and every call",
  "Tests call a handful of signatures; binding and value conversion depend on the mix of positional, keyword, default and variadic arguments and on the exact value.",
  [SD+"extensions/merge_methods.py", SD+"merging.py"],
  [("binding", "merge_methods.py MergeMethod.create_recipe"), ("value casts", "merging.py cast_node_value, CastInputDicts")])

p("P11", "Architecture conversions map every tensor to its counterpart, losslessly",
  "Converting a model between the supported layouts (SD1 and SDXL in kohya/diffusers layout to their original layouts, FLUX full to and from diffusion model only) puts under each target key the tensor of the corresponding source key(s), with the layout changes the target needs (fused projections, transposed projections, 1x1 convolutions) and the shape the target config declares. "
  "No source tensor that has a counterpart is dropped, duplicated or swapped, and target keys without a source are left out.",
  ["inputs", "programs"], "every subset of source keys, every key of every convertible layout",
  "No test runs a conversion on more than a few keys; the mappings have thousands of keys across many naming patterns.",
  [CFG+"convert_sd1_kohya_to_original.py", CFG+"convert_sdxl_kohya_to_original.py", CFG+"convert_sdxl_diffusers_unet_to_original.py", CFG+"convert_huggingface_sd_vae_to_original.py", CFG+"convert_flux.py", SD+"conversion.py"],
  [("key rewriting", "convert_*.py")])

p("P12", "LoRA networks compose to up*down*(alpha/rank) on their own target key",
  "For every base model with a supported layout, converting a LoRA (kohya or lycoris naming) to the base gives, for each targeted key, the delta (alpha / rank) times the product of its up and down weights, for linear, 1x1 convolution and larger convolution layers, in delta space. "
  "Adding it to a model changes exactly the targeted keys by exactly that delta times the chosen strength, and keys without a LoRA entry (biases included) never receive one.",
  ["inputs"], "every layer shape, rank, alpha, subset of targeted keys, naming scheme and base config",
  "No test composes a LoRA; shapes and ranks select different code paths.",
  [SD+"extensions/builtin/lycoris.py"],
  [("composition", "lycoris.py compose_lora_up_down"), ("key naming", "lycoris.py _to_lycoris_keys")])

p("P13", "Block weights reach exactly the keys of their block",
  "A dictionary of block weights for SD1 or SDXL, converted to the layout of the model, gives every key of the model the weight of the block it belongs to: input, middle and output blocks by number, the output layers with the last output block, time and label embeddings and everything outside of the diffusion model with the base block (and the VAE with its own block on SDXL). "
  "Used as a parameter of a merge method, each key is merged with the weight of its own block and no other.",
  ["inputs"], "every assignment of weights to blocks and every key of the target config",
  "Tests do not merge with block weights over the full key set.",
  [CFG+"convert_sd1_blocks.py", CFG+"convert_sdxl_blocks.py", SD+"conversion.py"],
  [("block routing", "convert_sd1_blocks.py, convert_sdxl_blocks.py")])

p("P14", "Model configs are recognised and select exactly the right output keys",
  "A state dict that contains the keys of a registered config is recognised as that config whatever the order of its keys, an explicit config is always respected, and state dicts matching no config are merged on the keys that all the inputs share. "
  "With a known config, the output has the keys of that config under their canonical names even if inputs use an alias; unknown keys are dropped by default and kept on request, EMA keys are dropped or kept as requested, and a missing mandatory key is an error exactly when that check is enabled.",
  ["inputs", "configurations"], "every registered config, key order, alias choice, set of extra and missing keys and combination of options",
  "Tests check inference on one or two configs and none of the key-selection options in combination.",
  [SD+"merging.py", SD+"extensions/model_configs.py"],
  [("inference", "merging.py infer_model_configs, LoadInputDictsVisitor"), ("key selection", "merging.py merge, copy_extra_keys, check_model_config"), ("aliases", "merging.py KeyMergeVisitor")])

p("P15", "Model config files round-trip",
  "Writing any model config to YAML and loading it back gives a config with the same identifier, components and keys in the same order, with the same shape, dtype, aliases and optional flag for each key; this holds for every built-in config, and the file a built-in config comes from describes the config registered under its identifier. "
  "Invalid identifiers are rejected, and registering an identifier twice is an error.",
  ["inputs"], "every config (components, keys, shapes, dtypes, aliases, optional flags) and every built-in config",
  "Only loading is exercised by tests, for a few configs.",
  [SD+"extensions/model_configs.py", CFG+"__init__.py"],
  [("to_yaml/from_yaml", "model_configs.py serialize, to_yaml, from_yaml")])

p("P16", "Averaging and interpolation methods compute their formula for every input",
  "Weighted sum, slerp, n-average, geometric sum, add difference, subtract, perpendicular component, the train-difference, opposite and strict-opposite masks, cosine additions, geometric median and multiply-quotient return the value of their published formula, up to rounding, for every finite input, every weight (scalar or tensor) and every shape. "
  "Degenerate inputs (equal, parallel, opposite or zero tensors, weights of 0 and 1) give the documented limit instead of NaN.",
  ["inputs"], "all finite tensors, shapes and hyperparameters",
  "Tests check single points or none for most methods; edge inputs select different branches.",
  [MM], [("formulas", "builtin/merge_methods/__init__.py")])

p("P17", "Consensus and sparsification methods obey their definition for every input",
  "TIES (plain, extended with stock or median), model stock, dropout, DARE and TIES with dropout return what their definition prescribes for every set of deltas and hyperparameter: trimming keeps the largest entries, elected signs follow the vote, the merge averages only agreeing entries, dropped entries contribute nothing and kept ones are rescaled as asked. "
  "They do not depend on the order of the models (where the method is symmetric), are reproducible for a given seed, and dropping nothing or everything gives the plain merge or zero.",
  ["inputs"], "all sets of delta tensors, drop probabilities, seeds, overlaps and trimming ratios",
  "Tests pin TIES on one small example; randomised methods and their options have no tests.",
  [MM], [("ties", "ties_sum_deltas, filter_top_k"), ("dropout", "dropout, overlapping_sets_pmf, ties_sum_with_dropout"), ("stock", "get_model_stock_t")])

p("P18", "Selection, region, clamping and frequency methods obey their definition",
  "Clamp keeps every element between the bounds it is given, region copies take exactly the requested rows (or the requested rank range of values) from one model and everything else from the other, wrapping around the end, and maximum-delta selection returns at every position the value of one of the models according to its normalised magnitude. "
  "Crossover mixes the spectra of the models with a filter in [0, 1] that returns the first model at 0, the second one at 1 and a weighted sum for a full tilt; all of this holds for every shape and hyperparameter.",
  ["inputs"], "all tensors, shapes, widths, offsets, stiffness, tilt and alpha values",
  "Not covered by tests beyond a few points.",
  [MM], [("clamp", "clamp"), ("regions", "ratio_to_region, tensor_sum, top_k_tensor_sum"), ("selection", "select_max_delta, select_max_white_delta"), ("crossover", "crossover, create_filter")])

p("P19", "Rotation and rank truncation satisfy their linear-algebra laws",
  "Rotating a model onto another applies an orthogonal map to its centred neurons that aligns them optimally at full alignment, changes nothing at zero alignment and zero alpha, and composes for fractional and integer alignments; a reused cache gives the same result as no cache up to the precision of the cache. "
  "Rank truncation returns a matrix of at most the requested rank with an error close to the best possible, and the input itself at full rank or for vectors.",
  ["inputs", "histories"], "all matrices and convolution weights, alignments, alphas, rank ratios and cache histories",
  "Tests do not exercise these methods.",
  [MM, SD+"extensions/builtin/merge_methods/svd.py"],
  [("procrustes", "svd.py orthogonal_procrustes"), ("fractional powers", "svd.py fractional_matrix_power"), ("low rank", "svd.py torch_svd_lowrank")])

p("P20", "Merge options: dtypes, devices, defaults and paths are honoured",
  "Merge methods receive every tensor in the merge dtype and device and the output has the output dtype and device, each omitted option takes its documented default, and turning a dtype option off keeps tensors as they are. "
  "Options set on a defaults object apply exactly when a call does not override them, relative model paths are searched in the model directories in order, a relative output goes to the first of them, the given progress factory is used, non-finite outputs are reported, and invalid thread counts are rejected.",
  ["configurations", "inputs"], "every combination of options, dtypes and paths",
  "Tests use one configuration; options interact.",
  [SD+"merging.py", SD+"helpers.py", MM],
  [("casts", "merging.py CastInputDicts; cast merge method"), ("defaults", "helpers.py Defaults; merging.py merge"), ("paths", "merging.py LoadInputDictsVisitor, _get_output_dict")])

p("P21", "Errors surface, never hang, and release every resource",
  "If evaluating any key raises an error other than a missing key, merge raises that error for every thread count and every input and output storage: it neither deadlocks nor returns as if it had succeeded. "
  "After a merge ends, successfully or not, all worker threads have stopped, every file it opened is closed, and the same recipe can be merged again.",
  ["fault_sequences", "schedules"], "every failing key, method, exception type, thread count, storage and number of failures",
  "Tests never fail in the middle of a merge.",
  [SD+"merging.py", SD+"streaming.py"],
  [("future handling", "merging.py merge"), ("closing", "merging.py open_input_dicts, CloseInputDictsVisitor; streaming.py close/__del__")])

p("P22", "Merging streams: memory does not grow with the size of the models",
  "While merging, the tensors alive at any time are bounded by the number of threads and the shape of the recipe, not by the number of keys: each key is loaded, merged, handed to the output and released before the merge accumulates others. "
  "With file inputs and output, the memory used for buffers stays within the requested total buffer size plus a few tensors per thread and file, and models used several times are opened once.",
  ["inputs", "configurations", "schedules"], "every number of keys, tensor sizes, threads, buffer sizes and recipe shapes",
  "Tests only merge tiny models and never measure memory.",
  [SD+"merging.py", SD+"streaming.py"],
  [("streaming per key", "merging.py merge, _track_output"), ("buffer budget", "merging.py buffer_size_per_file; streaming.py")])

p("P23", "Components and EMA weights are picked, omitted and exchanged exactly",
  "Picking a component of a model keeps exactly the keys of this component and omitting it keeps exactly the others, so that the two parts are disjoint and recombine into the original model; unknown components are rejected. "
  "Exchanging EMA weights swaps every EMA tensor with its live counterpart, leaves the other keys alone and gives back the original model when done twice.",
  ["inputs", "programs"], "every config, component and subset of present keys",
  "Tests do not cover components or EMA exchange.",
  [MM, SD+"extensions/builtin/merge_methods/ema.py", CFG+"sd1-ldm.yaml"],
  [("components", "pick_component, omit_component"), ("ema names", "ema.py to_ema_key_fns")])

p("P24", "Conversions are planned along a shortest chain or rejected",
  "Converting a recipe to a config returns it unchanged when it already has that config, and otherwise applies a shortest chain of registered conversions that ends in the requested config; the result has this config and its tensors are those of the chain applied step by step. "
  "If no chain exists, if the input matches no config or the target is unknown, ValueError is raised; the target can be given as an identifier, a config or a recipe that has the config.",
  ["programs", "inputs"], "every graph of registered conversions and every pair of configs",
  "Tests convert between one pair of configs.",
  [SD+"conversion.py"], [("shortest path", "conversion.py dijkstra"), ("config inference", "conversion.py convert")])

p("P25", "Recipes mixing incompatible model configs are rejected",
  "A merge method accepts models of one common config, unless its parameters declare specific configs; the config of the result is the declared one or the common config of its inputs, and arguments without a config never impose one. "
  "Any other combination is rejected with an error when it is built or merged, and never yields a model.",
  ["programs"], "every method signature with declared configs and every combination of argument configs",
  "Tests cover one mismatch.",
  [SD+"extensions/merge_methods.py", SD+"recipe_nodes.py"],
  [("config resolution", "merge_methods.py MergeMethod.get_return_config")])

p("P26", "Convenience functions equal the compositions they stand for",
  "Add difference (with and without a third model, and clamped), add perpendicular, TIES and extended TIES addition, region copy (plain or by rank), rotate, dropout, TIES with DARE and model stock addition give the same tensors as the base method applied to explicit differences with the base model and added back with the given weight. "
  "Every option reaches the step it belongs to, and inputs already in delta space are not subtracted again.",
  ["inputs", "programs"], "all models, weights and options",
  "Tests call few of these and never with non-default options.",
  [SD+"merge_method_wrappers.py"], [("compositions", "merge_method_wrappers.py")])

p("P27", "Malformed recipes and model files are rejected, never misread",
  "Recipe text with a wrong or missing version, unknown commands, methods or configs, references to instructions that do not exist yet, unbalanced quotes or malformed values is rejected with an error and never yields a recipe; comments, blank lines and surrounding spaces are ignored. "
  "Only safetensors models and .mecha recipe files are accepted as such, and unknown merge methods, configs and merge spaces are reported as ValueError.",
  ["inputs"], "every text obtained by mutating a valid recipe, every identifier and file extension",
  "Tests only parse well-formed recipes.",
  [SD+"serialization.py", SD+"extensions/model_formats.py", SD+"extensions/merge_methods.py"],
  [("parser checks", "serialization.py deserialize"), ("lookup", "resolve functions")])

p("P28", "Merge methods with invalid declarations are rejected at definition",
  "Declaring a merge method fails when a parameter or the result lacks a proper annotation or uses an unsupported type, when a parameter with a default value is not a plain parameter, when a result symbol is used by no input, or when the resulting config cannot be inferred; every valid declaration is accepted, registered under its name only when asked to, and available for conversion only when declared as one.",
  ["programs"], "every signature and annotation combination",
  "Tests cover a fixed list of declarations.",
  [SD+"extensions/merge_methods.py"], [("validation", "merge_methods.py MergeMethod.__validate_f, Parameter, Return, merge_method")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
