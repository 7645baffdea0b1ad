// Code generated by gen_registry.sh; DO NOT EDIT.

package h

// Registry maps harness names to functions for native replay.
var Registry = map[string]func(){
	"C01_blanks":             C01_blanks,
	"C01_deep":               C01_deep,
	"C01_depth":              C01_depth,
	"C01_document":           C01_document,
	"C01_free":               C01_free,
	"C01_history":            C01_history,
	"C01_keys":               C01_keys,
	"C01_large":              C01_large,
	"C01_long":               C01_long,
	"C01_many":               C01_many,
	"C01_mutated":            C01_mutated,
	"C02_blanks":             C02_blanks,
	"C02_deep":               C02_deep,
	"C02_free":               C02_free,
	"C02_mutated":            C02_mutated,
	"C02_numbers":            C02_numbers,
	"C02_structure":          C02_structure,
	"C02_trailing":           C02_trailing,
	"C02_words":              C02_words,
	"C03_escapes":            C03_escapes,
	"C03_free":               C03_free,
	"C03_kept":               C03_kept,
	"C03_long":               C03_long,
	"C03_mutated":            C03_mutated,
	"C03_number":             C03_number,
	"C03_repeated":           C03_repeated,
	"C03_string":             C03_string,
	"C04_boundary":           C04_boundary,
	"C04_float":              C04_float,
	"C04_grammar":            C04_grammar,
	"C04_integer":            C04_integer,
	"C04_long":               C04_long,
	"C04_overflow":           C04_overflow,
	"C04_plain":              C04_plain,
	"C04_rounding":           C04_rounding,
	"C05_far":                C05_far,
	"C05_long":               C05_long,
	"C05_pair":               C05_pair,
	"C05_raw":                C05_raw,
	"C05_run":                C05_run,
	"C05_short":              C05_short,
	"C05_shrunk":             C05_shrunk,
	"C05_surrogate":          C05_surrogate,
	"C05_truncated":          C05_truncated,
	"C05_two":                C05_two,
	"C05_unicode":            C05_unicode,
	"C06_deep":               C06_deep,
	"C06_float":              C06_float,
	"C06_formats":            C06_formats,
	"C06_indent":             C06_indent,
	"C06_invalid":            C06_invalid,
	"C06_parsed":             C06_parsed,
	"C06_string":             C06_string,
	"C06_tree":               C06_tree,
	"C07_big":                C07_big,
	"C07_depth":              C07_depth,
	"C07_document":           C07_document,
	"C07_far":                C07_far,
	"C07_floats":             C07_floats,
	"C07_large":              C07_large,
	"C07_number":             C07_number,
	"C07_string":             C07_string,
	"C07_tree":               C07_tree,
	"C08_chars":              C08_chars,
	"C08_deep":               C08_deep,
	"C08_default":            C08_default,
	"C08_far":                C08_far,
	"C08_farther":            C08_farther,
	"C08_indent":             C08_indent,
	"C08_neighbours":         C08_neighbours,
	"C08_options":            C08_options,
	"C09_copied":             C09_copied,
	"C09_duplicates":         C09_duplicates,
	"C09_keys":               C09_keys,
	"C09_last":               C09_last,
	"C09_listed":             C09_listed,
	"C09_many":               C09_many,
	"C09_nested":             C09_nested,
	"C09_set":                C09_set,
	"C09_sets":               C09_sets,
	"C09_sorted":             C09_sorted,
	"C10_deep":               C10_deep,
	"C10_defaults":           C10_defaults,
	"C10_omit":               C10_omit,
	"C10_options":            C10_options,
	"C11_deep":               C11_deep,
	"C11_inner":              C11_inner,
	"C11_keys":               C11_keys,
	"C11_long":               C11_long,
	"C11_mixed":              C11_mixed,
	"C11_paths":              C11_paths,
	"C11_slices":             C11_slices,
	"C11_types":              C11_types,
	"C12_children":           C12_children,
	"C12_deep":               C12_deep,
	"C12_inner":              C12_inner,
	"C12_keys":               C12_keys,
	"C12_leaves":             C12_leaves,
	"C12_long":               C12_long,
	"C12_mixed":              C12_mixed,
	"C12_paths":              C12_paths,
	"C12_refused":            C12_refused,
	"C12_types":              C12_types,
	"C13_arrays":             C13_arrays,
	"C13_drain":              C13_drain,
	"C13_history":            C13_history,
	"C13_inner":              C13_inner,
	"C13_long":               C13_long,
	"C13_mixed":              C13_mixed,
	"C13_objects":            C13_objects,
	"C13_paths":              C13_paths,
	"C13_refused":            C13_refused,
	"C13_types":              C13_types,
	"C14_foreign":            C14_foreign,
	"C14_history":            C14_history,
	"C14_keys":               C14_keys,
	"C14_many":               C14_many,
	"C14_parsed":             C14_parsed,
	"C14_paths":              C14_paths,
	"C14_spellings":          C14_spellings,
	"C15_bits":               C15_bits,
	"C15_constructed":        C15_constructed,
	"C15_long":               C15_long,
	"C15_nil":                C15_nil,
	"C15_numbers":            C15_numbers,
	"C15_special":            C15_special,
	"C15_spelled":            C15_spelled,
	"C15_strings":            C15_strings,
	"C15_tiny":               C15_tiny,
	"C15_trees":              C15_trees,
	"C15_wide":               C15_wide,
	"C16_arbitrary":          C16_arbitrary,
	"C16_bytes":              C16_bytes,
	"C16_failing":            C16_failing,
	"C16_integers":           C16_integers,
	"C16_numbers":            C16_numbers,
	"C16_strings":            C16_strings,
	"C16_types":              C16_types,
	"C16_words":              C16_words,
	"C17_bytes":              C17_bytes,
	"C17_float32":            C17_float32,
	"C17_float64":            C17_float64,
	"C17_formats":            C17_formats,
	"C17_forms":              C17_forms,
	"C17_integers":           C17_integers,
	"C17_map":                C17_map,
	"C17_others":             C17_others,
	"C18_embedded":           C18_embedded,
	"C18_integers":           C18_integers,
	"C18_interface_elements": C18_interface_elements,
	"C18_interfaces":         C18_interfaces,
	"C18_lists":              C18_lists,
	"C18_long":               C18_long,
	"C18_maps":               C18_maps,
	"C18_marshalers":         C18_marshalers,
	"C18_number":             C18_number,
	"C18_pointer_text":       C18_pointer_text,
	"C18_pointers":           C18_pointers,
	"C18_scalars":            C18_scalars,
	"C18_types":              C18_types,
	"C18_unsupported":        C18_unsupported,
	"C18_unsupported_types":  C18_unsupported_types,
	"C18_values":             C18_values,
	"C19_export":             C19_export,
	"C19_numbers":            C19_numbers,
	"C19_options":            C19_options,
	"C19_strings":            C19_strings,
	"C20_bytes":              C20_bytes,
	"C20_collections":        C20_collections,
	"C20_copy":               C20_copy,
	"C20_input":              C20_input,
	"C20_leaves":             C20_leaves,
	"C20_long":               C20_long,
	"C20_marshaler":          C20_marshaler,
	"C20_output":             C20_output,
	"C20_range":              C20_range,
	"C20_read":               C20_read,
	"C20_replace":            C20_replace,
	"C20_rows":               C20_rows,
	"C20_ways":               C20_ways,
	"C21_import":             C21_import,
	"C21_parse":              C21_parse,
	"C21_readers":            C21_readers,
	"C21_strings":            C21_strings,
	"C21_trees":              C21_trees,
	"C22_around":             C22_around,
	"C22_beyond":             C22_beyond,
	"C22_big":                C22_big,
	"C22_literal":            C22_literal,
	"C22_stable":             C22_stable,
	"C22_write":              C22_write,
	"C23_arrays":             C23_arrays,
	"C23_derived":            C23_derived,
	"C23_elements":           C23_elements,
	"C23_go":                 C23_go,
	"C23_trees":              C23_trees,
	"C23_wide":               C23_wide,
	"C24_arrays":             C24_arrays,
	"C24_changed":            C24_changed,
	"C24_long":               C24_long,
	"C24_objects":            C24_objects,
	"C24_others":             C24_others,
	"C24_parsed":             C24_parsed,
	"C25_long":               C25_long,
	"C25_nested":             C25_nested,
	"C25_numbers":            C25_numbers,
	"C25_refused":            C25_refused,
	"C26_documents":          C26_documents,
	"C26_marshal":            C26_marshal,
	"C26_operations":         C26_operations,
	"C26_parse":              C26_parse,
	"C26_typed":              C26_typed,
	"C27_deep":               C27_deep,
	"C27_forks":              C27_forks,
	"C27_part":               C27_part,
	"C27_text":               C27_text,
	"C27_trees":              C27_trees,
	"C28_calls":              C28_calls,
	"C28_compose":            C28_compose,
	"C28_concurrent":         C28_concurrent,
	"C28_defaults":           C28_defaults,
	"C28_import":             C28_import,
	"C28_value":              C28_value,
}
