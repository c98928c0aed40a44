// Code generated by gen.sh. DO NOT EDIT.

// Package hs holds the property harnesses. Every function H_<property>_<name> is one harness.
package hs

// Harnesses is the registry used by the native replay binary.
var Harnesses = map[string]func(){
	"H_C01_assign":      H_C01_assign,
	"H_C01_chain":       H_C01_chain,
	"H_C01_deep":        H_C01_deep,
	"H_C01_floats":      H_C01_floats,
	"H_C01_forms":       H_C01_forms,
	"H_C01_ints":        H_C01_ints,
	"H_C01_parens":      H_C01_parens,
	"H_C01_size":        H_C01_size,
	"H_C01_ternary":     H_C01_ternary,
	"H_C01_tree":        H_C01_tree,
	"H_C01_types":       H_C01_types,
	"H_C01_unary":       H_C01_unary,
	"H_C01_zeros":       H_C01_zeros,
	"H_C02_between":     H_C02_between,
	"H_C02_branches":    H_C02_branches,
	"H_C02_nested":      H_C02_nested,
	"H_C02_size":        H_C02_size,
	"H_C02_truth":       H_C02_truth,
	"H_C02_unused":      H_C02_unused,
	"H_C03_body":        H_C03_body,
	"H_C03_branches":    H_C03_branches,
	"H_C03_clauses":     H_C03_clauses,
	"H_C03_each":        H_C03_each,
	"H_C03_errors":      H_C03_errors,
	"H_C03_for":         H_C03_for,
	"H_C03_forvar":      H_C03_forvar,
	"H_C03_meta":        H_C03_meta,
	"H_C03_repeated":    H_C03_repeated,
	"H_C03_size":        H_C03_size,
	"H_C03_while":       H_C03_while,
	"H_C04_files":       H_C04_files,
	"H_C04_loop":        H_C04_loop,
	"H_C04_scopes":      H_C04_scopes,
	"H_C04_size":        H_C04_size,
	"H_C04_types":       H_C04_types,
	"H_C04_vanish":      H_C04_vanish,
	"H_C05_around":      H_C05_around,
	"H_C05_bodies":      H_C05_bodies,
	"H_C05_comment":     H_C05_comment,
	"H_C05_dense":       H_C05_dense,
	"H_C05_keywords":    H_C05_keywords,
	"H_C05_mixed":       H_C05_mixed,
	"H_C05_pieces":      H_C05_pieces,
	"H_C05_raw":         H_C05_raw,
	"H_C05_size":        H_C05_size,
	"H_C06_alias":       H_C06_alias,
	"H_C06_bytes":       H_C06_bytes,
	"H_C06_expr":        H_C06_expr,
	"H_C06_faults":      H_C06_faults,
	"H_C06_fill":        H_C06_fill,
	"H_C06_names":       H_C06_names,
	"H_C06_outside":     H_C06_outside,
	"H_C06_shared":      H_C06_shared,
	"H_C06_size":        H_C06_size,
	"H_C07_alias":       H_C07_alias,
	"H_C07_args":        H_C07_args,
	"H_C07_bare":        H_C07_bare,
	"H_C07_body":        H_C07_body,
	"H_C07_faults":      H_C07_faults,
	"H_C07_loop":        H_C07_loop,
	"H_C07_many":        H_C07_many,
	"H_C07_mixed":       H_C07_mixed,
	"H_C07_names":       H_C07_names,
	"H_C07_shadow":      H_C07_shadow,
	"H_C07_size":        H_C07_size,
	"H_C07_two":         H_C07_two,
	"H_C07_use":         H_C07_use,
	"H_C08_code":        H_C08_code,
	"H_C08_cut":         H_C08_cut,
	"H_C08_cutlast":     H_C08_cutlast,
	"H_C08_deep":        H_C08_deep,
	"H_C08_edit":        H_C08_edit,
	"H_C08_files":       H_C08_files,
	"H_C08_illegal":     H_C08_illegal,
	"H_C08_illegal2":    H_C08_illegal2,
	"H_C08_raw":         H_C08_raw,
	"H_C08_size":        H_C08_size,
	"H_C08_slotcut":     H_C08_slotcut,
	"H_C08_tokens":      H_C08_tokens,
	"H_C09_argkinds":    H_C09_argkinds,
	"H_C09_binary":      H_C09_binary,
	"H_C09_builtins":    H_C09_builtins,
	"H_C09_data":        H_C09_data,
	"H_C09_headers":     H_C09_headers,
	"H_C09_ints":        H_C09_ints,
	"H_C09_programs":    H_C09_programs,
	"H_C09_results":     H_C09_results,
	"H_C09_tree":        H_C09_tree,
	"H_C09_unary":       H_C09_unary,
	"H_C10_bytes":       H_C10_bytes,
	"H_C10_dense":       H_C10_dense,
	"H_C10_entities":    H_C10_entities,
	"H_C10_files":       H_C10_files,
	"H_C10_names":       H_C10_names,
	"H_C10_pairs":       H_C10_pairs,
	"H_C10_size":        H_C10_size,
	"H_C11_arrays":      H_C11_arrays,
	"H_C11_case":        H_C11_case,
	"H_C11_casemap":     H_C11_casemap,
	"H_C11_chains":      H_C11_chains,
	"H_C11_decimal":     H_C11_decimal,
	"H_C11_edges":       H_C11_edges,
	"H_C11_kinds":       H_C11_kinds,
	"H_C11_numbers":     H_C11_numbers,
	"H_C11_precedence":  H_C11_precedence,
	"H_C11_receivers":   H_C11_receivers,
	"H_C11_runes":       H_C11_runes,
	"H_C11_shuffle":     H_C11_shuffle,
	"H_C11_size":        H_C11_size,
	"H_C11_slice":       H_C11_slice,
	"H_C11_strings":     H_C11_strings,
	"H_C11_utf8":        H_C11_utf8,
	"H_C12_fieldnames":  H_C12_fieldnames,
	"H_C12_hidden":      H_C12_hidden,
	"H_C12_keys":        H_C12_keys,
	"H_C12_leaf":        H_C12_leaf,
	"H_C12_letters":     H_C12_letters,
	"H_C12_pointers":    H_C12_pointers,
	"H_C12_size":        H_C12_size,
	"H_C12_slices":      H_C12_slices,
	"H_C12_struct":      H_C12_struct,
	"H_C12_unsupported": H_C12_unsupported,
	"H_C12_untouched":   H_C12_untouched,
	"H_C13_bytes":       H_C13_bytes,
	"H_C13_files":       H_C13_files,
	"H_C13_plain":       H_C13_plain,
	"H_C13_size":        H_C13_size,
	"H_C13_string":      H_C13_string,
	"H_C14_config":      H_C14_config,
	"H_C14_data":        H_C14_data,
	"H_C14_faults":      H_C14_faults,
	"H_C14_literals":    H_C14_literals,
	"H_C14_once":        H_C14_once,
	"H_C14_print":       H_C14_print,
	"H_C14_size":        H_C14_size,
	"H_C14_tree":        H_C14_tree,
	"H_C15_after":       H_C15_after,
	"H_C15_fresh":       H_C15_fresh,
	"H_C15_pairs":       H_C15_pairs,
	"H_C15_programs":    H_C15_programs,
	"H_C15_same":        H_C15_same,
	"H_C16_history":     H_C16_history,
	"H_C16_long":        H_C16_long,
	"H_C16_programs":    H_C16_programs,
	"H_C16_same":        H_C16_same,
	"H_C16_size":        H_C16_size,
	"H_C17_config":      H_C17_config,
	"H_C17_errorpage":   H_C17_errorpage,
	"H_C17_fail":        H_C17_fail,
	"H_C17_long":        H_C17_long,
	"H_C17_missing":     H_C17_missing,
	"H_C17_page":        H_C17_page,
	"H_C17_size":        H_C17_size,
	"H_C18_dir":         H_C18_dir,
	"H_C18_extra":       H_C18_extra,
	"H_C18_faults":      H_C18_faults,
	"H_C18_file":        H_C18_file,
	"H_C18_layouts":     H_C18_layouts,
	"H_C18_links":       H_C18_links,
	"H_C18_names":       H_C18_names,
	"H_C18_size":        H_C18_size,
	"H_C18_tree":        H_C18_tree,
	"H_C19_code":        H_C19_code,
	"H_C19_edit":        H_C19_edit,
	"H_C19_lines":       H_C19_lines,
	"H_C19_raw":         H_C19_raw,
	"H_C19_size":        H_C19_size,
	"H_C19_tokens":      H_C19_tokens,
	"H_C20_args":        H_C20_args,
	"H_C20_history":     H_C20_history,
	"H_C20_kinds":       H_C20_kinds,
	"H_C20_long":        H_C20_long,
	"H_C20_numbers":     H_C20_numbers,
	"H_C20_places":      H_C20_places,
	"H_C20_results":     H_C20_results,
	"H_C20_size":        H_C20_size,
	"H_C20_twice":       H_C20_twice,
	"H_add":             H_add,
	"H_smoke":           H_smoke,
}
