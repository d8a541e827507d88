"""Which harness entries decide which property, with which bounds."""
def H(entry, cases=None, timeout=None, thorough=None, params=None, tcases=None):
    d = {"entry": entry}
    if cases: d["cases"] = cases
    if timeout: d["timeout"] = timeout
    if thorough: d["thorough"] = thorough
    if params: d["params"] = params
    if tcases: d["tcases"] = tcases
    return d
def rng(name, n): return [{name: i} for i in range(n)]
PROPS = {}
PROPS["C01"] = dict(bounds="all pairs of 64-bit integers for each of + - * / %", harnesses=[H("t_int_binop", rng("op", 5))])
PROPS["C01"]["harnesses"] += [H("t_int_unop"), H("t_int_chain", rng("op", 4))]
PROPS["C02"] = dict(bounds="", harnesses=[H("t_flt_binop", rng("op", 12)), H("t_flt_unop"), H("t_arith_kinds"), H("t_unary_kinds")])
PROPS["C03"] = dict(bounds="", harnesses=[H("t_relational", rng("mix", 4))])
PROPS["C04"] = dict(bounds="", harnesses=[H("t_eq_scalars"), H("t_eq_kinds"), H("t_eq_all")])
PROPS["C05"] = dict(bounds="", harnesses=[H("t_bool_expr"), H("t_bool_kinds")])
PROPS["C06"] = dict(bounds="", harnesses=[H("t_precedence", [dict(ops=o, bool=b) for o in (1,2,3) for b in (0,1)])])
PROPS["C07"] = dict(bounds="", harnesses=[H("t_control", [dict(fuel=f, fun=u) for f in (1,2,3) for u in (0,1)], params=dict(bits=3)), H("t_break_outside"), H("t_loop_count")])
PROPS["C08"] = dict(bounds="", harnesses=[H("t_call_args"), H("t_call_rets"), H("t_call_many_rets"), H("t_call_arrow"), H("t_call_native"), H("t_call_noncallable"), H("t_call_recursion")])
PROPS["C09"] = dict(bounds="", harnesses=[H("t_scopes", [dict(depth=1,per=2), dict(depth=2,per=2), dict(depth=1,per=3)]), H("t_closures"), H("t_names")])
PROPS["C10"] = dict(bounds="", harnesses=[H("t_istypeof", [dict(tf=1,vf=1,form=0), dict(tf=1,vf=1,form=1), dict(tf=2,vf=1,form=0,small=1), dict(tf=2,vf=2,form=1,small=1), dict(tf=0,vf=2,form=0)], tcases=[dict(tf=2,vf=1,form=0), dict(tf=2,vf=2,form=1), dict(tf=3,vf=1,form=1,small=1)]), H("t_default_types"), H("t_type_of"), H("t_istypeof_odd")])
PROPS["C11"] = dict(bounds="", harnesses=[H("t_map_int", [dict(pre=p, sym=1) for p in (0,4,5,9,10)] + [dict(pre=3,sym=2,bits=3), dict(pre=4,sym=2,bits=3), dict(pre=4,stride=8,sym=1), dict(pre=5,sym=1,neg=1)], tcases=[dict(pre=p, sym=1, bits=8) for p in (3,6,11,20,21)]), H("t_map_kinds"), H("t_map_growth", [dict(n=24), dict(n=70)]), H("t_map_syntax"), H("t_map_badkeys"), H("t_map_keycopy")])
PROPS["C12"] = dict(bounds="", harnesses=[H("t_list_ops", [dict(pre=p, ops=3) for p in (0,2,6,7,8)]), H("t_list_growth"), H("t_list_misc"), H("t_list_badwrite")])
PROPS["C13"] = dict(bounds="", harnesses=[H("t_str_cat"), H("t_str_long"), H("t_str_slice"), H("t_str_trim")])
PROPS["C14"] = dict(bounds="", harnesses=[H("t_utf8_text", rng("n", 6)), H("t_utf8_chr")])
PROPS["C15"] = dict(bounds="", harnesses=[H("t_buf_new"), H("t_buf_ops"), H("t_buf_conv")])
PROPS["C16"] = dict(harnesses=[H("t_gc_points", rng("prog", 13), tcases=[dict(prog=p, two=1) for p in (0, 1, 3, 4, 5, 6, 7)]), H("t_gc_small", rng("prog", 13)), H("t_heap_graph", [dict(heap=h, destr=d) for h in (2, 5) for d in (0, 5)])])
PROPS["C17"] = dict(harnesses=[H("t_heap_graph", [dict(heap=h, destr=d) for h in (0, 1, 3, 4) for d in (7, 2)] + [dict(heap=5, destr=7, fail=1)]), H("t_heap_destructors")])
PROPS["C18"] = dict(harnesses=[H("t_heap_alloc"), H("t_heap_huge"), H("t_heap_total")])
PROPS["C19"] = dict(harnesses=[H("t_limit_depth", rng("prog", 4)), H("t_limit_pending", rng("form", 7)), H("t_limit_stack"), H("t_stop_anywhere", rng("prog", 7)), H("t_stop_builtin"), H("t_rerun")])
PROPS["C24"] = dict(harnesses=[H("t_bytecode", [dict(pre=p, n=2) for p in range(13)], tcases=[dict(pre=p, n=3) for p in range(13)])])
PROPS["C22"] = dict(harnesses=[H("t_asm_faithful", [dict(n=1), dict(n=2)]), H("t_asm_tokens", [dict(n=3)] + [dict(n=4, first=f) for f in range(8)], tcases=[dict(n=5, first=f) for f in range(7)]), H("t_asm_bytes", [dict(n=4, pre=p) for p in range(9)], tcases=[dict(n=6, pre=p) for p in range(9)]), H("t_asm_long")])
PROPS["C23"] = dict(harnesses=[H("t_exe_build"), H("t_exe_equiv"), H("t_exe_many"), H("t_exe_reject"), H("t_exe_names")])
PROPS["C20"] = dict(harnesses=[H("t_parse_tokens", [dict(ctx=c, n=3) for c in range(16)], tcases=[dict(ctx=c, n=4, small=1) for c in (0,3,4,5,7)]), H("t_parse_bytes", [dict(pre=p, n=3) for p in range(15)], tcases=[dict(pre=p, n=4) for p in range(15)]), H("t_parse_cut", [dict(mut=0), dict(mut=1)])])
PROPS["C21"] = dict(harnesses=[H("t_lit_int", [dict(n=n) for n in (1,2,9,10,18,19,20,21)] + [dict(n=3, lead=l) for l in (1,16,17,60,61)]), H("t_lit_float", [dict(a=1,b=2), dict(a=2,b=1)], tcases=[dict(a=2,b=2), dict(a=1,b=3)]), H("t_lit_float_fixed"), H("t_lit_str", rng("n", 5)), H("t_lit_str_long"), H("t_lit_name", [dict(n=n) for n in (1,2,3,5)]), H("t_lit_kwname"), H("t_lit_str_nul")])
PROPS["C31"] = dict(harnesses=[H("t_layout", rng("prog", 5)), H("t_layout_ends")])
PROPS["C25"] = dict(harnesses=[H("t_trace"), H("t_trace_span"), H("t_trace_syntax"), H("t_trace_import"), H("t_error_text"), H("t_error_arg")])
PROPS["C27"] = dict(harnesses=[H("t_print_values", [dict(d=1,args=2), dict(d=2,args=1)], tcases=[dict(d=2,args=2)]), H("t_print_num"), H("t_print_cyclic"), H("t_print_bytes"), H("t_input_lines", [dict(n=n, fill=f) for n, f in ((4,0),(3,253),(2,508),(3,254))]), H("t_count_type")])
PROPS["C32"] = dict(harnesses=[H("t_diag_expr", [dict(d=1), dict(d=2)]), H("t_diag_stmt", [dict(d=1)], tcases=[dict(d=2)]), H("t_diag_text", [dict(n=1), dict(n=2)], tcases=[dict(n=3)]), H("t_diag_wide"), H("t_diag_bad")])
PROPS["C35"] = dict(harnesses=[H("t_cli_options", [dict(k=2)], tcases=[dict(k=3)]), H("t_cli_word"), H("t_cli_heap"), H("t_cli_argument"), H("t_cli_exit"), H("t_cli_badout")])
PROPS["C36"] = dict(harnesses=[H("t_prof_calls"), H("t_prof_line")])
PROPS["C37"] = dict(harnesses=[H("t_import_relative"), H("t_import_string"), H("t_import_result"), H("t_import_scope"), H("t_import_bad"), H("t_import_long"), H("t_script_place")])
PROPS["C28"] = dict(harnesses=[H("t_args_kinds", [dict(lo=l, hi=l+13) for l in (0, 13, 26, 39)])])
PROPS["C29"] = dict(harnesses=[H("t_to_int", [dict(n=n) for n in range(4)] + [dict(n=2, pre=p) for p in range(1, 6)], tcases=[dict(n=4), dict(n=5)] + [dict(n=3, pre=p) for p in range(1, 6)]), H("t_int_text"), H("t_digit_text"), H("t_float_text"), H("t_float_text_bad"), H("t_value_text", [dict(d=1), dict(d=2)], tcases=[dict(d=3)])])
PROPS["C30"] = dict(harnesses=[H("t_file_write", [dict(ops=1), dict(ops=2)], tcases=[dict(ops=3)]), H("t_file_read"), H("t_file_modes"), H("t_file_count"), H("t_file_many"), H("t_dir_list")])
PROPS["C33"] = dict(harnesses=[H("t_math_one"), H("t_math_two"), H("t_math_round"), H("t_math_const"), H("t_random_range"), H("t_random_order"), H("t_random_seed")])
PROPS["C34"] = dict(harnesses=[H("t_start_minmax"), H("t_start_append"), H("t_start_iter"), H("t_start_iter_two"), H("t_start_iter_mod"), H("t_start_method"), H("t_start_types"), H("t_start_badargs")])
PROPS["C38"] = dict(harnesses=[H("t_net_call"), H("t_net_slice")])
# the same properties at larger sizes
PROPS["C04"]["harnesses"] += [H("t_big_str_eq")]
PROPS["C05"]["harnesses"] += [H("t_big_logic")]
PROPS["C07"]["harnesses"] += [H("t_big_control")]
PROPS["C08"]["harnesses"] += [H("t_big_args")]
PROPS["C09"]["harnesses"] += [H("t_big_scope"), H("t_big_vars")]
PROPS["C10"]["harnesses"] += [H("t_big_types")]
PROPS["C11"]["harnesses"] += [H("t_zero_keys"), H("t_big_map", [dict(n=130)], tcases=[dict(n=270), dict(n=500)])]
PROPS["C12"]["harnesses"] += [H("t_big_list")]
PROPS["C13"]["harnesses"] += [H("t_big_str_ops"), H("t_big_cat_many")]
PROPS["C14"]["harnesses"] += [H("t_big_utf8")]
PROPS["C15"]["harnesses"] += [H("t_big_buf")]
PROPS["C21"]["harnesses"] += [H("t_big_names")]
PROPS["C24"]["harnesses"] += [H("t_bytecode3", rng("op", 16), tcases=[dict(op=o, two=1) for o in range(16)])]
PROPS["C14"]["harnesses"] += [H("t_utf8_tail", [dict(n=n) for n in (0, 1, 2, 3, 4)])]
PROPS["C22"]["harnesses"] += [H("t_asm_labels")]
PROPS["C23"]["harnesses"] += [H("t_exe_big")]
PROPS["C16"]["harnesses"] += [H("t_big_gc", rng("prog", 9))]
PROPS["C17"]["harnesses"] += [H("t_big_destr")]
PROPS["C18"]["harnesses"] += [H("t_big_alloc")]
PROPS["C13"]["harnesses"] += [H("t_cat_huge")]
PROPS["C14"]["harnesses"] += [H("t_buftext_huge")]
PROPS["C01"]["harnesses"] += [H("t_int_long")]
PROPS["C37"]["harnesses"] += [H("t_import_chain"), H("t_import_again")]
PROPS["C36"]["harnesses"] += [H("t_prof_many")]
PROPS["C25"]["harnesses"] += [H("t_trace_start"), H("t_error_arg_value"), H("t_big_trace"), H("t_big_error_arg")]
PROPS["C27"]["harnesses"] += [H("t_big_print"), H("t_big_input")]
PROPS["C31"]["harnesses"] += [H("t_big_layout")]
PROPS["C20"]["harnesses"] += [H("t_source_text"), H("t_big_source", rng("form", 14))]
PROPS["C21"]["harnesses"] += [H("t_big_lit")]
PROPS["C30"]["harnesses"] += [H("t_big_file")]
PROPS["C29"]["harnesses"] += [H("t_big_text")]
PROPS["C22"]["harnesses"] += [H("t_asm_number")]
PROPS["C05"]["harnesses"] += [H("t_unary_chain")]
PROPS["C02"]["harnesses"] += [H("t_unary_chain")]
PROPS["C09"]["harnesses"] += [H("t_scope_kinds")]
PROPS["C08"]["harnesses"] += [H("t_pass_kinds")]
PROPS["C33"]["harnesses"] += [H("t_math_points")]
PROPS["C30"]["harnesses"] += [H("t_dir_names")]
PROPS["C32"]["harnesses"] += [H("t_diag_long"), H("t_diag_number"), H("t_diag_many")]
PROPS["C39"] = dict(harnesses=[H("t_mem_steady", rng("prog", 12)), H("t_mem_bound", rng("prog", 12)), H("t_mem_release", rng("what", 3)), H("t_mem_forms")])
PROPS["C40"] = dict(harnesses=[H("t_oom", [dict(what=w, setup=u) for w in (0, 1) for u in (0, 1, 2)]), H("t_oom_compile", rng("form", 3)), H("t_oom_heap", [dict(what=w, **{"from": f}) for w in (0, 1, 2) for f in (0, 960)])])
PROPS["C41"] = dict(harnesses=[H("t_io_fault"), H("t_io_cli"), H("t_io_huge")])
PROPS["C22"]["harnesses"] += [H("t_asm_string")]
PROPS["C11"]["harnesses"] += [H("t_namespace")]
PROPS["C30"]["harnesses"] += [H("t_path_char")]
PROPS["C37"]["harnesses"] += [H("t_path_char")]
