// The statement parsers (with the tag of the tree each builds, and whether
// parse_stmt_dispatch knows it) and sample texts for them.
#pragma once
#include "flpr/parse_stmt.hh"

namespace sp {
struct Rule {
  char const *name;
  FLPR::Stmt::Stmt_Tree (*f)(FLPR::TT_Stream &);
  int tag; // -1: none of its own
  bool dispatched;
};
using T = FLPR::Syntax_Tags;
static Rule const rules[] = {
    {"access_stmt", FLPR::Stmt::access_stmt, T::SG_ACCESS_STMT, true},
    {"action_stmt", FLPR::Stmt::action_stmt, T::SG_ACTION_STMT, true},
    {"allocatable_stmt", FLPR::Stmt::allocatable_stmt, T::SG_ALLOCATABLE_STMT, true},
    {"allocate_stmt", FLPR::Stmt::allocate_stmt, T::SG_ALLOCATE_STMT, true},
    {"arithmetic_if_stmt", FLPR::Stmt::arithmetic_if_stmt, T::SG_ARITHMETIC_IF_STMT, true},
    {"assignment_stmt", FLPR::Stmt::assignment_stmt, T::SG_ASSIGNMENT_STMT, true},
    {"associate_stmt", FLPR::Stmt::associate_stmt, T::SG_ASSOCIATE_STMT, true},
    {"asynchronous_stmt", FLPR::Stmt::asynchronous_stmt, T::SG_ASYNCHRONOUS_STMT, true},
    {"backspace_stmt", FLPR::Stmt::backspace_stmt, T::SG_BACKSPACE_STMT, true},
    {"bind_stmt", FLPR::Stmt::bind_stmt, T::SG_BIND_STMT, true},
    {"binding_private_stmt", FLPR::Stmt::binding_private_stmt, T::SG_BINDING_PRIVATE_STMT, true},
    {"block_stmt", FLPR::Stmt::block_stmt, T::SG_BLOCK_STMT, true},
    {"call_stmt", FLPR::Stmt::call_stmt, T::SG_CALL_STMT, true},
    {"case_stmt", FLPR::Stmt::case_stmt, T::SG_CASE_STMT, true},
    {"close_stmt", FLPR::Stmt::close_stmt, T::SG_CLOSE_STMT, true},
    {"codimension_stmt", FLPR::Stmt::codimension_stmt, T::SG_CODIMENSION_STMT, true},
    {"common_stmt", FLPR::Stmt::common_stmt, T::SG_COMMON_STMT, true},
    {"component_def_stmt", FLPR::Stmt::component_def_stmt, T::SG_COMPONENT_DEF_STMT, true},
    {"computed_goto_stmt", FLPR::Stmt::computed_goto_stmt, T::SG_COMPUTED_GOTO_STMT, true},
    {"contains_stmt", FLPR::Stmt::contains_stmt, T::SG_CONTAINS_STMT, true},
    {"continue_stmt", FLPR::Stmt::continue_stmt, T::SG_CONTINUE_STMT, true},
    {"cycle_stmt", FLPR::Stmt::cycle_stmt, T::SG_CYCLE_STMT, true},
    {"data_component_def_stmt", FLPR::Stmt::data_component_def_stmt, T::SG_DATA_COMPONENT_DEF_STMT, true},
    {"data_stmt", FLPR::Stmt::data_stmt, T::SG_DATA_STMT, true},
    {"deallocate_stmt", FLPR::Stmt::deallocate_stmt, T::SG_DEALLOCATE_STMT, true},
    {"derived_type_stmt", FLPR::Stmt::derived_type_stmt, T::SG_DERIVED_TYPE_STMT, true},
    {"dimension_stmt", FLPR::Stmt::dimension_stmt, T::SG_DIMENSION_STMT, true},
    {"do_stmt", FLPR::Stmt::do_stmt, T::SG_DO_STMT, true},
    {"else_if_stmt", FLPR::Stmt::else_if_stmt, T::SG_ELSE_IF_STMT, true},
    {"else_stmt", FLPR::Stmt::else_stmt, T::SG_ELSE_STMT, true},
    {"elsewhere_stmt", FLPR::Stmt::elsewhere_stmt, T::SG_ELSEWHERE_STMT, true},
    {"end_associate_stmt", FLPR::Stmt::end_associate_stmt, T::SG_END_ASSOCIATE_STMT, true},
    {"end_block_stmt", FLPR::Stmt::end_block_stmt, T::SG_END_BLOCK_STMT, true},
    {"end_do", FLPR::Stmt::end_do, T::SG_END_DO, false},
    {"end_do_stmt", FLPR::Stmt::end_do_stmt, T::SG_END_DO_STMT, true},
    {"end_enum_stmt", FLPR::Stmt::end_enum_stmt, T::SG_END_ENUM_STMT, true},
    {"end_forall_stmt", FLPR::Stmt::end_forall_stmt, T::SG_END_FORALL_STMT, true},
    {"end_function_stmt", FLPR::Stmt::end_function_stmt, T::SG_END_FUNCTION_STMT, true},
    {"end_if_stmt", FLPR::Stmt::end_if_stmt, T::SG_END_IF_STMT, true},
    {"end_interface_stmt", FLPR::Stmt::end_interface_stmt, T::SG_END_INTERFACE_STMT, true},
    {"end_module_stmt", FLPR::Stmt::end_module_stmt, T::SG_END_MODULE_STMT, true},
    {"end_mp_subprogram_stmt", FLPR::Stmt::end_mp_subprogram_stmt, T::SG_END_MP_SUBPROGRAM_STMT, true},
    {"end_program_stmt", FLPR::Stmt::end_program_stmt, T::SG_END_PROGRAM_STMT, true},
    {"end_select_stmt", FLPR::Stmt::end_select_stmt, T::SG_END_SELECT_STMT, true},
    {"end_select_rank_stmt", FLPR::Stmt::end_select_rank_stmt, T::SG_END_SELECT_RANK_STMT, true},
    {"end_select_type_stmt", FLPR::Stmt::end_select_type_stmt, T::SG_END_SELECT_TYPE_STMT, true},
    {"end_submodule_stmt", FLPR::Stmt::end_submodule_stmt, T::SG_END_SUBMODULE_STMT, true},
    {"end_subroutine_stmt", FLPR::Stmt::end_subroutine_stmt, T::SG_END_SUBROUTINE_STMT, true},
    {"end_type_stmt", FLPR::Stmt::end_type_stmt, T::SG_END_TYPE_STMT, true},
    {"end_where_stmt", FLPR::Stmt::end_where_stmt, T::SG_END_WHERE_STMT, true},
    {"endfile_stmt", FLPR::Stmt::endfile_stmt, T::SG_ENDFILE_STMT, true},
    {"entry_stmt", FLPR::Stmt::entry_stmt, T::SG_ENTRY_STMT, true},
    {"enum_def_stmt", FLPR::Stmt::enum_def_stmt, T::SG_ENUM_DEF_STMT, true},
    {"enumerator_def_stmt", FLPR::Stmt::enumerator_def_stmt, T::SG_ENUMERATOR_DEF_STMT, true},
    {"equivalence_stmt", FLPR::Stmt::equivalence_stmt, T::SG_EQUIVALENCE_STMT, true},
    {"error_stop_stmt", FLPR::Stmt::error_stop_stmt, T::SG_ERROR_STOP_STMT, true},
    {"event_post_stmt", FLPR::Stmt::event_post_stmt, T::SG_EVENT_POST_STMT, true},
    {"event_wait_stmt", FLPR::Stmt::event_wait_stmt, T::SG_EVENT_WAIT_STMT, true},
    {"exit_stmt", FLPR::Stmt::exit_stmt, T::SG_EXIT_STMT, true},
    {"external_stmt", FLPR::Stmt::external_stmt, T::SG_EXTERNAL_STMT, true},
    {"fail_image_stmt", FLPR::Stmt::fail_image_stmt, T::SG_FAIL_IMAGE_STMT, true},
    {"final_procedure_stmt", FLPR::Stmt::final_procedure_stmt, T::SG_FINAL_PROCEDURE_STMT, true},
    {"flush_stmt", FLPR::Stmt::flush_stmt, T::SG_FLUSH_STMT, true},
    {"forall_assignment_stmt", FLPR::Stmt::forall_assignment_stmt, T::SG_FORALL_ASSIGNMENT_STMT, true},
    {"forall_construct_stmt", FLPR::Stmt::forall_construct_stmt, T::SG_FORALL_CONSTRUCT_STMT, true},
    {"forall_stmt", FLPR::Stmt::forall_stmt, T::SG_FORALL_STMT, true},
    {"form_team_stmt", FLPR::Stmt::form_team_stmt, T::SG_FORM_TEAM_STMT, true},
    {"format_stmt", FLPR::Stmt::format_stmt, T::SG_FORMAT_STMT, true},
    {"function_stmt", FLPR::Stmt::function_stmt, T::SG_FUNCTION_STMT, true},
    {"generic_stmt", FLPR::Stmt::generic_stmt, T::SG_GENERIC_STMT, true},
    {"goto_stmt", FLPR::Stmt::goto_stmt, T::SG_GOTO_STMT, true},
    {"if_stmt", FLPR::Stmt::if_stmt, T::SG_IF_STMT, true},
    {"if_then_stmt", FLPR::Stmt::if_then_stmt, T::SG_IF_THEN_STMT, true},
    {"implicit_stmt", FLPR::Stmt::implicit_stmt, T::SG_IMPLICIT_STMT, true},
    {"import_stmt", FLPR::Stmt::import_stmt, T::SG_IMPORT_STMT, true},
    {"inquire_stmt", FLPR::Stmt::inquire_stmt, T::SG_INQUIRE_STMT, true},
    {"intent_stmt", FLPR::Stmt::intent_stmt, T::SG_INTENT_STMT, true},
    {"interface_stmt", FLPR::Stmt::interface_stmt, T::SG_INTERFACE_STMT, true},
    {"intrinsic_stmt", FLPR::Stmt::intrinsic_stmt, T::SG_INTRINSIC_STMT, true},
    {"label_do_stmt", FLPR::Stmt::label_do_stmt, T::SG_LABEL_DO_STMT, true},
    {"lock_stmt", FLPR::Stmt::lock_stmt, T::SG_LOCK_STMT, true},
    {"macro_stmt", FLPR::Stmt::macro_stmt, T::SG_MACRO_STMT, true},
    {"masked_elsewhere_stmt", FLPR::Stmt::masked_elsewhere_stmt, T::SG_MASKED_ELSEWHERE_STMT, true},
    {"module_stmt", FLPR::Stmt::module_stmt, T::SG_MODULE_STMT, true},
    {"mp_subprogram_stmt", FLPR::Stmt::mp_subprogram_stmt, T::SG_MP_SUBPROGRAM_STMT, true},
    {"namelist_stmt", FLPR::Stmt::namelist_stmt, T::SG_NAMELIST_STMT, true},
    {"nonlabel_do_stmt", FLPR::Stmt::nonlabel_do_stmt, T::SG_NONLABEL_DO_STMT, true},
    {"nullify_stmt", FLPR::Stmt::nullify_stmt, T::SG_NULLIFY_STMT, true},
    {"open_stmt", FLPR::Stmt::open_stmt, T::SG_OPEN_STMT, true},
    {"optional_stmt", FLPR::Stmt::optional_stmt, T::SG_OPTIONAL_STMT, true},
    {"other_specification_stmt", FLPR::Stmt::other_specification_stmt, T::SG_OTHER_SPECIFICATION_STMT, true},
    {"parameter_stmt", FLPR::Stmt::parameter_stmt, T::SG_PARAMETER_STMT, true},
    {"pointer_assignment_stmt", FLPR::Stmt::pointer_assignment_stmt, T::SG_POINTER_ASSIGNMENT_STMT, true},
    {"pointer_stmt", FLPR::Stmt::pointer_stmt, T::SG_POINTER_STMT, true},
    {"print_stmt", FLPR::Stmt::print_stmt, T::SG_PRINT_STMT, true},
    {"private_components_stmt", FLPR::Stmt::private_components_stmt, T::SG_PRIVATE_COMPONENTS_STMT, true},
    {"private_or_sequence", FLPR::Stmt::private_or_sequence, T::SG_PRIVATE_OR_SEQUENCE, false},
    {"proc_component_def_stmt", FLPR::Stmt::proc_component_def_stmt, T::SG_PROC_COMPONENT_DEF_STMT, true},
    {"procedure_declaration_stmt", FLPR::Stmt::procedure_declaration_stmt, T::SG_PROCEDURE_DECLARATION_STMT, true},
    {"procedure_stmt", FLPR::Stmt::procedure_stmt, T::SG_PROCEDURE_STMT, true},
    {"program_stmt", FLPR::Stmt::program_stmt, T::SG_PROGRAM_STMT, true},
    {"protected_stmt", FLPR::Stmt::protected_stmt, T::SG_PROTECTED_STMT, true},
    {"read_stmt", FLPR::Stmt::read_stmt, T::SG_READ_STMT, true},
    {"return_stmt", FLPR::Stmt::return_stmt, T::SG_RETURN_STMT, true},
    {"rewind_stmt", FLPR::Stmt::rewind_stmt, T::SG_REWIND_STMT, true},
    {"save_stmt", FLPR::Stmt::save_stmt, T::SG_SAVE_STMT, true},
    {"select_case_stmt", FLPR::Stmt::select_case_stmt, T::SG_SELECT_CASE_STMT, true},
    {"select_rank_stmt", FLPR::Stmt::select_rank_stmt, T::SG_SELECT_RANK_STMT, true},
    {"select_rank_case_stmt", FLPR::Stmt::select_rank_case_stmt, T::SG_SELECT_RANK_CASE_STMT, true},
    {"select_type_stmt", FLPR::Stmt::select_type_stmt, T::SG_SELECT_TYPE_STMT, true},
    {"sequence_stmt", FLPR::Stmt::sequence_stmt, T::SG_SEQUENCE_STMT, true},
    {"stop_stmt", FLPR::Stmt::stop_stmt, T::SG_STOP_STMT, true},
    {"submodule_stmt", FLPR::Stmt::submodule_stmt, T::SG_SUBMODULE_STMT, true},
    {"subroutine_stmt", FLPR::Stmt::subroutine_stmt, T::SG_SUBROUTINE_STMT, true},
    {"sync_all_stmt", FLPR::Stmt::sync_all_stmt, T::SG_SYNC_ALL_STMT, true},
    {"sync_images_stmt", FLPR::Stmt::sync_images_stmt, T::SG_SYNC_IMAGES_STMT, true},
    {"sync_memory_stmt", FLPR::Stmt::sync_memory_stmt, T::SG_SYNC_MEMORY_STMT, true},
    {"sync_team_stmt", FLPR::Stmt::sync_team_stmt, T::SG_SYNC_TEAM_STMT, true},
    {"target_stmt", FLPR::Stmt::target_stmt, T::SG_TARGET_STMT, true},
    {"type_bound_generic_stmt", FLPR::Stmt::type_bound_generic_stmt, T::SG_TYPE_BOUND_GENERIC_STMT, true},
    {"type_bound_procedure_stmt", FLPR::Stmt::type_bound_procedure_stmt, T::SG_TYPE_BOUND_PROCEDURE_STMT, true},
    {"type_declaration_stmt", FLPR::Stmt::type_declaration_stmt, T::SG_TYPE_DECLARATION_STMT, true},
    {"type_guard_stmt", FLPR::Stmt::type_guard_stmt, T::SG_TYPE_GUARD_STMT, true},
    {"type_param_def_stmt", FLPR::Stmt::type_param_def_stmt, T::SG_TYPE_PARAM_DEF_STMT, true},
    {"unlock_stmt", FLPR::Stmt::unlock_stmt, T::SG_UNLOCK_STMT, true},
    {"use_stmt", FLPR::Stmt::use_stmt, T::SG_USE_STMT, true},
    {"value_stmt", FLPR::Stmt::value_stmt, T::SG_VALUE_STMT, true},
    {"volatile_stmt", FLPR::Stmt::volatile_stmt, T::SG_VOLATILE_STMT, true},
    {"wait_stmt", FLPR::Stmt::wait_stmt, T::SG_WAIT_STMT, true},
    {"where_construct_stmt", FLPR::Stmt::where_construct_stmt, T::SG_WHERE_CONSTRUCT_STMT, true},
    {"where_stmt", FLPR::Stmt::where_stmt, T::SG_WHERE_STMT, true},
    {"write_stmt", FLPR::Stmt::write_stmt, T::SG_WRITE_STMT, true},
    {"actual_arg_spec", FLPR::Stmt::actual_arg_spec, T::SG_ACTUAL_ARG_SPEC, false},
    {"allocatable_decl", FLPR::Stmt::allocatable_decl, T::SG_ALLOCATABLE_DECL, false},
    {"allocate_coarray_spec", FLPR::Stmt::allocate_coarray_spec, T::SG_ALLOCATE_COARRAY_SPEC, false},
    {"allocate_coshape_spec", FLPR::Stmt::allocate_coshape_spec, T::SG_ALLOCATE_COSHAPE_SPEC, false},
    {"allocation", FLPR::Stmt::allocation, T::SG_ALLOCATION, false},
    {"array_element", FLPR::Stmt::array_element, T::SG_ARRAY_ELEMENT, false},
    {"array_spec", FLPR::Stmt::array_spec, T::SG_ARRAY_SPEC, false},
    {"association", FLPR::Stmt::association, T::SG_ASSOCIATION, false},
    {"assumed_implied_spec", FLPR::Stmt::assumed_implied_spec, T::SG_ASSUMED_IMPLIED_SPEC, false},
    {"assumed_shape_spec", FLPR::Stmt::assumed_shape_spec, T::SG_ASSUMED_SHAPE_SPEC, false},
    {"assumed_size_spec", FLPR::Stmt::assumed_size_spec, T::SG_ASSUMED_SIZE_SPEC, false},
    {"case_value_range", FLPR::Stmt::case_value_range, T::SG_CASE_VALUE_RANGE, false},
    {"char_selector", FLPR::Stmt::char_selector, T::SG_CHAR_SELECTOR, false},
    {"coarray_spec", FLPR::Stmt::coarray_spec, T::SG_COARRAY_SPEC, false},
    {"component_initialization", FLPR::Stmt::component_initialization, T::SG_COMPONENT_INITIALIZATION, false},
    {"concurrent_control", FLPR::Stmt::concurrent_control, T::SG_CONCURRENT_CONTROL, false},
    {"concurrent_header", FLPR::Stmt::concurrent_header, T::SG_CONCURRENT_HEADER, false},
    {"concurrent_locality", FLPR::Stmt::concurrent_locality, T::SG_CONCURRENT_LOCALITY, false},
    {"data_ref", FLPR::Stmt::data_ref, T::SG_DATA_REF, false},
    {"data_stmt_object", FLPR::Stmt::data_stmt_object, T::SG_DATA_STMT_OBJECT, false},
    {"data_stmt_set", FLPR::Stmt::data_stmt_set, T::SG_DATA_STMT_SET, false},
    {"data_stmt_value", FLPR::Stmt::data_stmt_value, T::SG_DATA_STMT_VALUE, false},
    {"declaration_type_spec", FLPR::Stmt::declaration_type_spec, T::SG_DECLARATION_TYPE_SPEC, false},
    {"declaration_type_spec_no_kind", FLPR::Stmt::declaration_type_spec_no_kind, T::SG_DECLARATION_TYPE_SPEC, false},
    {"deferred_shape_spec", FLPR::Stmt::deferred_shape_spec, T::SG_DEFERRED_SHAPE_SPEC, false},
    {"defined_io_generic_spec", FLPR::Stmt::defined_io_generic_spec, T::SG_DEFINED_IO_GENERIC_SPEC, false},
    {"derived_type_spec", FLPR::Stmt::derived_type_spec, T::SG_DERIVED_TYPE_SPEC, false},
    {"designator", FLPR::Stmt::designator, T::SG_DESIGNATOR, false},
    {"dummy_arg", FLPR::Stmt::dummy_arg, T::SG_DUMMY_ARG, false},
    {"explicit_coshape_spec", FLPR::Stmt::explicit_coshape_spec, T::SG_EXPLICIT_COSHAPE_SPEC, false},
    {"explicit_shape_spec", FLPR::Stmt::explicit_shape_spec, T::SG_EXPLICIT_SHAPE_SPEC, false},
    {"expr", FLPR::Stmt::expr, T::SG_EXPR, false},
    {"extended_intrinsic_op", FLPR::Stmt::extended_intrinsic_op, T::SG_EXTENDED_INTRINSIC_OP, false},
    {"function_reference", FLPR::Stmt::function_reference, T::SG_FUNCTION_REFERENCE, false},
    {"generic_spec", FLPR::Stmt::generic_spec, T::SG_GENERIC_SPEC, false},
    {"image_selector", FLPR::Stmt::image_selector, T::SG_IMAGE_SELECTOR, false},
    {"image_selector_spec", FLPR::Stmt::image_selector_spec, T::SG_IMAGE_SELECTOR_SPEC, false},
    {"implicit_none_spec", FLPR::Stmt::implicit_none_spec, T::SG_IMPLICIT_NONE_SPEC, false},
    {"implied_shape_or_assumed_size_spec", FLPR::Stmt::implied_shape_or_assumed_size_spec, T::SG_IMPLIED_SHAPE_OR_ASSUMED_SIZE_SPEC, false},
    {"implied_shape_spec", FLPR::Stmt::implied_shape_spec, T::SG_IMPLIED_SHAPE_SPEC, false},
    {"initialization", FLPR::Stmt::initialization, T::SG_INITIALIZATION, false},
    {"input_item", FLPR::Stmt::input_item, T::SG_INPUT_ITEM, false},
    {"int_constant_expr", FLPR::Stmt::int_constant_expr, T::SG_INT_CONSTANT_EXPR, false},
    {"int_expr", FLPR::Stmt::int_expr, T::SG_INT_EXPR, false},
    {"integer_type_spec", FLPR::Stmt::integer_type_spec, T::SG_INTEGER_TYPE_SPEC, false},
    {"intent_spec", FLPR::Stmt::intent_spec, T::SG_INTENT_SPEC, false},
    {"intrinsic_operator", FLPR::Stmt::intrinsic_operator, T::SG_INTRINSIC_OPERATOR, false},
    {"intrinsic_type_spec", FLPR::Stmt::intrinsic_type_spec, T::SG_INTRINSIC_TYPE_SPEC, false},
    {"intrinsic_type_spec_no_kind", FLPR::Stmt::intrinsic_type_spec_no_kind, T::SG_INTRINSIC_TYPE_SPEC, false},
    {"io_implied_do", FLPR::Stmt::io_implied_do, T::SG_IO_IMPLIED_DO, false},
    {"io_implied_do_control", FLPR::Stmt::io_implied_do_control, T::SG_IO_IMPLIED_DO_CONTROL, false},
    {"io_implied_do_object", FLPR::Stmt::io_implied_do_object, T::SG_IO_IMPLIED_DO_OBJECT, false},
    {"kind_selector", FLPR::Stmt::kind_selector, T::SG_KIND_SELECTOR, false},
    {"label", FLPR::Stmt::label, T::SG_LABEL, false},
    {"language_binding_spec", FLPR::Stmt::language_binding_spec, T::SG_LANGUAGE_BINDING_SPEC, false},
    {"length_selector", FLPR::Stmt::length_selector, T::SG_LENGTH_SELECTOR, false},
    {"letter_spec", FLPR::Stmt::letter_spec, T::SG_LETTER_SPEC, false},
    {"locality_spec", FLPR::Stmt::locality_spec, T::SG_LOCALITY_SPEC, false},
    {"logical_expr", FLPR::Stmt::logical_expr, T::SG_LOGICAL_EXPR, false},
    {"logical_literal_constant", FLPR::Stmt::logical_literal_constant, T::SG_LOGICAL_LITERAL_CONSTANT, false},
    {"loop_control", FLPR::Stmt::loop_control, T::SG_LOOP_CONTROL, true},
    {"lower_bound_expr", FLPR::Stmt::lower_bound_expr, T::SG_LOWER_BOUND_EXPR, false},
    {"mult_op", FLPR::Stmt::mult_op, T::SG_MULT_OP, false},
    {"output_item", FLPR::Stmt::output_item, T::SG_OUTPUT_ITEM, false},
    {"parent_string", FLPR::Stmt::parent_string, T::SG_PARENT_STRING, false},
    {"part_ref", FLPR::Stmt::part_ref, T::SG_PART_REF, false},
    {"pointer_object", FLPR::Stmt::pointer_object, T::SG_POINTER_OBJECT, false},
    {"prefix", FLPR::Stmt::prefix, T::SG_PREFIX, false},
    {"prefix_spec", FLPR::Stmt::prefix_spec, T::SG_PREFIX_SPEC, false},
    {"proc_component_attr_spec", FLPR::Stmt::proc_component_attr_spec, T::SG_PROC_COMPONENT_ATTR_SPEC, false},
    {"proc_component_ref", FLPR::Stmt::proc_component_ref, T::SG_PROC_COMPONENT_REF, false},
    {"proc_decl", FLPR::Stmt::proc_decl, T::SG_PROC_DECL, false},
    {"proc_interface", FLPR::Stmt::proc_interface, T::SG_PROC_INTERFACE, false},
    {"proc_language_binding_spec", FLPR::Stmt::proc_language_binding_spec, T::SG_PROC_LANGUAGE_BINDING_SPEC, false},
    {"proc_pointer_init", FLPR::Stmt::proc_pointer_init, T::SG_PROC_POINTER_INIT, false},
    {"proc_pointer_object", FLPR::Stmt::proc_pointer_object, T::SG_PROC_POINTER_OBJECT, false},
    {"proc_target", FLPR::Stmt::proc_target, T::SG_PROC_TARGET, false},
    {"procedure_designator", FLPR::Stmt::procedure_designator, T::SG_PROCEDURE_DESIGNATOR, false},
    {"real_literal_constant", FLPR::Stmt::real_literal_constant, T::SG_REAL_LITERAL_CONSTANT, false},
    {"rel_op", FLPR::Stmt::rel_op, T::SG_REL_OP, false},
    {"rename", FLPR::Stmt::rename, T::SG_RENAME, false},
    {"saved_entity", FLPR::Stmt::saved_entity, T::SG_SAVED_ENTITY, false},
    {"section_subscript", FLPR::Stmt::section_subscript, T::SG_SECTION_SUBSCRIPT, false},
    {"selector", FLPR::Stmt::selector, T::SG_SELECTOR, false},
    {"sign", FLPR::Stmt::sign, T::SG_SIGN, false},
    {"signed_real_literal_constant", FLPR::Stmt::signed_real_literal_constant, T::SG_SIGNED_REAL_LITERAL_CONSTANT, false},
    {"structure_component", FLPR::Stmt::structure_component, T::SG_STRUCTURE_COMPONENT, false},
    {"structure_constructor", FLPR::Stmt::structure_constructor, T::SG_STRUCTURE_CONSTRUCTOR, false},
    {"substring", FLPR::Stmt::substring, T::SG_SUBSTRING, false},
    {"substring_range", FLPR::Stmt::substring_range, T::SG_SUBSTRING_RANGE, false},
    {"suffix", FLPR::Stmt::suffix, T::SG_SUFFIX, false},
    {"sync_stat", FLPR::Stmt::sync_stat, T::SG_SYNC_STAT, false},
    {"type_attr_spec", FLPR::Stmt::type_attr_spec, T::SG_TYPE_ATTR_SPEC, false},
    {"type_bound_proc_binding", FLPR::Stmt::type_bound_proc_binding, T::SG_TYPE_BOUND_PROC_BINDING, false},
    {"type_param_spec", FLPR::Stmt::type_param_spec, T::SG_TYPE_PARAM_SPEC, false},
    {"type_param_value", FLPR::Stmt::type_param_value, T::SG_TYPE_PARAM_VALUE, false},
    {"type_spec", FLPR::Stmt::type_spec, T::SG_TYPE_SPEC, false},
    {"upper_bound_expr", FLPR::Stmt::upper_bound_expr, T::SG_UPPER_BOUND_EXPR, false},
    {"variable", FLPR::Stmt::variable, T::SG_VARIABLE, false},
    {"wait_spec", FLPR::Stmt::wait_spec, T::SG_WAIT_SPEC, false},
    {"consume_parens", FLPR::Stmt::consume_parens, -1, false},
};
static int const n_rules = sizeof(rules) / sizeof(rules[0]);

// rule, text; whole: the rule takes all of the text
struct Sample {
  char const *rule, *text;
  bool whole;
};
static Sample const samples[] = {
    {"allocatable_stmt", "allocatable a", true},
    {"allocatable_stmt", "allocatable a(1)", true},
    {"allocatable_stmt", "allocatable a(:,:)", true},
    {"allocatable_stmt", "allocatable a(:,:)[:], b(:,:)[:]", true},
    {"allocatable_stmt", "allocatable a[:]", true},
    {"allocatable_stmt", "allocatable :: a", true},
    {"allocatable_stmt", "allocatable :: a(1)", true},
    {"allocatable_stmt", "allocatable :: a(:,:)", true},
    {"allocatable_stmt", "allocatable :: a(:,:)[:], b(:,:)[:]", true},
    {"allocatable_stmt", "allocatable :: a[:]", true},
    {"allocate_stmt", "allocate (a)", true},
    {"allocate_stmt", "allocate (a(4))", true},
    {"allocate_stmt", "allocate (a,b,c,d(5))", true},
    {"allocate_stmt", "allocate(a, stat=s)", true},
    {"allocate_stmt", "allocate(a(2), mold=b(2,:), source=q, stat=s, ERRMSG=es)", true},
    {"allocate_stmt", "allocate(foo[*])", true},
    {"allocate_stmt", "allocate(foo[1:2,3,*])", true},
    {"allocate_stmt", "allocate(foo[1:2,3,1:*])", true},
    {"allocate_stmt", "allocate(foo(3)[1:2,3,*])", true},
    {"allocate_stmt", "allocate(foo(3)[1:2,3,*], bar(6))", true},
    {"allocate_stmt", "allocate(this%v(newSize))", true},
    {"arithmetic_if_stmt", "if(i-j) 5000, 6000, 8000 ", true},
    {"assignment_stmt", "i = 1", true},
    {"assignment_stmt", "i = (1 + sum(a(3,:)) - f(2))", true},
    {"assignment_stmt", "c%re = q", true},
    {"assignment_stmt", "a(:) = 0.d0", true},
    {"assignment_stmt", "a(:3) = 0.d0", true},
    {"assignment_stmt", "a(1:3) = 0.d0", true},
    {"assignment_stmt", "a(1:,2) = 0.d0", true},
    {"assignment_stmt", "r%q%a(1:,2)[1] = 0.d0", true},
    {"assignment_stmt", "itype(m)(8:8)=char(0)", true},
    {"associate_stmt", "associate(dfrdp => cell_data%scale_r(mat_loop)*(teos_r(nm,npup,nt)-teos_r(nm,npdown,nt))/ (cell_data%scale_p(mat_loop)*(p(npup)-p(npdown))), fr   => cell_data%scale_r(mat_loop)*teos_r(nm,nump,nt))", true},
    {"asynchronous_stmt", "asynchronous a", true},
    {"asynchronous_stmt", "asynchronous :: a", true},
    {"asynchronous_stmt", "asynchronous a,b,c", true},
    {"asynchronous_stmt", "asynchronous :: a,b,c", true},
    {"bind_stmt", "bind(c) entity_name", true},
    {"bind_stmt", "bind(c) entity_name,/cblockname/", true},
    {"bind_stmt", "bind(c) :: entity_name", true},
    {"bind_stmt", "bind(c) :: entity_name,/cblockname/", true},
    {"bind_stmt", "bind(c,name='foo') :: entity_name", true},
    {"bind_stmt", "bind(c,name='foo') :: /cblockname/", true},
    {"block_stmt", "block", true},
    {"block_stmt", "name: block", true},
    {"call_stmt", "call foo", true},
    {"call_stmt", "call foo()", true},
    {"call_stmt", "call foo(bar,2+2,r)", true},
    {"call_stmt", "call s%foo(bar,2+2,r)", true},
    {"call_stmt", "call rs(s = foo)", true},
    {"case_stmt", "case (1)", true},
    {"case_stmt", "case (1:)", true},
    {"case_stmt", "case (:2)", true},
    {"case_stmt", "case (1:2)", true},
    {"case_stmt", "CASE ('(')", true},
    {"codimension_stmt", "codimension a[*]", true},
    {"codimension_stmt", "codimension :: a[:]", true},
    {"codimension_stmt", "codimension :: a[:], b[1:*]", true},
    {"codimension_stmt", "codimension :: a[:], b[1:*], c[3,1:2,1:*]", true},
    {"common_stmt", "common a", true},
    {"common_stmt", "common a,b", true},
    {"common_stmt", "common /z/ a", true},
    {"common_stmt", "common /z/ a,b", true},
    {"common_stmt", "common /z/ a,b(20)", true},
    {"common_stmt", "common /z/ a,b(:,:) /y/ q", true},
    {"common_stmt", "common /z/ a,b(20) /y/q//r", true},
    {"common_stmt", "common /z/ a,b(20), /y/q, //r", true},
    {"common_stmt", "common // a", true},
    {"common_stmt", "common / / a", true},
    {"cycle_stmt", "cycle", true},
    {"cycle_stmt", "cycle loop_name", true},
    {"component_def_stmt", "type(tname) :: v(0:n)", true},
    {"data_stmt", "data chart/'t'/", true},
    {"data_stmt", "data chart/'t'/,crun/'.run'/,pathd/'test/'/", true},
    {"data_stmt", "data sfac/.2d0/,sadd/100.d0/", true},
    {"deallocate_stmt", "deallocate(foo)", true},
    {"deallocate_stmt", "deallocate(DMesh%SnxS, STAT=status)", true},
    {"derived_type_stmt", "type foo", true},
    {"derived_type_stmt", "type::foo", true},
    {"derived_type_stmt", "type, abstract::foo", true},
    {"derived_type_stmt", "type, bind(c)::foo", true},
    {"derived_type_stmt", "type, extends(ptype)::foo", true},
    {"derived_type_stmt", "type, private, bind(c), abstract, extends(ptype)::foo", true},
    {"derived_type_stmt", "type, public ::foo(bar,p)", true},
    {"do_stmt", "do", true},
    {"do_stmt", "dname: do", true},
    {"do_stmt", "do i=1,2", true},
    {"do_stmt", "do, i=1,a(j)", true},
    {"do_stmt", "do i=1,n,2", true},
    {"do_stmt", "do, i=1,n+1,2", true},
    {"do_stmt", "dname: do, i=1,n+1,2", true},
    {"do_stmt", "do while(.not. done)", true},
    {"do_stmt", "do: do, while(do)", true},
    {"do_stmt", "do 10", true},
    {"do_stmt", "while:do 10", true},
    {"do_stmt", "do 10 i=1,10", true},
    {"do_stmt", "do:do 10 i=1,10", true},
    {"else_stmt", "else", true},
    {"else_stmt", "else cname", true},
    {"else_if_stmt", "else if(foo) then", true},
    {"else_if_stmt", "elseif(foo) then", true},
    {"else_if_stmt", "else if(foo) then cname", true},
    {"else_if_stmt", "elseif(foo) then cname", true},
    {"elsewhere_stmt", "elsewhere", true},
    {"elsewhere_stmt", "else where", true},
    {"elsewhere_stmt", "elsewhere lbl", true},
    {"elsewhere_stmt", "else where lbl", true},
    {"end_block_stmt", "end block", true},
    {"end_block_stmt", "end block name", true},
    {"end_block_stmt", "endblock", true},
    {"end_block_stmt", "endblock name", true},
    {"end_do", "end do", true},
    {"end_do", "end do foo", true},
    {"end_do", "enddo", true},
    {"end_do", "enddo foo", true},
    {"end_do", "100 continue", true},
    {"end_function_stmt", "end", true},
    {"end_function_stmt", "end function", true},
    {"end_function_stmt", "end function foo", true},
    {"end_if_stmt", "end if", true},
    {"end_if_stmt", "endif", true},
    {"end_if_stmt", "end if cname", true},
    {"end_if_stmt", "endif cname", true},
    {"end_subroutine_stmt", "end", true},
    {"end_subroutine_stmt", "end subroutine", true},
    {"end_subroutine_stmt", "end subroutine foo", true},
    {"end_where_stmt", "end where", true},
    {"end_where_stmt", "end where lbl", true},
    {"end_where_stmt", "endwhere", true},
    {"end_where_stmt", "endwhere lbl", true},
    {"entry_stmt", "entry foo", true},
    {"entry_stmt", "entry foo()", true},
    {"entry_stmt", "entry foo(a)", true},
    {"entry_stmt", "entry foo(a,*,b)", true},
    {"entry_stmt", "entry foo() RESULT(a)", true},
    {"entry_stmt", "entry foo(a) BIND(C)", true},
    {"entry_stmt", "entry foo(a,*,b) bind(c) result(q)", true},
    {"event_post_stmt", "event post (evar)", true},
    {"event_post_stmt", "event post (evar(i))", true},
    {"event_post_stmt", "event post(evar(i), errmsg=errmsg(i), stat=stat(i))", true},
    {"event_wait_stmt", "event wait(evar)", true},
    {"event_wait_stmt", "event wait(evar(i,j))", true},
    {"event_wait_stmt", "event wait(evar(i,j), until_count=3*i+j)", true},
    {"event_wait_stmt", "event wait(evar(i,j), errmsg=errmsg(i), stat=stat(j), until_count=3*i+j)", true},
    {"exit_stmt", "exit", true},
    {"exit_stmt", "exit construct_name", true},
    {"external_stmt", "external a", true},
    {"external_stmt", "external ::a", true},
    {"external_stmt", "external a,b,c", true},
    {"external_stmt", "external :: a,b,c", true},
    {"fail_image_stmt", "FAIL image", true},
    {"forall_construct_stmt", "forall(i=1:strln)", true},
    {"form_team_stmt", "form team(1, team_var)", true},
    {"form_team_stmt", "form team(1+3*i, team_var(i))", true},
    {"form_team_stmt", "form team(1+3*i, team_var(i), new_index=3*i)", true},
    {"form_team_stmt", "form team((2**i)+1, team_var(i), errmsg=errm(i), new_index=(3*i), stat=stat(i))", true},
    {"format_stmt", "100 format(boring)", true},
    {"format_stmt", "100 format(it-doesnt [] matter())", true},
    {"function_stmt", "recursive pure function foo(a,b,c) bind(c, name=foo)", true},
    {"function_stmt", "recursive pure function foo(a,b,c) bind(c, name=foo) result(q)", true},
    {"function_stmt", "recursive pure function foo(a,b,c) result(q) bind(c, name=foo)", true},
    {"function_stmt", "recursive pure function foo(a,b,c) result(q)", true},
    {"function_stmt", "integer(kindof(foo)) function foo(a,b,c)", true},
    {"function_stmt", "function foo result(bar)", true},
    {"generic_stmt", "generic::foo=>bar1", true},
    {"generic_stmt", "generic::foo=>bar1,bar2", true},
    {"generic_stmt", "generic,private::foo=>bar1", true},
    {"generic_stmt", "generic,public::foo=>bar1,bar2", true},
    {"generic_stmt", "generic,public::write(unformatted)=>bar1,bar2", true},
    {"generic_stmt", "generic,public::assignment(=)=>bar1", true},
    {"goto_stmt", "go to 1", true},
    {"goto_stmt", "go to 12", true},
    {"goto_stmt", "go to 123", true},
    {"goto_stmt", "go to 1234", true},
    {"goto_stmt", "go to 12345", true},
    {"goto_stmt", "goto 1", true},
    {"goto_stmt", "goto 12", true},
    {"goto_stmt", "goto 123", true},
    {"goto_stmt", "goto 1234", true},
    {"goto_stmt", "goto 12345", true},
    {"if_stmt", "if(a==3) a=3", true},
    {"if_stmt", "IF(.TRUE.) RETURN", true},
    {"if_stmt", "if(cond) goto 10", true},
    {"if_then_stmt", "if(a==3) then", true},
    {"if_then_stmt", "cname: if(.true.) then", true},
    {"implicit_stmt", "implicit none", true},
    {"implicit_stmt", "implicit none()", true},
    {"implicit_stmt", "implicit none(external)", true},
    {"implicit_stmt", "implicit none(type)", true},
    {"implicit_stmt", "implicit none(type,external)", true},
    {"implicit_stmt", "implicit integer(a)", true},
    {"implicit_stmt", "implicit real(a-z)", true},
    {"implicit_stmt", "implicit real(kind=8)(a-z)", true},
    {"implicit_stmt", "implicit real(8)(a-z)", true},
    {"implicit_stmt", "implicit type(*)(a-z)", true},
    {"inquire_stmt", "inquire(file=array(1:ub), exist=iexist)", true},
    {"inquire_stmt", "inquire(iolength=RECLEN) recltest", true},
    {"intent_stmt", "intent(in) a, b", true},
    {"intent_stmt", "intent(out) :: a, b", true},
    {"intent_stmt", "intent(inout) :: a", true},
    {"interface_stmt", "interface operator(-)", true},
    {"lock_stmt", "lock (var)", true},
    {"lock_stmt", "lock (var, acquired_lock=al(i), errmsg=foo(1))", true},
    {"lock_stmt", "lock (var(i),  errmsg=errvar(i))", true},
    {"masked_elsewhere_stmt", "else where (a < 3)", true},
    {"masked_elsewhere_stmt", "elsewhere (a < 3)", true},
    {"masked_elsewhere_stmt", "else where (a < 3) lbl", true},
    {"masked_elsewhere_stmt", "elsewhere (a < 3) lbl", true},
    {"namelist_stmt", "namelist /a/ b", true},
    {"namelist_stmt", "namelist /a/ b,c,d", true},
    {"namelist_stmt", "namelist /a/ b,c,d, /x/ y", true},
    {"namelist_stmt", "namelist /a/ b,c,d, /x/ y,z", true},
    {"namelist_stmt", "namelist /a/ b,c,d, /x/ y,z /m/n", true},
    {"parameter_stmt", "100 parameter(a=1)", true},
    {"parameter_stmt", "100 parameter(a=1, b=4+2/2**8)", true},
    {"pointer_assignment_stmt", "a=>b", true},
    {"pointer_assignment_stmt", "a=>b(1:5)", true},
    {"pointer_assignment_stmt", "m%a=>b", true},
    {"pointer_stmt", "pointer a", true},
    {"pointer_stmt", "pointer a,b", true},
    {"pointer_stmt", "pointer :: a", true},
    {"pointer_stmt", "pointer :: a,b", true},
    {"pointer_stmt", "pointer a(:),b", true},
    {"pointer_stmt", "pointer::a(:,:),b(:)", true},
    {"print_stmt", "print *, foo", true},
    {"print_stmt", "print 100, foo", true},
    {"print_stmt", "print (1xa), foo", true},
    {"print_stmt", "print (1xa), foo+2", true},
    {"print_stmt", "print *, 'hello world'", true},
    {"print_stmt", "print *, 'hello world', (a(i),b(i), i=1,n)", true},
    {"protected_stmt", "protected a", true},
    {"protected_stmt", "protected :: a", true},
    {"protected_stmt", "protected a,b,c", true},
    {"protected_stmt", "protected :: a,b,c", true},
    {"read_stmt", "read (6, *) size", true},
    {"read_stmt", "read 10, a, b", true},
    {"read_stmt", "read *, a(lbound(a,1):ubound(a,1))", true},
    {"read_stmt", "read (6, fmt=\"(\" // CHAR_FMT // \")\") X, y, z", true},
    {"read_stmt", "read (iostat=ios, unit=6, FMT='(10f8.2)') a,b", true},
    {"return_stmt", "return", true},
    {"return_stmt", "return a+3", true},
    {"select_case_stmt", "CHECK_PARENS: SELECT CASE (LINE (I:I))", true},
    {"select_rank_stmt", "CHECK_PARENS: SELECT rank(x)", true},
    {"select_rank_stmt", "SELECT rank(x)", true},
    {"select_rank_case_stmt", "rank default", true},
    {"select_rank_case_stmt", "rank (*)", true},
    {"select_rank_case_stmt", "rank (2)", true},
    {"select_rank_case_stmt", "rank (2+1)", true},
    {"subroutine_stmt", "subroutine foo", true},
    {"subroutine_stmt", "recursive pure subroutine foo(a,b,c) bind(c, name=foo)", true},
    {"sync_all_stmt", "sync all", true},
    {"sync_all_stmt", "sync all()", true},
    {"sync_all_stmt", "sync all(STAT=statvar)", true},
    {"sync_all_stmt", "sync all(ERRMSG=errmsgvar)", true},
    {"sync_all_stmt", "sync all(STAT=statvar, ERRMSG=errmsgvar)", true},
    {"sync_all_stmt", "sync all(ERRMSG=errmsgvar, STAT=statvar)", true},
    {"sync_images_stmt", "sync images(*)", true},
    {"sync_images_stmt", "sync images(1+2)", true},
    {"sync_images_stmt", "sync images(*, STAT=statvar, ERRMSG=errmsgvar)", true},
    {"sync_images_stmt", "sync images(1+2, errmsg=ha)", true},
    {"sync_memory_stmt", "sync memory", true},
    {"sync_memory_stmt", "sync memory()", true},
    {"sync_memory_stmt", "sync memory(STAT=statvar)", true},
    {"sync_memory_stmt", "sync memory(ERRMSG=errmsgvar)", true},
    {"sync_memory_stmt", "sync memory(STAT=statvar, ERRMSG=errmsgvar)", true},
    {"sync_memory_stmt", "sync memory(ERRMSG=errmsgvar, STAT=statvar)", true},
    {"sync_team_stmt", "sync team(1+2)", true},
    {"sync_team_stmt", "sync team(a, STAT=statvar, ERRMSG=errmsgvar)", true},
    {"sync_team_stmt", "sync team(1+2, errmsg=ha)", true},
    {"type_bound_generic_stmt", "generic :: foo=>bar", true},
    {"type_bound_generic_stmt", "generic,public :: foo=>bar", true},
    {"type_bound_generic_stmt", "generic,private :: foo=>bar,dip", true},
    {"type_bound_generic_stmt", "generic,public :: operator(.foo.)=>bar", true},
    {"type_bound_generic_stmt", "generic:: assignment(=)=>bar", true},
    {"type_bound_generic_stmt", "generic:: read(formatted)=>bar", true},
    {"type_bound_proc_binding", "procedure, private::save_to", true},
    {"use_stmt", "use foo", true},
    {"use_stmt", "use :: foo", true},
    {"use_stmt", "use, intrinsic:: foo", true},
    {"use_stmt", "use foo, a=>b", true},
    {"use_stmt", "use foo, a=>b, operator(.my.)=>operator(.notmy.)", true},
    {"use_stmt", "use foo, only:", true},
    {"use_stmt", "use foo, only:f1,f2", true},
    {"use_stmt", "use foo, only:assignment(=)", true},
    {"use_stmt", "use, intrinsic:: foo, only:a=>b", true},
    {"unlock_stmt", "unlock (var)", true},
    {"unlock_stmt", "unlock (var, errmsg=foo(1))", true},
    {"unlock_stmt", "unlock (var(i),  errmsg=errvar(i))", true},
    {"value_stmt", "value a", true},
    {"value_stmt", "value :: a", true},
    {"value_stmt", "value a, b,c", true},
    {"value_stmt", "value ::a,b,c", true},
    {"wait_stmt", "wait(1)", true},
    {"wait_stmt", "wait(fileno)", true},
    {"wait_stmt", "wait(fileno+1)", true},
    {"wait_stmt", "wait(end=99, unit=fileno)", true},
    {"wait_stmt", "wait(end=99, unit=fileno, iomsg=var, id=3+i*2)", true},
    {"wait_stmt", "wait(end=99, 13, iomsg=var, id=3+i*2)", true},
    {"where_construct_stmt", "where(.true.)", true},
    {"where_construct_stmt", "lbl: where(.true.)", true},
    {"where_stmt", "where(a>3) a= 3", true},
    {"write_stmt", "write (6, 10) A, S, J", true},
    {"write_stmt", "write (lp, fmt='(10f8.2)') (LOG(a(i)), i=1,n+9, k), g", true},
    {"write_stmt", "write(*,100) e/(x+f)", true},
    {"contains_stmt", "contains", true},
    {"continue_stmt", "continue", true},
    {"actual_arg_spec", "a+7, p=foo", false},
    {"allocate_coarray_spec", "*", true},
    {"allocate_coarray_spec", "1 1,*", true},
    {"allocate_coarray_spec", "1 1,2,3,*", true},
    {"allocate_coarray_spec", "1 1:1,2,3,*", true},
    {"allocate_coarray_spec", "1 1:1,1:2,1:3,1:*", true},
    {"array_element", "a(1)", false},
    {"array_element", "a(1,2)", false},
    {"array_element", "a(b)(1)", false},
    {"array_element", "c%a(b)(1)", false},
    {"array_element", "c(2)%d%a(b)(1)", false},
    {"array_element", "c(3)%a(b)(1)", false},
    {"array_element", "c(2)[5,2,STAT=var]%d[1]%a(b)[3](1)", false},
    {"coarray_spec", ":]", false},
    {"coarray_spec", ":,:]", false},
    {"coarray_spec", "*]", false},
    {"coarray_spec", "1 3,*]", false},
    {"coarray_spec", "1 3:*]", false},
    {"coarray_spec", "1 1,3:*]", false},
    {"coarray_spec", "1 1:2,3:*]", false},
    {"expr", "a", false},
    {"expr", "'a b c',", false},
    {"expr", "\"a b c\",", false},
    {"expr", "','", false},
    {"expr", "a==3,", false},
    {"expr", "a+b(3,[:])", false},
    {"expr", "a+b(3,[:]))", false},
    {"expr", "a+b(3,[:])]", false},
    {"expr", "a+b%q(3,[:]),]", false},
    {"expr", "a**3+b(3,[:]):]", false},
    {"expr", "999 1", true},
    {"generic_spec", "foo", true},
    {"generic_spec", "write", true},
    {"generic_spec", "OPERATOR(.def.)", true},
    {"generic_spec", "assignment(=)", true},
    {"generic_spec", "READ(FORMATTED)", true},
    {"generic_spec", "READ(UNFORMATTED)", true},
    {"generic_spec", "WRITE(FORMATTED)", true},
    {"generic_spec", "WRITE(UNFORMATTED)", true},
    {"loop_control", "CONCURRENT (i=a:b) DEFAULT(NONE)", true},
    {"loop_control", "CONCURRENT (i=a:b:s) LOCAL(x,y,z)", true},
    {"loop_control", "CONCURRENT (i=a:b, temp>100) LOCAL_INIT(x)", true},
    {"loop_control", "CONCURRENT (i=a:b) SHARED(x,y,z)", true},
    {"loop_control", "CONCURRENT (i=a:b)", true},
    {"image_selector", "[1]", false},
    {"image_selector", "[a+1]", false},
    {"image_selector", "[a+1,b-1]", false},
    {"image_selector", "[a+1,b-1,stat=a]", false},
    {"image_selector", "[2,3,4,stat=a]", false},
    {"image_selector", "[2+2,team=3,stat=a]", false},
    {"proc_component_ref", "a % b =>", false},
    {"procedure_designator", "a", true},
    {"procedure_designator", "a%b", true},
    {"procedure_designator", "a(1)%b", true},
    {"procedure_designator", "a(::)%b", true},
    {"procedure_designator", "q%a(:)[z, STAT=foo]%b", true},
    {"procedure_designator", "a()", false},
    {"procedure_designator", "a%b()", false},
    {"procedure_designator", "a(1)%b()", false},
    {"procedure_designator", "a(::)%b()", false},
    {"procedure_designator", "q%a(:)[z, STAT=foo]%b()", false},
    {"signed_real_literal_constant", "1 1.", true},
    {"signed_real_literal_constant", "1 +1.", true},
    {"signed_real_literal_constant", "1 -1.", true},
    {"signed_real_literal_constant", "1 12.", true},
    {"signed_real_literal_constant", "1 +12.", true},
    {"signed_real_literal_constant", "1 -12.", true},
    {"signed_real_literal_constant", "1 12.3", true},
    {"signed_real_literal_constant", "1 +12.3", true},
    {"signed_real_literal_constant", "1 -12.3", true},
    {"signed_real_literal_constant", "1 .3", true},
    {"signed_real_literal_constant", "1 +.3", true},
    {"signed_real_literal_constant", "1 -.3", true},
    {"signed_real_literal_constant", "1 1.e0", true},
    {"signed_real_literal_constant", "1 +1.d0", true},
    {"signed_real_literal_constant", "1 -1.e11", true},
    {"signed_real_literal_constant", "1 12.d22", true},
    {"signed_real_literal_constant", "1 +12.e+11", true},
    {"signed_real_literal_constant", "1 -12.e-11", true},
    {"signed_real_literal_constant", "1 12.3d+11", true},
    {"signed_real_literal_constant", "1 +12d-11", true},
    {"signed_real_literal_constant", "1 -12E0", true},
    {"signed_real_literal_constant", "1 3D-11", true},
    {"signed_real_literal_constant", "1 +.3e-1", true},
    {"signed_real_literal_constant", "1 -.3e-2", true},
    {"signed_real_literal_constant", "1 1._8", true},
    {"signed_real_literal_constant", "1 +1._82332", true},
    {"signed_real_literal_constant", "1 -1._e", true},
    {"signed_real_literal_constant", "1 12._c_double", true},
    {"signed_real_literal_constant", "1 12.3_q5", true},
    {"signed_real_literal_constant", "1 +12.3_dunn0", true},
    {"signed_real_literal_constant", "1 1.e0_8", true},
    {"signed_real_literal_constant", "1 -1.e11_c_double", true},
    {"signed_real_literal_constant", "1 +12.e+11_11", true},
    {"signed_real_literal_constant", "1 -12.e-11_minus11", true},
    {"signed_real_literal_constant", "1 -12E0_nadda", true},
    {"signed_real_literal_constant", "1 3e-11_33", true},
    {"signed_real_literal_constant", "1 +.3e-1_v", true},
    {"signed_real_literal_constant", "1 -.3e-2_h1", true},
    {"variable", "a", false},
    {"variable", "a+", false},
    {"variable", "a=", false},
    {"variable", "a%b(:)=", false},
    {"variable", "b[2,3,4,stat=var]=", false},
    {"wait_spec", "9999 1", true},
    {"wait_spec", "myfile", true},
    {"wait_spec", "unit+1", true},
    {"wait_spec", "unit=1", true},
    {"wait_spec", "unit=unit+1", true},
    {"wait_spec", "unit=myfile", true},
    {"wait_spec", "end=3", true},
    {"wait_spec", "eor=32", true},
    {"wait_spec", "err=330", true},
    {"wait_spec", "id=a+3", true},
    {"wait_spec", "iomsg=iomsg(i+1)", true},
    {"wait_spec", "iostat=foo", true},
    // one or more for each statement of the standard
    {"access_stmt", "public", true},
    {"access_stmt", "private :: aa, bb", true},
    {"access_stmt", "public operator(+), assignment(=)", true},
    {"action_stmt", "call sub(aa, bb)", true},
    {"action_stmt", "if (aa) return", true},
    {"action_stmt", "write (*, *) aa", true},
    {"backspace_stmt", "backspace 10", true},
    {"backspace_stmt", "backspace (unit=10, iostat=ios)", true},
    {"binding_private_stmt", "private", true},
    {"close_stmt", "close (10)", true},
    {"close_stmt", "close (unit=10, iostat=ios)", true},
    {"computed_goto_stmt", "go to (10, 20, 30), ii", true},
    {"computed_goto_stmt", "go to (10, 20) ii", true},
    {"data_component_def_stmt", "integer :: aa", true},
    {"data_component_def_stmt", "real, pointer :: aa(:) => null()", true},
    {"dimension_stmt", "dimension aa(10), bb(2, 3)", true},
    {"dimension_stmt", "dimension :: aa(10)", true},
    {"end_associate_stmt", "end associate", true},
    {"end_associate_stmt", "end associate nam", true},
    {"end_do_stmt", "end do", true},
    {"end_do_stmt", "enddo nam", true},
    {"end_enum_stmt", "end enum", true},
    {"end_forall_stmt", "end forall", true},
    {"end_forall_stmt", "endforall nam", true},
    {"end_interface_stmt", "end interface", true},
    {"end_interface_stmt", "end interface nam", true},
    {"end_interface_stmt", "end interface operator(+)", true},
    {"end_module_stmt", "end", true},
    {"end_module_stmt", "end module nam", true},
    {"end_mp_subprogram_stmt", "end procedure nam", true},
    {"end_program_stmt", "end program nam", true},
    {"end_program_stmt", "end", true},
    {"end_select_stmt", "end select", true},
    {"end_select_stmt", "endselect nam", true},
    {"end_select_rank_stmt", "end select", true},
    {"end_select_type_stmt", "end select nam", true},
    {"end_submodule_stmt", "end submodule nam", true},
    {"end_type_stmt", "end type nam", true},
    {"end_type_stmt", "endtype", true},
    {"endfile_stmt", "endfile 10", true},
    {"endfile_stmt", "end file (10, iostat=ios)", true},
    {"enum_def_stmt", "enum, bind(c)", true},
    {"enumerator_def_stmt", "enumerator :: aa, bb = 3", true},
    {"enumerator_def_stmt", "enumerator aa", true},
    {"equivalence_stmt", "equivalence (aa, bb(1)), (cc, dd)", true},
    {"error_stop_stmt", "error stop", true},
    {"error_stop_stmt", "error stop 'text'", true},
    {"error_stop_stmt", "error stop 3, quiet = .true.", true},
    {"final_procedure_stmt", "final :: aa, bb", true},
    {"final_procedure_stmt", "final aa", true},
    {"flush_stmt", "flush 10", true},
    {"flush_stmt", "flush (10, iostat=ios)", true},
    {"forall_assignment_stmt", "aa(ii) = bb(ii)", true},
    {"forall_assignment_stmt", "aa(ii)%pp => bb", true},
    {"forall_stmt", "forall (ii = 1:10) aa(ii) = ii", true},
    {"forall_stmt", "forall (ii = 1:10, jj = 1:10, ii /= jj) aa(ii, jj) = 0", true},
    {"import_stmt", "import", true},
    {"import_stmt", "import :: aa, bb", true},
    {"import_stmt", "import aa", true},
    {"import_stmt", "import, only: aa", true},
    {"import_stmt", "import, none", true},
    {"import_stmt", "import, all", true},
    {"intrinsic_stmt", "intrinsic :: sin, cos", true},
    {"intrinsic_stmt", "intrinsic sin", true},
    {"label_do_stmt", "do 10", true},
    {"label_do_stmt", "do 10 ii = 1, nn", true},
    {"label_do_stmt", "nam: do 10, while (aa)", true},

    {"macro_stmt", "FOO(aa, bb)", true},
    {"module_stmt", "module nam", true},
    {"mp_subprogram_stmt", "module procedure nam", true},
    {"nonlabel_do_stmt", "do", true},
    {"nonlabel_do_stmt", "do ii = 1, nn, 2", true},
    {"nonlabel_do_stmt", "nam: do while (aa)", true},
    {"nonlabel_do_stmt", "do concurrent (ii = 1:nn)", true},
    {"nullify_stmt", "nullify (aa, bb%pp)", true},
    {"open_stmt", "open (10, file='x', iostat=ios)", true},
    {"open_stmt", "open (newunit=aa, file=fn, status='old')", true},
    {"optional_stmt", "optional :: aa, bb", true},
    {"optional_stmt", "optional aa", true},
    {"private_components_stmt", "private", true},
    {"proc_component_def_stmt", "procedure(aa), pointer, nopass :: pp => null()", true},
    {"procedure_declaration_stmt", "procedure(aa), pointer :: pp", true},
    {"procedure_declaration_stmt", "procedure() :: pp", true},
    {"procedure_stmt", "module procedure aa, bb", true},
    {"procedure_stmt", "procedure :: aa", true},
    {"program_stmt", "program nam", true},
    {"rewind_stmt", "rewind 10", true},
    {"rewind_stmt", "rewind (10, err=20)", true},
    {"save_stmt", "save", true},
    {"save_stmt", "save :: aa, /bb/", true},
    {"select_type_stmt", "select type (aa => bb)", true},
    {"select_type_stmt", "nam: select type (aa)", true},
    {"sequence_stmt", "sequence", true},
    {"stop_stmt", "stop", true},
    {"stop_stmt", "stop 3", true},
    {"stop_stmt", "stop 'text', quiet=.false.", true},
    {"submodule_stmt", "submodule (aa) bb", true},
    {"submodule_stmt", "submodule (aa:cc) bb", true},
    {"sync_all_stmt", "sync all", true},
    {"sync_all_stmt", "sync all (stat=st)", true},
    {"sync_images_stmt", "sync images (*)", true},
    {"sync_images_stmt", "sync images (ii, stat=st)", true},
    {"sync_memory_stmt", "sync memory", true},
    {"sync_memory_stmt", "sync memory (stat=st)", true},
    {"sync_team_stmt", "sync team (tt)", true},
    {"sync_team_stmt", "sync team (tt, stat=st)", true},
    {"target_stmt", "target :: aa, bb(10)", true},
    {"target_stmt", "target aa", true},
    {"type_bound_procedure_stmt", "procedure :: aa => bb", true},
    {"type_bound_procedure_stmt", "procedure, pass(this) :: aa", true},
    {"type_bound_procedure_stmt", "procedure(aa), deferred :: bb", true},
    {"type_declaration_stmt", "integer :: aa", true},
    {"type_declaration_stmt", "real(kind=8), dimension(:), allocatable :: aa, bb", true},
    {"type_declaration_stmt", "character(len=*), intent(in) :: aa", true},
    {"type_declaration_stmt", "type(tt), pointer :: aa => null()", true},
    {"type_guard_stmt", "type is (aa)", true},
    {"type_guard_stmt", "class is (aa) nam", true},
    {"type_guard_stmt", "class default", true},
    {"type_param_def_stmt", "integer, kind :: aa = 4", true},
    {"type_param_def_stmt", "integer, len :: aa, bb", true},
    {"volatile_stmt", "volatile :: aa, bb", true},
    {"volatile_stmt", "volatile aa", true},
    {"wait_stmt", "wait (10)", true},
    {"where_stmt", "where (aa > 0) bb = cc", true},
    {"lock_stmt", "lock (aa, stat=st)", true},
    {"unlock_stmt", "unlock (aa)", true},
    {"form_team_stmt", "form team (3, tt)", true},
    {"event_post_stmt", "event post (ev)", true},
    {"event_wait_stmt", "event wait (ev, until_count=3)", true},
    {"fail_image_stmt", "fail image", true},
};
static int const n_samples = sizeof(samples) / sizeof(samples[0]);
} // namespace sp
