package checks

import (
	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/kuneiform/kfgrammar"
)

// treeRec is a visitor of the grammar that notes which of its methods was
// called with what.
type treeRec struct {
	calls []string
	nodes []any
	say   any
}

func (r *treeRec) note(m string, n any) any {
	r.calls, r.nodes = append(r.calls, m), append(r.nodes, n)
	return r.say
}

func (r *treeRec) Visit(t antlr.ParseTree) any            { return r.note("Visit", t) }
func (r *treeRec) VisitChildren(t antlr.RuleNode) any     { return r.note("VisitChildren", t) }
func (r *treeRec) VisitTerminal(t antlr.TerminalNode) any { return r.note("VisitTerminal", t) }
func (r *treeRec) VisitErrorNode(t antlr.ErrorNode) any   { return r.note("VisitErrorNode", t) }

func (r *treeRec) VisitSource_unit(t *kfgrammar.Source_unitContext) any {
	return r.note("VisitSource_unit", t)
}
func (r *treeRec) VisitDatabase_directive(t *kfgrammar.Database_directiveContext) any {
	return r.note("VisitDatabase_directive", t)
}
func (r *treeRec) VisitExtension_directive(t *kfgrammar.Extension_directiveContext) any {
	return r.note("VisitExtension_directive", t)
}
func (r *treeRec) VisitExt_config_list(t *kfgrammar.Ext_config_listContext) any {
	return r.note("VisitExt_config_list", t)
}
func (r *treeRec) VisitExt_config(t *kfgrammar.Ext_configContext) any {
	return r.note("VisitExt_config", t)
}
func (r *treeRec) VisitAnnotation_decl(t *kfgrammar.Annotation_declContext) any {
	return r.note("VisitAnnotation_decl", t)
}
func (r *treeRec) VisitAnnotation_attr_list(t *kfgrammar.Annotation_attr_listContext) any {
	return r.note("VisitAnnotation_attr_list", t)
}
func (r *treeRec) VisitAnnotation_attr(t *kfgrammar.Annotation_attrContext) any {
	return r.note("VisitAnnotation_attr", t)
}
func (r *treeRec) VisitTable_decl(t *kfgrammar.Table_declContext) any {
	return r.note("VisitTable_decl", t)
}
func (r *treeRec) VisitColumn_def(t *kfgrammar.Column_defContext) any {
	return r.note("VisitColumn_def", t)
}
func (r *treeRec) VisitColumn_def_list(t *kfgrammar.Column_def_listContext) any {
	return r.note("VisitColumn_def_list", t)
}
func (r *treeRec) VisitColumn_type(t *kfgrammar.Column_typeContext) any {
	return r.note("VisitColumn_type", t)
}
func (r *treeRec) VisitColumn_constraint(t *kfgrammar.Column_constraintContext) any {
	return r.note("VisitColumn_constraint", t)
}
func (r *treeRec) VisitLiteral_value(t *kfgrammar.Literal_valueContext) any {
	return r.note("VisitLiteral_value", t)
}
func (r *treeRec) VisitNumber_value(t *kfgrammar.Number_valueContext) any {
	return r.note("VisitNumber_value", t)
}
func (r *treeRec) VisitIndex_def(t *kfgrammar.Index_defContext) any {
	return r.note("VisitIndex_def", t)
}
func (r *treeRec) VisitForeign_key_action(t *kfgrammar.Foreign_key_actionContext) any {
	return r.note("VisitForeign_key_action", t)
}
func (r *treeRec) VisitForeign_key_def(t *kfgrammar.Foreign_key_defContext) any {
	return r.note("VisitForeign_key_def", t)
}
func (r *treeRec) VisitAction_visibility(t *kfgrammar.Action_visibilityContext) any {
	return r.note("VisitAction_visibility", t)
}
func (r *treeRec) VisitAction_mutability(t *kfgrammar.Action_mutabilityContext) any {
	return r.note("VisitAction_mutability", t)
}
func (r *treeRec) VisitAction_auxiliary(t *kfgrammar.Action_auxiliaryContext) any {
	return r.note("VisitAction_auxiliary", t)
}
func (r *treeRec) VisitAction_attr_list(t *kfgrammar.Action_attr_listContext) any {
	return r.note("VisitAction_attr_list", t)
}
func (r *treeRec) VisitAction_decl(t *kfgrammar.Action_declContext) any {
	return r.note("VisitAction_decl", t)
}
func (r *treeRec) VisitParam_list(t *kfgrammar.Param_listContext) any {
	return r.note("VisitParam_list", t)
}
func (r *treeRec) VisitParameter(t *kfgrammar.ParameterContext) any {
	return r.note("VisitParameter", t)
}
func (r *treeRec) VisitDatabase_name(t *kfgrammar.Database_nameContext) any {
	return r.note("VisitDatabase_name", t)
}
func (r *treeRec) VisitExtension_name(t *kfgrammar.Extension_nameContext) any {
	return r.note("VisitExtension_name", t)
}
func (r *treeRec) VisitExt_config_name(t *kfgrammar.Ext_config_nameContext) any {
	return r.note("VisitExt_config_name", t)
}
func (r *treeRec) VisitTable_name(t *kfgrammar.Table_nameContext) any {
	return r.note("VisitTable_name", t)
}
func (r *treeRec) VisitAction_name(t *kfgrammar.Action_nameContext) any {
	return r.note("VisitAction_name", t)
}
func (r *treeRec) VisitColumn_name(t *kfgrammar.Column_nameContext) any {
	return r.note("VisitColumn_name", t)
}
func (r *treeRec) VisitColumn_name_list(t *kfgrammar.Column_name_listContext) any {
	return r.note("VisitColumn_name_list", t)
}
func (r *treeRec) VisitIndex_name(t *kfgrammar.Index_nameContext) any {
	return r.note("VisitIndex_name", t)
}
func (r *treeRec) VisitAnnotation_target_name(t *kfgrammar.Annotation_target_nameContext) any {
	return r.note("VisitAnnotation_target_name", t)
}
func (r *treeRec) VisitAnnotation_attr_name(t *kfgrammar.Annotation_attr_nameContext) any {
	return r.note("VisitAnnotation_attr_name", t)
}
func (r *treeRec) VisitAnnotation_attr_value(t *kfgrammar.Annotation_attr_valueContext) any {
	return r.note("VisitAnnotation_attr_value", t)
}
func (r *treeRec) VisitExt_config_value(t *kfgrammar.Ext_config_valueContext) any {
	return r.note("VisitExt_config_value", t)
}
func (r *treeRec) VisitInit_decl(t *kfgrammar.Init_declContext) any {
	return r.note("VisitInit_decl", t)
}
func (r *treeRec) VisitAction_stmt_list(t *kfgrammar.Action_stmt_listContext) any {
	return r.note("VisitAction_stmt_list", t)
}
func (r *treeRec) VisitAction_stmt(t *kfgrammar.Action_stmtContext) any {
	return r.note("VisitAction_stmt", t)
}
func (r *treeRec) VisitSql_stmt(t *kfgrammar.Sql_stmtContext) any { return r.note("VisitSql_stmt", t) }
func (r *treeRec) VisitCall_stmt(t *kfgrammar.Call_stmtContext) any {
	return r.note("VisitCall_stmt", t)
}
func (r *treeRec) VisitCall_receivers(t *kfgrammar.Call_receiversContext) any {
	return r.note("VisitCall_receivers", t)
}
func (r *treeRec) VisitCall_body(t *kfgrammar.Call_bodyContext) any {
	return r.note("VisitCall_body", t)
}
func (r *treeRec) VisitVariable(t *kfgrammar.VariableContext) any { return r.note("VisitVariable", t) }
func (r *treeRec) VisitBlock_var(t *kfgrammar.Block_varContext) any {
	return r.note("VisitBlock_var", t)
}
func (r *treeRec) VisitExtension_call_name(t *kfgrammar.Extension_call_nameContext) any {
	return r.note("VisitExtension_call_name", t)
}
func (r *treeRec) VisitFn_name(t *kfgrammar.Fn_nameContext) any   { return r.note("VisitFn_name", t) }
func (r *treeRec) VisitSfn_name(t *kfgrammar.Sfn_nameContext) any { return r.note("VisitSfn_name", t) }
func (r *treeRec) VisitFn_arg_list(t *kfgrammar.Fn_arg_listContext) any {
	return r.note("VisitFn_arg_list", t)
}
func (r *treeRec) VisitFn_arg_expr(t *kfgrammar.Fn_arg_exprContext) any {
	return r.note("VisitFn_arg_expr", t)
}

var _ kfgrammar.KuneiformParserVisitor = (*treeRec)(nil)
