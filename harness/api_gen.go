package main

// Written by tools/genapi.py.

import "github.com/manhcuongbk56/cypher-go-dsl"

var exported = []apiFunc{
	{"ACall", cypher.ACall},
	{"ACallByStatement", cypher.ACallByStatement},
	{"ACallSimple", cypher.ACallSimple},
	{"ANode", cypher.ANode},
	{"AParam", cypher.AParam},
	{"APath", cypher.APath},
	{"APathBySymbolic", cypher.APathBySymbolic},
	{"AProperty", cypher.AProperty},
	{"APropertyByExpression", cypher.APropertyByExpression},
	{"AQuote", cypher.AQuote},
	{"AShortestPath", cypher.AShortestPath},
	{"AShortestPathBySymbolic", cypher.AShortestPathBySymbolic},
	{"ASubList", cypher.ASubList},
	{"ASubListFromByExpression", cypher.ASubListFromByExpression},
	{"ASubListUntil", cypher.ASubListUntil},
	{"ASymbolic", cypher.ASymbolic},
	{"AliasedExpressionCreate", cypher.AliasedExpressionCreate},
	{"AliasedExpressionError", cypher.AliasedExpressionError},
	{"AnAsterisk", cypher.AnAsterisk},
	{"AnOptionalMatch", cypher.AnOptionalMatch},
	{"AnyNode", cypher.AnyNode},
	{"AnyNodeNamed", cypher.AnyNodeNamed},
	{"ArgumentsCreate", cypher.ArgumentsCreate},
	{"AsteriskCreate", cypher.AsteriskCreate},
	{"Avg", cypher.Avg},
	{"AvgDistinct", cypher.AvgDistinct},
	{"BooleanFunctionConditionCreate", cypher.BooleanFunctionConditionCreate},
	{"BooleanFunctionConditionError", cypher.BooleanFunctionConditionError},
	{"BooleanLiteralCreate", cypher.BooleanLiteralCreate},
	{"CalendarDate", cypher.CalendarDate},
	{"CaseElseCreate", cypher.CaseElseCreate},
	{"CaseExpression", cypher.CaseExpression},
	{"CaseWhenThenCreate", cypher.CaseWhenThenCreate},
	{"Coalesce", cypher.Coalesce},
	{"Collect", cypher.Collect},
	{"CollectByNamed", cypher.CollectByNamed},
	{"CollectDistinct", cypher.CollectDistinct},
	{"CollectDistinctByNamed", cypher.CollectDistinctByNamed},
	{"ComparisonCreate", cypher.ComparisonCreate},
	{"ComparisonCreate1", cypher.ComparisonCreate1},
	{"ComparisonError", cypher.ComparisonError},
	{"CompoundConditionCreate", cypher.CompoundConditionCreate},
	{"CompoundConditionCreate1", cypher.CompoundConditionCreate1},
	{"CompoundConditionError", cypher.CompoundConditionError},
	{"ConditionBuilderCreate", cypher.ConditionBuilderCreate},
	{"ConditionWrap", cypher.ConditionWrap},
	{"ConditionsIsFalse", cypher.ConditionsIsFalse},
	{"ConditionsIsTrue", cypher.ConditionsIsTrue},
	{"ConditionsNoCondition", cypher.ConditionsNoCondition},
	{"ConditionsNot", cypher.ConditionsNot},
	{"ConditionsNotByPattern", cypher.ConditionsNotByPattern},
	{"ConstantConditionCreate", cypher.ConstantConditionCreate},
	{"ConstantConditionError", cypher.ConstantConditionError},
	{"Count", cypher.Count},
	{"CountByExpression", cypher.CountByExpression},
	{"CountDistinct", cypher.CountDistinct},
	{"CountDistinctByExpression", cypher.CountDistinctByExpression},
	{"Create", cypher.Create},
	{"CreateAscendingSortItem", cypher.CreateAscendingSortItem},
	{"CreateBuilderCreate", cypher.CreateBuilderCreate},
	{"CreateDescendingSortItem", cypher.CreateDescendingSortItem},
	{"CreateSymbolicNameByNamed", cypher.CreateSymbolicNameByNamed},
	{"CreateSymbolicNameByString", cypher.CreateSymbolicNameByString},
	{"CypherListWith", cypher.CypherListWith},
	{"CypherReturning", cypher.CypherReturning},
	{"CypherSubListFrom", cypher.CypherSubListFrom},
	{"CypherSubListUntilByExpression", cypher.CypherSubListUntilByExpression},
	{"CypherValueAt", cypher.CypherValueAt},
	{"CypherValueAtByExpression", cypher.CypherValueAtByExpression},
	{"Date", cypher.Date},
	{"DateTimeWithComponents", cypher.DateTimeWithComponents},
	{"DateTimeWithExpression", cypher.DateTimeWithExpression},
	{"DateTimeWithTemporal", cypher.DateTimeWithTemporal},
	{"DateWithComponents", cypher.DateWithComponents},
	{"DateWithExpression", cypher.DateWithExpression},
	{"DateWithTemporal", cypher.DateWithTemporal},
	{"Datetime", cypher.Datetime},
	{"DefaultOngoingUnwindError", cypher.DefaultOngoingUnwindError},
	{"DefaultStatementBuilderCreate", cypher.DefaultStatementBuilderCreate},
	{"DefaultStatementBuilderCreate1", cypher.DefaultStatementBuilderCreate1},
	{"DefaultStatementBuilderError", cypher.DefaultStatementBuilderError},
	{"DefaultStatementWithReturnBuilderError", cypher.DefaultStatementWithReturnBuilderError},
	{"DefaultStatementWithUpdateBuilderError", cypher.DefaultStatementWithUpdateBuilderError},
	{"DefaultStatementWithWithBuilderError", cypher.DefaultStatementWithWithBuilderError},
	{"DeleteBuilderCreate", cypher.DeleteBuilderCreate},
	{"DeleteCreate", cypher.DeleteCreate},
	{"DeleteError", cypher.DeleteError},
	{"DirectionCreate", cypher.DirectionCreate},
	{"Distance", cypher.Distance},
	{"DistinctExpressionCreate", cypher.DistinctExpressionCreate},
	{"DistinctExpressionError", cypher.DistinctExpressionError},
	{"DotCreate", cypher.DotCreate},
	{"DurationWithComponents", cypher.DurationWithComponents},
	{"DurationWithExpression", cypher.DurationWithExpression},
	{"DurationWithTemporal", cypher.DurationWithTemporal},
	{"EndNode", cypher.EndNode},
	{"EndingGenericCaseCreate", cypher.EndingGenericCaseCreate},
	{"EndingSimpleCaseCreate", cypher.EndingSimpleCaseCreate},
	{"EntryExpressionCreate", cypher.EntryExpressionCreate},
	{"EscapeIfNecessary", cypher.EscapeIfNecessary},
	{"ExcludedPatternCreate", cypher.ExcludedPatternCreate},
	{"ExcludedPatternError", cypher.ExcludedPatternError},
	{"ExistentialSubqueryCreate", cypher.ExistentialSubqueryCreate},
	{"ExistentialSubqueryError", cypher.ExistentialSubqueryError},
	{"ExistentialSubqueryExists", cypher.ExistentialSubqueryExists},
	{"Exists", cypher.Exists},
	{"ExpressionListCreate", cypher.ExpressionListCreate},
	{"ExpressionListError", cypher.ExpressionListError},
	{"ExpressionWrap", cypher.ExpressionWrap},
	{"ExpressionsToVisitables", cypher.ExpressionsToVisitables},
	{"FunctionArgumentListCreate", cypher.FunctionArgumentListCreate},
	{"FunctionInvocationCreate", cypher.FunctionInvocationCreate},
	{"FunctionInvocationCreate1", cypher.FunctionInvocationCreate1},
	{"FunctionInvocationCreateDistinct", cypher.FunctionInvocationCreateDistinct},
	{"FunctionInvocationCreateWithFunctionName", cypher.FunctionInvocationCreateWithFunctionName},
	{"FunctionInvocationCreateWithPattern", cypher.FunctionInvocationCreateWithPattern},
	{"FunctionInvocationCreateWithPatternElement", cypher.FunctionInvocationCreateWithPatternElement},
	{"FunctionInvocationError", cypher.FunctionInvocationError},
	{"FunctionProperties", cypher.FunctionProperties},
	{"FunctionPropertiesByRelationship", cypher.FunctionPropertiesByRelationship},
	{"FunctionType", cypher.FunctionType},
	{"GenericCaseCreate", cypher.GenericCaseCreate},
	{"GenericCaseCreate1", cypher.GenericCaseCreate1},
	{"GenericCaseExpression", cypher.GenericCaseExpression},
	{"HasLabelConditionCreate", cypher.HasLabelConditionCreate},
	{"HasLabelConditionCreate1", cypher.HasLabelConditionCreate1},
	{"HasLabelConditionError", cypher.HasLabelConditionError},
	{"Head", cypher.Head},
	{"IdByNode", cypher.IdByNode},
	{"IdByRelationship", cypher.IdByRelationship},
	{"KeyValueMapEntryCreate", cypher.KeyValueMapEntryCreate},
	{"KeyValueMapEntryError", cypher.KeyValueMapEntryError},
	{"LTR", cypher.LTR},
	{"Labels", cypher.Labels},
	{"Last", cypher.Last},
	{"LimitCreate", cypher.LimitCreate},
	{"LimitError", cypher.LimitError},
	{"ListBasedOn", cypher.ListBasedOn},
	{"ListBasedOnNamed", cypher.ListBasedOnNamed},
	{"ListComprehensionBuilderCreate", cypher.ListComprehensionBuilderCreate},
	{"ListComprehensionCreate", cypher.ListComprehensionCreate},
	{"ListComprehensionError", cypher.ListComprehensionError},
	{"ListComprehensionWith", cypher.ListComprehensionWith},
	{"ListExpressionCreate", cypher.ListExpressionCreate},
	{"ListExpressionCreate1", cypher.ListExpressionCreate1},
	{"ListExpressionError", cypher.ListExpressionError},
	{"ListLiteralCreate", cypher.ListLiteralCreate},
	{"ListLiteralError", cypher.ListLiteralError},
	{"ListOf", cypher.ListOf},
	{"ListOfRaw", cypher.ListOfRaw},
	{"ListOperatorDetailsCreate", cypher.ListOperatorDetailsCreate},
	{"ListOperatorError", cypher.ListOperatorError},
	{"ListOrSingleExpression", cypher.ListOrSingleExpression},
	{"ListPredicateCreate", cypher.ListPredicateCreate},
	{"ListPredicateError", cypher.ListPredicateError},
	{"LiteralFalse", cypher.LiteralFalse},
	{"LiteralOf", cypher.LiteralOf},
	{"LiteralTrue", cypher.LiteralTrue},
	{"LocalDateTimeWithComponents", cypher.LocalDateTimeWithComponents},
	{"LocalDateTimeWithExpression", cypher.LocalDateTimeWithExpression},
	{"LocalDateTimeWithTemporal", cypher.LocalDateTimeWithTemporal},
	{"LocalDateTimeWithTimezone", cypher.LocalDateTimeWithTimezone},
	{"LocalDatetime", cypher.LocalDatetime},
	{"LocalTimeWithComponents", cypher.LocalTimeWithComponents},
	{"LocalTimeWithExpression", cypher.LocalTimeWithExpression},
	{"LocalTimeWithTemporal", cypher.LocalTimeWithTemporal},
	{"LocalTimeWithTimezone", cypher.LocalTimeWithTimezone},
	{"Localtime", cypher.Localtime},
	{"MapExpressionCreate", cypher.MapExpressionCreate},
	{"MapExpressionError", cypher.MapExpressionError},
	{"MapOf", cypher.MapOf},
	{"MapProjectionCreate", cypher.MapProjectionCreate},
	{"MapProjectionCreateWithMapExpression", cypher.MapProjectionCreateWithMapExpression},
	{"MapProjectionError", cypher.MapProjectionError},
	{"Match", cypher.Match},
	{"MatchBuilderCreate", cypher.MatchBuilderCreate},
	{"MatchPhraseCreate", cypher.MatchPhraseCreate},
	{"MatchWithOption", cypher.MatchWithOption},
	{"Max", cypher.Max},
	{"MaxDistinct", cypher.MaxDistinct},
	{"Merge", cypher.Merge},
	{"MergeActionCreate", cypher.MergeActionCreate},
	{"MergeBuilderCreate", cypher.MergeBuilderCreate},
	{"Min", cypher.Min},
	{"MinDistinct", cypher.MinDistinct},
	{"MultiPartElementCreate", cypher.MultiPartElementCreate},
	{"MultiPartQueryCreate", cypher.MultiPartQueryCreate},
	{"MultiPartQueryError", cypher.MultiPartQueryError},
	{"NameOrExpression", cypher.NameOrExpression},
	{"NameSpaceCreate", cypher.NameSpaceCreate},
	{"NamedPathBuilderCreate", cypher.NamedPathBuilderCreate},
	{"NamedPathBuilderWithName", cypher.NamedPathBuilderWithName},
	{"NamedPathBuilderWithNameByString", cypher.NamedPathBuilderWithNameByString},
	{"NamedPathCreate", cypher.NamedPathCreate},
	{"NamedPathCreate1", cypher.NamedPathCreate1},
	{"NamedPathError", cypher.NamedPathError},
	{"NamedPathShortestPathWithName", cypher.NamedPathShortestPathWithName},
	{"NamedPathShortestPathWithNameByString", cypher.NamedPathShortestPathWithNameByString},
	{"NestedExpressionCreate", cypher.NestedExpressionCreate},
	{"NestedExpressionError", cypher.NestedExpressionError},
	{"NewExpressionList", cypher.NewExpressionList},
	{"NewMapExpression", cypher.NewMapExpression},
	{"NewNodeWithLabels", cypher.NewNodeWithLabels},
	{"NewNodeWithProperties", cypher.NewNodeWithProperties},
	{"NewRenderer", cypher.NewRenderer},
	{"NodeCreate", cypher.NodeCreate},
	{"NodeCreate1", cypher.NodeCreate1},
	{"NodeCreate2", cypher.NodeCreate2},
	{"NodeCreate3", cypher.NodeCreate3},
	{"NodeCreate4", cypher.NodeCreate4},
	{"NodeCreate5", cypher.NodeCreate5},
	{"NodeError", cypher.NodeError},
	{"NodeLabelCreate", cypher.NodeLabelCreate},
	{"NodeLabelError", cypher.NodeLabelError},
	{"NodeLabelsCreate", cypher.NodeLabelsCreate},
	{"NodeLabelsError", cypher.NodeLabelsError},
	{"Nodes", cypher.Nodes},
	{"NullLiteralCreate", cypher.NullLiteralCreate},
	{"NumberLiteralCreate", cypher.NumberLiteralCreate},
	{"NumberLiteralCreate1", cypher.NumberLiteralCreate1},
	{"NumberLiteralCreate2", cypher.NumberLiteralCreate2},
	{"NumberLiteralError", cypher.NumberLiteralError},
	{"OngoingMergeActionInBuilderError", cypher.OngoingMergeActionInBuilderError},
	{"OperationAdd", cypher.OperationAdd},
	{"OperationConcat", cypher.OperationConcat},
	{"OperationCreate", cypher.OperationCreate},
	{"OperationCreate1", cypher.OperationCreate1},
	{"OperationCreate2", cypher.OperationCreate2},
	{"OperationDivide", cypher.OperationDivide},
	{"OperationError", cypher.OperationError},
	{"OperationMultiply", cypher.OperationMultiply},
	{"OperationPow", cypher.OperationPow},
	{"OperationRemainder", cypher.OperationRemainder},
	{"OperationRemove", cypher.OperationRemove},
	{"OperationSet", cypher.OperationSet},
	{"OperationSetLabel", cypher.OperationSetLabel},
	{"OperationSubtract", cypher.OperationSubtract},
	{"OperatorCreate", cypher.OperatorCreate},
	{"OperatorError", cypher.OperatorError},
	{"OrderBuilderCreate", cypher.OrderBuilderCreate},
	{"OrderCreate", cypher.OrderCreate},
	{"OrdinalDate", cypher.OrdinalDate},
	{"ParameterCreate", cypher.ParameterCreate},
	{"ParameterError", cypher.ParameterError},
	{"PatternComprehensionBasedOn", cypher.PatternComprehensionBasedOn},
	{"PatternComprehensionBasedOnNamePath", cypher.PatternComprehensionBasedOnNamePath},
	{"PatternComprehensionBuilderCreate", cypher.PatternComprehensionBuilderCreate},
	{"PatternComprehensionCreate", cypher.PatternComprehensionCreate},
	{"PatternComprehensionError", cypher.PatternComprehensionError},
	{"PatternCreate", cypher.PatternCreate},
	{"PatternElementsToVisitables", cypher.PatternElementsToVisitables},
	{"PercentileCont", cypher.PercentileCont},
	{"PercentileContDistinct", cypher.PercentileContDistinct},
	{"PercentileDisc", cypher.PercentileDisc},
	{"PercentileDiscDistinct", cypher.PercentileDiscDistinct},
	{"Point", cypher.Point},
	{"PointByParameter", cypher.PointByParameter},
	{"PredicateAll", cypher.PredicateAll},
	{"PredicateAllBySymbolicName", cypher.PredicateAllBySymbolicName},
	{"PredicateAny", cypher.PredicateAny},
	{"PredicateAnyBySymbolicName", cypher.PredicateAnyBySymbolicName},
	{"PredicateBuilderCreate", cypher.PredicateBuilderCreate},
	{"PredicateExists", cypher.PredicateExists},
	{"PredicateExistsByPattern", cypher.PredicateExistsByPattern},
	{"PredicateNone", cypher.PredicateNone},
	{"PredicateNoneBySymbolicName", cypher.PredicateNoneBySymbolicName},
	{"PredicateSingle", cypher.PredicateSingle},
	{"PredicateSingleBySymbolicName", cypher.PredicateSingleBySymbolicName},
	{"ProcedureCallCreate", cypher.ProcedureCallCreate},
	{"ProcedureNameCreate", cypher.ProcedureNameCreate},
	{"ProcedureNameCreate1", cypher.ProcedureNameCreate1},
	{"ProcedureNameCreate2", cypher.ProcedureNameCreate2},
	{"PropertiesByMapExpression", cypher.PropertiesByMapExpression},
	{"PropertiesCreate", cypher.PropertiesCreate},
	{"PropertiesError", cypher.PropertiesError},
	{"PropertyCreate", cypher.PropertyCreate},
	{"PropertyCreate1", cypher.PropertyCreate1},
	{"PropertyCreate2", cypher.PropertyCreate2},
	{"PropertyError", cypher.PropertyError},
	{"PropertyLookupCreate", cypher.PropertyLookupCreate},
	{"QuarterDate", cypher.QuarterDate},
	{"RTL", cypher.RTL},
	{"Range", cypher.Range},
	{"RangeRaw", cypher.RangeRaw},
	{"RangeWithStep", cypher.RangeWithStep},
	{"RangeWithStepRaw", cypher.RangeWithStepRaw},
	{"RawStringLiteralCreate", cypher.RawStringLiteralCreate},
	{"RawStringLiteralError", cypher.RawStringLiteralError},
	{"RelationshipChainCreate", cypher.RelationshipChainCreate},
	{"RelationshipChainError", cypher.RelationshipChainError},
	{"RelationshipCreate", cypher.RelationshipCreate},
	{"RelationshipCreate3", cypher.RelationshipCreate3},
	{"RelationshipDetailsCreate", cypher.RelationshipDetailsCreate},
	{"RelationshipDetailsCreate1", cypher.RelationshipDetailsCreate1},
	{"RelationshipDetailsCreate2", cypher.RelationshipDetailsCreate2},
	{"RelationshipDetailsError", cypher.RelationshipDetailsError},
	{"RelationshipError", cypher.RelationshipError},
	{"RelationshipLengthCreate", cypher.RelationshipLengthCreate},
	{"RelationshipLengthCreate1", cypher.RelationshipLengthCreate1},
	{"RelationshipPatternConditionCreate", cypher.RelationshipPatternConditionCreate},
	{"RelationshipPatternConditionError", cypher.RelationshipPatternConditionError},
	{"RelationshipTypesCreate", cypher.RelationshipTypesCreate},
	{"RelationshipTypesError", cypher.RelationshipTypesError},
	{"Relationships", cypher.Relationships},
	{"RemoveBuilderCreate", cypher.RemoveBuilderCreate},
	{"RemoveCreate", cypher.RemoveCreate},
	{"RemoveError", cypher.RemoveError},
	{"ReturnBodyCreate", cypher.ReturnBodyCreate},
	{"ReturnBodyError", cypher.ReturnBodyError},
	{"ReturnCreate", cypher.ReturnCreate},
	{"ReturnCreate1", cypher.ReturnCreate1},
	{"ReturnError", cypher.ReturnError},
	{"SetBuilderCreate", cypher.SetBuilderCreate},
	{"SetCreate", cypher.SetCreate},
	{"SetError", cypher.SetError},
	{"ShortestPath", cypher.ShortestPath},
	{"ShortestPathBuilderCreate", cypher.ShortestPathBuilderCreate},
	{"SimpleCaseCreate", cypher.SimpleCaseCreate},
	{"SimpleCaseCreate1", cypher.SimpleCaseCreate1},
	{"SinglePartQueryCreate", cypher.SinglePartQueryCreate},
	{"SinglePartQueryError", cypher.SinglePartQueryError},
	{"Size", cypher.Size},
	{"SizeByPattern", cypher.SizeByPattern},
	{"SkipCreate", cypher.SkipCreate},
	{"Sort", cypher.Sort},
	{"SortItemCreate", cypher.SortItemCreate},
	{"SortItemError", cypher.SortItemError},
	{"SortItemsOfRaw", cypher.SortItemsOfRaw},
	{"StDev", cypher.StDev},
	{"StDevDistinct", cypher.StDevDistinct},
	{"StDevP", cypher.StDevP},
	{"StDevPDistinct", cypher.StDevPDistinct},
	{"StandaloneCallBuilderCreate", cypher.StandaloneCallBuilderCreate},
	{"StandaloneCallBuilderError", cypher.StandaloneCallBuilderError},
	{"StartNode", cypher.StartNode},
	{"StatementCall", cypher.StatementCall},
	{"StringLiteralCreate", cypher.StringLiteralCreate},
	{"StringLiteralError", cypher.StringLiteralError},
	{"SubList", cypher.SubList},
	{"SubListFrom", cypher.SubListFrom},
	{"SubListUntil", cypher.SubListUntil},
	{"SubqueryCall", cypher.SubqueryCall},
	{"SubqueryCreate", cypher.SubqueryCreate},
	{"SubqueryError", cypher.SubqueryError},
	{"Sum", cypher.Sum},
	{"SumDistinct", cypher.SumDistinct},
	{"SymbolicNameCreate", cypher.SymbolicNameCreate},
	{"SymbolicNameError", cypher.SymbolicNameError},
	{"SymbolicNameUnResolve", cypher.SymbolicNameUnResolve},
	{"Time", cypher.Time},
	{"TimeWithComponents", cypher.TimeWithComponents},
	{"TimeWithExpression", cypher.TimeWithExpression},
	{"TimeWithTemporal", cypher.TimeWithTemporal},
	{"TimeWithTimeZone", cypher.TimeWithTimeZone},
	{"ToLower", cypher.ToLower},
	{"UNI", cypher.UNI},
	{"Union", cypher.Union},
	{"UnionAll", cypher.UnionAll},
	{"UnionPartCreate", cypher.UnionPartCreate},
	{"UnionPartError", cypher.UnionPartError},
	{"UnionQueryCreate", cypher.UnionQueryCreate},
	{"UnionQueryError", cypher.UnionQueryError},
	{"Unwind", cypher.Unwind},
	{"UnwindMulti", cypher.UnwindMulti},
	{"ValueAt", cypher.ValueAt},
	{"WeekDate", cypher.WeekDate},
	{"WhereCreate", cypher.WhereCreate},
	{"WhereError", cypher.WhereError},
	{"With", cypher.With},
	{"WithByNamed", cypher.WithByNamed},
	{"WithByString", cypher.WithByString},
	{"YieldItemsCreate", cypher.YieldItemsCreate},
	{"YieldItemsError", cypher.YieldItemsError},
}

var exportedValues = []apiFunc{
	{"ADDITION", cypher.ADDITION},
	{"ALL", cypher.ALL},
	{"AND", cypher.AND},
	{"ANY", cypher.ANY},
	{"ASSIGMENT", cypher.ASSIGMENT},
	{"ASTERISK", cypher.ASTERISK},
	{"AVG", cypher.AVG},
	{"BLANK", cypher.BLANK},
	{"CHARACTER_MAP", cypher.CHARACTER_MAP},
	{"COALESCE", cypher.COALESCE},
	{"COLLECT", cypher.COLLECT},
	{"CONCAT", cypher.CONCAT},
	{"CONTAINS", cypher.CONTAINS},
	{"COUNT", cypher.COUNT},
	{"DATE", cypher.DATE},
	{"DATETIME", cypher.DATETIME},
	{"DISTANCE", cypher.DISTANCE},
	{"DISTINCT_INSTANCE", cypher.DISTINCT_INSTANCE},
	{"DIVISION", cypher.DIVISION},
	{"DOTS", cypher.DOTS},
	{"DURATION", cypher.DURATION},
	{"EMPTY_CONDITION", cypher.EMPTY_CONDITION},
	{"ENDING_GENERIC_CASE", cypher.ENDING_GENERIC_CASE},
	{"ENDING_SIMPLE_CASE", cypher.ENDING_SIMPLE_CASE},
	{"ENDS_WITH", cypher.ENDS_WITH},
	{"END_NODE", cypher.END_NODE},
	{"EQUALITY", cypher.EQUALITY},
	{"EXISTS", cypher.EXISTS},
	{"EXPONENTIATION", cypher.EXPONENTIATION},
	{"FALSE", cypher.FALSE},
	{"FALSE_CONDITION", cypher.FALSE_CONDITION},
	{"GENERIC_CASE", cypher.GENERIC_CASE},
	{"GET", cypher.GET},
	{"GREATER_THAN", cypher.GREATER_THAN},
	{"GREATER_THAN_OR_EQUAL_TO", cypher.GREATER_THAN_OR_EQUAL_TO},
	{"HEAD", cypher.HEAD},
	{"ID", cypher.ID},
	{"IN", cypher.IN},
	{"INEQUALITY", cypher.INEQUALITY},
	{"IS_NOT_NULL", cypher.IS_NOT_NULL},
	{"IS_NULL", cypher.IS_NULL},
	{"LABELS", cypher.LABELS},
	{"LAST", cypher.LAST},
	{"LESS_THAN", cypher.LESS_THAN},
	{"LESS_THAN_OR_EQUAL_TO", cypher.LESS_THAN_OR_EQUAL_TO},
	{"LOCALDATETIME", cypher.LOCALDATETIME},
	{"LOCALTIME", cypher.LOCALTIME},
	{"MATCHES", cypher.MATCHES},
	{"MAX", cypher.MAX},
	{"MIN", cypher.MIN},
	{"MODULO_DIVISION", cypher.MODULO_DIVISION},
	{"MULTIPLICATION", cypher.MULTIPLICATION},
	{"MUTATE", cypher.MUTATE},
	{"NIL_INSTANCE", cypher.NIL_INSTANCE},
	{"NODES", cypher.NODES},
	{"NONE", cypher.NONE},
	{"NOT", cypher.NOT},
	{"OR", cypher.OR},
	{"PERCENTILE_CONT", cypher.PERCENTILE_CONT},
	{"PERCENTILE_DISC", cypher.PERCENTILE_DISC},
	{"PIPE", cypher.PIPE},
	{"POINT", cypher.POINT},
	{"PROPERTIES", cypher.PROPERTIES},
	{"QUOTED_LITERAL_FORMAT", cypher.QUOTED_LITERAL_FORMAT},
	{"RANGE", cypher.RANGE},
	{"RELATIONSHIPS", cypher.RELATIONSHIPS},
	{"REMOVE_LABEL", cypher.REMOVE_LABEL},
	{"SET", cypher.SET},
	{"SET_LABEL", cypher.SET_LABEL},
	{"SHORTEST_PATH", cypher.SHORTEST_PATH},
	{"SIMPLE_CASE", cypher.SIMPLE_CASE},
	{"SINGLE", cypher.SINGLE},
	{"SIZE", cypher.SIZE},
	{"STARTS_WITH", cypher.STARTS_WITH},
	{"START_NODE", cypher.START_NODE},
	{"ST_DEV", cypher.ST_DEV},
	{"ST_DEV_P", cypher.ST_DEV_P},
	{"SUBTRACTION", cypher.SUBTRACTION},
	{"SUM", cypher.SUM},
	{"SYMBOLIC_GENERATOR", cypher.SYMBOLIC_GENERATOR},
	{"TIME", cypher.TIME},
	{"TO_LOWER", cypher.TO_LOWER},
	{"TRUE", cypher.TRUE},
	{"TRUE_CONDITION", cypher.TRUE_CONDITION},
	{"TYPE", cypher.TYPE},
	{"VALID_OPERATORS", cypher.VALID_OPERATORS},
	{"XOR", cypher.XOR},
}

// a method that is not one of these is none that users of the pinned version know
var exportedMethods = map[string]bool{
	"Add":                       true,
	"AddEntries":                true,
	"AddExpression":             true,
	"AddWith":                   true,
	"Aliased":                   true,
	"And":                       true,
	"And1":                      true,
	"AndPattern":                true,
	"As":                        true,
	"AsCondition":               true,
	"AsFunction":                true,
	"AsName":                    true,
	"AsString":                  true,
	"Ascending":                 true,
	"Build":                     true,
	"BuildImpl":                 true,
	"BuildListOfVisitable":      true,
	"BuildOrder":                true,
	"Call":                      true,
	"Call1":                     true,
	"CloseCurrentOngoingCall":   true,
	"CloseCurrentOngoingMatch":  true,
	"CloseCurrentOngoingUpdate": true,
	"Concat":                    true,
	"Contains":                  true,
	"Create":                    true,
	"DefinedBy":                 true,
	"Delete":                    true,
	"DeleteByNamed":             true,
	"DeleteByString":            true,
	"DeleteDefault":             true,
	"Descending":                true,
	"DetachDelete":              true,
	"DetachDeleteByNamed":       true,
	"DetachDeleteByString":      true,
	"Divide":                    true,
	"ElseDefault":               true,
	"EndsWith":                  true,
	"Get":                       true,
	"GetAlias":                  true,
	"GetContent":                true,
	"GetErr":                    true,
	"GetError":                  true,
	"GetExpressionType":         true,
	"GetPropertyKeyName":        true,
	"GetRequiredSymbolicName":   true,
	"GetSymbolicName":           true,
	"Gt":                        true,
	"Gte":                       true,
	"HasLabels":                 true,
	"In":                        true,
	"InternalId":                true,
	"IsEmpty":                   true,
	"IsEqualTo":                 true,
	"IsFalse":                   true,
	"IsNotEqualTo":              true,
	"IsNotNull":                 true,
	"IsNull":                    true,
	"IsPatternElement":          true,
	"IsTrue":                    true,
	"Labels":                    true,
	"Length":                    true,
	"Limit":                     true,
	"Lt":                        true,
	"Lte":                       true,
	"Match":                     true,
	"MatchDefault":              true,
	"Matches":                   true,
	"MatchesPattern":            true,
	"Max":                       true,
	"Merge":                     true,
	"Min":                       true,
	"Multiply":                  true,
	"NameOrExpression":          true,
	"Named":                     true,
	"NamedByString":             true,
	"NamedC":                    true,
	"Not":                       true,
	"OnCreate":                  true,
	"OnMatch":                   true,
	"OngoingOnAfterMerge":       true,
	"OptionalMatch":             true,
	"Or":                        true,
	"OrPattern":                 true,
	"OrderBy":                   true,
	"OrderByExpression":         true,
	"OrderBySortItem":           true,
	"Pow":                       true,
	"PreEnter":                  true,
	"PrepareVisit":              true,
	"Project":                   true,
	"Properties":                true,
	"PropertiesRaw":             true,
	"Property":                  true,
	"RelationshipBetween":       true,
	"RelationshipFrom":          true,
	"RelationshipTo":            true,
	"Remainder":                 true,
	"Remove":                    true,
	"RemoveByNode":              true,
	"Render":                    true,
	"Renderer":                  true,
	"Returning":                 true,
	"ReturningByNamed":          true,
	"ReturningByString":         true,
	"ReturningDefault":          true,
	"ReturningDistinct":         true,
	"ReturningDistinctByNamed":  true,
	"ReturningDistinctByString": true,
	"Set":                       true,
	"SetByNode":                 true,
	"SetWithNamed":              true,
	"Skip":                      true,
	"StartWiths":                true,
	"Subtract":                  true,
	"Then":                      true,
	"To":                        true,
	"Unbounded":                 true,
	"Unwind":                    true,
	"UnwindByString":            true,
	"Unwinds":                   true,
	"Update":                    true,
	"VisitIfNotNull":            true,
	"When":                      true,
	"Where":                     true,
	"WhereConditionContainer":   true,
	"WherePattern":              true,
	"With":                      true,
	"WithArgs":                  true,
	"WithByNamed":               true,
	"WithByString":              true,
	"WithDefault":               true,
	"WithDistinct":              true,
	"WithDistinctByNamed":       true,
	"WithDistinctByString":      true,
	"WithProperties":            true,
	"WithRawProperties":         true,
	"Wrap":                      true,
	"Xor":                       true,
	"XorPattern":                true,
	"Yield":                     true,
	"YieldString":               true,
	"YieldSymbolic":             true,
}
