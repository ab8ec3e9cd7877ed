package harness

// generated by tools/mktests.py

import "testing"

var tests = map[string]func(*testing.T){
	"TestC01_Declarative":            TestC01_Declarative,
	"TestC01_ManyRules":              TestC01_ManyRules,
	"TestC01_Recursive":              TestC01_Recursive,
	"TestC01_Guards":                 TestC01_Guards,
	"TestC02_FilterPolicy":           TestC02_FilterPolicy,
	"TestC02_FilterGrouping":         TestC02_FilterGrouping,
	"TestC02_Large":                  TestC02_Large,
	"TestC03_History":                TestC03_History,
	"TestC03_Large":                  TestC03_Large,
	"TestC03_FailedClear":            TestC03_FailedClear,
	"TestC04_RuleSet":                TestC04_RuleSet,
	"TestC04_Large":                  TestC04_Large,
	"TestC05_RoleManager":            TestC05_RoleManager,
	"TestC05_Large":                  TestC05_Large,
	"TestC05_RoleFunction":           TestC05_RoleFunction,
	"TestC06_Domains":                TestC06_Domains,
	"TestC06_DomainDecisions":        TestC06_DomainDecisions,
	"TestC06_Large":                  TestC06_Large,
	"TestC07_RolePatterns":           TestC07_RolePatterns,
	"TestC07_PatternDecisions":       TestC07_PatternDecisions,
	"TestC07_Large":                  TestC07_Large,
	"TestC08_DomainPatterns":         TestC08_DomainPatterns,
	"TestC08_DomainPatternDecisions": TestC08_DomainPatternDecisions,
	"TestC08_ReplacedMatchers":       TestC08_ReplacedMatchers,
	"TestC08_Large":                  TestC08_Large,
	"TestC08_Overlap":                TestC08_Overlap,
	"TestC09_ReadOnly":               TestC09_ReadOnly,
	"TestC09_RoleManager":            TestC09_RoleManager,
	"TestC10_RoundTrip":              TestC10_RoundTrip,
	"TestC10_FileEdits":              TestC10_FileEdits,
	"TestC10_Enforcer":               TestC10_Enforcer,
	"TestC10_Line":                   TestC10_Line,
	"TestC10_Interrupted":            TestC10_Interrupted,
	"TestC10_Large":                  TestC10_Large,
	"TestC11_Storage":                TestC11_Storage,
	"TestC11_StorageEqualsModel":     TestC11_StorageEqualsModel,
	"TestC11_NoAdapter":              TestC11_NoAdapter,
	"TestC11_File":                   TestC11_File,
	"TestC12_Effector":               TestC12_Effector,
	"TestC12_Decisions":              TestC12_Decisions,
	"TestC12_CustomEffector":         TestC12_CustomEffector,
	"TestC13_Errors":                 TestC13_Errors,
	"TestC13_RoleManagers":           TestC13_RoleManagers,
	"TestC13_Definitions":            TestC13_Definitions,
	"TestC13_PatternMatchers":        TestC13_PatternMatchers,
	"TestC14_Helper":                 TestC14_Helper,
	"TestC14_Long":                   TestC14_Long,
	"TestC14_Matchers":               TestC14_Matchers,
	"TestC14_Roles":                  TestC14_Roles,
	"TestC15_Regex":                  TestC15_Regex,
	"TestC15_IP":                     TestC15_IP,
	"TestC15_Glob":                   TestC15_Glob,
	"TestC15_Prefix":                 TestC15_Prefix,
	"TestC15_Calls":                  TestC15_Calls,
	"TestC16_History":                TestC16_History,
	"TestC16_RoleManager":            TestC16_RoleManager,
	"TestC16_Large":                  TestC16_Large,
	"TestC17_Enforcer":               TestC17_Enforcer,
	"TestC17_Inside":                 TestC17_Inside,
	"TestC17_RoleManagers":           TestC17_RoleManagers,
	"TestC17_Cache":                  TestC17_Cache,
	"TestC18_Text":                   TestC18_Text,
	"TestC18_Edits":                  TestC18_Edits,
	"TestC18_Malformed":              TestC18_Malformed,
	"TestC19_Selection":              TestC19_Selection,
	"TestC19_Unknown":                TestC19_Unknown,
	"TestC20_Families":               TestC20_Families,
	"TestC20_Random":                 TestC20_Random,
	"TestC20_Examples":               TestC20_Examples,
	"TestC20_Large":                  TestC20_Large,
	"TestC21_Rewritings":             TestC21_Rewritings,
	"TestC22_Inline":                 TestC22_Inline,
	"TestC22_Nested":                 TestC22_Nested,
	"TestC22_Errors":                 TestC22_Errors,
	"TestC22_Large":                  TestC22_Large,
	"TestC22_Chain":                  TestC22_Chain,
	"TestC23_Functions":              TestC23_Functions,
	"TestC23_RoleManagers":           TestC23_RoleManagers,
	"TestC24_ModelText":              TestC24_ModelText,
	"TestC24_Definitions":            TestC24_Definitions,
	"TestC24_Expressions":            TestC24_Expressions,
	"TestC24_PolicyText":             TestC24_PolicyText,
	"TestC24_Files":                  TestC24_Files,
	"TestC24_Alternatives":           TestC24_Alternatives,
	"TestC24_EvalFanOut":             TestC24_EvalFanOut,
	"TestC25_DecisionLog":            TestC25_DecisionLog,
	"TestC25_ManyValues":             TestC25_ManyValues,
	"TestC26_Events":                 TestC26_Events,
	"TestC26_Large":                  TestC26_Large,
	"TestC26_Cascade":                TestC26_Cascade,
	"TestC27_GetDistinct":            TestC27_GetDistinct,
	"TestC27_Large":                  TestC27_Large,
}
