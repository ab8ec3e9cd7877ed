import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Enforce decides exactly what the model and the rules declare",
"For every model (ACL, RBAC with or without domains, ABAC, any boolean matcher) and every rule set, Enforce permits a request exactly if the policy effect, applied to all rules for which the matcher expression holds, permits it. Splitting the matcher into stages, indexing rules by their values, and the order in which rules were added or are visited never influence the decision. Clauses joined by && are evaluated from left to right: a clause is not evaluated for rules for which a clause in front of it is false, and can not make their requests fail.",
["inputs","configurations","programs"],"All matcher expressions over ==, !=, <, >, !, &&, ||, ternaries, in, =~, arithmetic, role functions and builtins; all rule sets (including values with separators, quotes and empty values), all requests, the three supported effects.",
"The tests check about forty fixed model/policy/request triples; stage splitting and indexing only go wrong for particular combinations of nested alternatives, shared values and rule contents.",
["enforcer.go","model/matcher/matcher.go","model/defs/matcher_def.go","model/defs/defs.go","model/effector/default_effector.go"],
[("splitting into stages","model/defs/matcher_def.go buildExprTree/nextOperator"),("rule index","model/matcher/matcher.go addRuleHelper/getNodeKey"),("evaluation","model/matcher/matcher.go rangeMatchesHelper"),("effects","enforcer.go enforce")],
[("matcher tree","rules indexed by the values each stage reads","model/matcher/matcher.go MatcherNode")],["Enforcer.Enforce"])
p("C02","Filter and RangeMatches report exactly the matching rules, once each",
"Filter returns every rule of the addressed policy or grouping section for which the matcher holds, no other rule, and no rule twice, with its key and all values unchanged. RangeMatches reports the same rules and stops as soon as its callback returns false; the callback may query the enforcer itself.",
["inputs","programs"],"All matchers over p.*, g.user, g.role, g.domain and r.*, all rule sets, all stop positions.",
"Tests filter four fixed matchers; duplicates and omissions need overlapping alternatives or an empty policy.",
["enforcer.go","model/matcher/matcher.go","model/model.go"],
[("reporting matches","enforcer.go RangeMatchesWithContext"),("walking all alternatives","model/matcher/matcher.go RangeMatches"),("grouping rule fields","model/model.go BuildMatcherFromDef")],None,["Enforcer.Filter","Enforcer.RangeMatches"])
p("C03","Decisions depend only on the current rules, not on their history",
"After any sequence of adding, removing, re-adding, clearing and querying, every Enforce and Filter result equals that of a new enforcer which holds just the rules that are left. A revoked rule never grants (or denies) anything any more, and a rule takes effect as soon as it was added.",
["histories"],"All sequences of AddRule, AddRules, RemoveRule, RemoveRules, ClearPolicy, matcher rebuilds and queries.",
"Tests add a few rules and query; pruning of shared index nodes only matters after particular add/remove interleavings.",
["model/matcher/matcher.go","model/policy/policy.go","rbac/role_policy.go","rbac/role_manager.go","model/model.go"],
[("index maintenance","model/matcher/matcher.go addRule/removeRule/listeners"),("rule events","model/policy/policy.go"),("links of grouping rules","rbac/role_policy.go")],
[("matcher tree","index of all present rules","model/matcher/matcher.go")],["Enforcer.Enforce","Enforcer.Filter"])
p("C04","The rule set behaves like a set of value lists",
"AddRule reports true exactly if the rule was absent and RemoveRule exactly if it was present; RangeRules yields each present rule once, with all values unchanged, until its callback returns false. Rules are distinct unless their keys and all values are equal, whatever characters the values contain; a rule which cannot be stored (unknown key, grouping rule without user and role) is refused with an error and changes nothing.",
["histories","inputs"],"All sequences of rule operations with arbitrary strings as values, over several policy and grouping sections.",
"Tests use a handful of plain identifiers; collisions need values containing separators.",
["model/model.go","model/policy/policy.go","rbac/role_policy.go","util/util.go","enforcer.go"],
[("rule identity","util/util.go Hash"),("policy storage","model/policy/policy.go"),("grouping storage","rbac/role_policy.go")],[("rule map","present rules","model/policy/policy.go")],["Enforcer.AddRule","Enforcer.RemoveRule","Model.RangeRules"])
p("C05","Role inheritance is reachability within the hierarchy limit",
"A name inherits a role exactly if both are equal or a chain of links leads from one to the other within the configured hierarchy level, for any link graph including cycles and diamonds. GetRoles and GetUsers return exactly the direct roles and users, Range exactly the present links, and adding or deleting a link reports whether it changed anything.",
["histories","inputs"],"All sequences of AddLink, DeleteLink, Clear and queries on arbitrary (cyclic, deep, wide) graphs with arbitrary names.",
"Tests use two small trees; cycles, limits and delete-then-query interleavings are not covered.",
["rbac/role_manager.go","rbac/role.go"],
[("traversal","rbac/role_manager.go hasLinkHelper"),("links","rbac/role.go addLink/removeLink")],[("roles and users of a role","directed links in both directions","rbac/role.go")],["RoleManager.HasLink","GetRoles","GetUsers","Range"])
p("C06","Roles granted in one domain give nothing in any other domain",
"A link added in a domain (or nested sub-domain, or without a domain) is visible there and in no other domain, whatever the domain is named. GetDomains and GetAllDomains list exactly the domains in which the name, respectively anyone, has a link.",
["histories","inputs"],"All sequences of link operations over arbitrarily named and nested domains.",
"Tests use two flat domains with plain names.",
["rbac/domain_manager.go","rbac/role_manager.go"],
[("selecting the domain","rbac/domain_manager.go getRoleManager"),("listing domains","rbac/domain_manager.go GetDomains/getAllDomainsHelper")],[("links per domain","one role manager per domain","rbac/domain_manager.go rmMap")],["DomainManager.HasLink","GetDomains","GetAllDomains"])
p("C07","Role patterns apply to every matching name in any order of addition",
"With a role matcher, a link to or from a pattern counts for every name which the pattern matches, no matter whether the pattern or the name was added or queried first, whether the matcher was set before or after, and until the link is deleted.",
["histories","inputs"],"All sequences of link operations and queries with plain and pattern names under several matchers.",
"Tests add patterns in one order only and never delete them.",
["rbac/role_manager.go","rbac/role.go","util/builtin_operators.go"],
[("matching new names","rbac/role_manager.go getRole"),("matched names","rbac/role.go rangeRoles/rangeUsers"),("cached matches","rbac/role_manager.go match")],[("matched/matchedBy","names a pattern applies to","rbac/role.go")],["RoleManager.HasLink","GetRoles","GetUsers"])
p("C08","Domain patterns grant in every matching domain, exactly while present",
"With a domain matcher, a link in a pattern domain holds in every matching domain (existing, created later, never stored, nested) and in no other. Links of overlapping patterns and explicit links of the same names are independent: deleting one leaves the others in force, and only explicitly added links are listed or deletable; the order of setting matchers and adding links is irrelevant.",
["histories","inputs"],"All sequences of AddLink, DeleteLink, SetMatcher, SetDomainMatcher and queries over concrete and pattern domains.",
"Tests cover one pattern domain without deletion, overlap or nesting.",
["rbac/domain_manager.go","rbac/role.go"],
[("spreading links of patterns","rbac/domain_manager.go addLink/deleteLink"),("new domains","rbac/domain_manager.go getRoleManager"),("explicit and redundant links","rbac/role.go")],[("pattern links","links of pattern domains","rbac/domain_manager.go")],["DomainManager.HasLink","Range","DeleteLink"])
p("C09","Queries change nothing",
"Enforce, Filter, RangeMatches, RangeRules, HasLink, GetRoles, GetUsers, GetDomains, GetDistinct and the text form of a model leave rules, links, pending storage operations and all later answers unchanged, even if a query fails or asks for unknown names, domains or patterns.",
["histories","inputs"],"All histories with any number of queries inserted at any point.",
"Tests never compare the state before and after a query.",
["rbac/role_manager.go","rbac/domain_manager.go","model/matcher/matcher.go","enforcer.go"],
[("temporary roles","rbac/role_manager.go HasLink/GetRoles/GetUsers"),("temporary domains","rbac/domain_manager.go getRoleManager(store=false)"),("private function map","model/matcher/matcher.go generateFunctions")],None,["all query methods"])
p("C10","The policy file holds exactly the stored rules",
"Saving a rule set to a policy file and loading it yields the same rules with the same values, whatever they contain (commas, quotes, line breaks, leading blanks, comment signs). Adding and removing rules through the file adapter changes the file like a set, keeps all other rules, and the file can always be loaded again. A failure or crash while the file is written leaves the previous rules in it, and files beside it keep their content.",
["inputs","histories","fault_sequences","crash_points"],"All rule sets over arbitrary text values except carriage returns and invalid leading comment rows written by hand; all sequences of save, add, remove, batch add, batch remove and load; interruption of writing at any rule or byte.",
"The test stores three rules with plain values.",
["storage/adapter/fileadapter.go","enforcer.go"],
[("formatting","storage/adapter/fileadapter.go formatRule/quote"),("parsing","storage/adapter/fileadapter.go loadPolicy"),("read-modify-write","storage/adapter/fileadapter.go AddRule/RemoveRule")],[("policy file","stored rules","path given to the adapter")],["FileAdapter.LoadPolicy","FileAdapter.SavePolicy"])
p("C11","The storage ends up with exactly the rules of the model",
"After Flush (or immediately with autosave) the adapter has received every successful change exactly once and in order, so the storage equals the model; rejected or ineffective changes, changes made while storage is disabled, and loading are never written. If the adapter fails, the failure is reported and no change is lost: a later successful Flush delivers it.",
["histories","fault_sequences","configurations"],"All sequences of rule changes, option switches, adapter and model exchanges, loads and flushes, with simple and batch adapters failing at any call.",
"Tests use two scripted sequences with an adapter which never fails.",
["storage/controller.go","enforcer.go","model/model.go"],
[("queue","storage/controller.go addOp/flush/batchFlush"),("listening","storage/controller.go Enable/Disable/SetEmitter"),("bulk changes","enforcer.go AddRules/RemoveRules"),("loading without echo","enforcer.go LoadPolicy")],[("operation queue","changes not stored yet","storage/controller.go q")],["Adapter.AddRule(s)","Adapter.RemoveRule(s)"])
p("C12","Effects merge independent of order and never permit too much",
"The merged effect depends only on which effects occur among the matched rules: allow-override permits if one allows, deny-override permits if none denies, the combination requires both, unknown effect values count as neither, a missing effect is allow. The incremental decision never contradicts the final one, the reported rule has the reported effect, and an unsupported effect expression is an error.",
["inputs"],"All effect sequences and their permutations, all effect column positions and values, blank-insensitive effect expressions.",
"Tests list a dozen sequences; order dependence shows only for particular mixes.",
["model/effector/default_effector.go","model/defs/defs.go","enforcer.go"],
[("merging","model/effector/default_effector.go MergeEffects"),("reading the effect","model/defs/defs.go GetEft"),("early decision","enforcer.go enforce")],None,["Effector.MergeEffects","Enforcer.Enforce"])
p("C13","A request is never permitted on an error",
"If a matcher, function, eval rule, role query or definition fails (error, panic, wrong type, missing value, unknown name) while a request is decided, Enforce returns an error together with false, or the decision that is right because the failing part does not matter; it never crashes, never permits together with an error, and never turns the failure into a match. A clause whose value is not a boolean does not match.",
["inputs","fault_sequences"],"All positions of failing, panicking or ill-typed clauses inside nested matchers, all rule orders, all missing definitions.",
"Tests contain three error cases at top level.",
["model/matcher/matcher.go","enforcer.go","context.go","model/defs/matcher_def.go"],
[("error propagation","model/matcher/matcher.go rangeMatchesHelper"),("recovery","model/matcher/matcher.go safeEval"),("missing definitions","context.go")],None,["Enforcer.Enforce","Enforcer.Filter"])
p("C14","Path patterns match exactly the paths they describe",
"A path matches a pattern exactly if the segments can be aligned such that equal segments and named segments (:name, {name}) cover one segment each and * covers one or more (a trailing * any rest). This holds for every separator and marker, in the matcher functions as well as for roles and domains, and strings recognised as patterns are exactly those with such a segment. Matching takes polynomial time.",
["inputs"],"All paths and patterns over arbitrary segments (empty, repeated, literal markers) and separators of any length.",
"Tests list about thirty pairs; multiple stars and degenerate segments are rarely combined.",
["util/builtin_operators.go"],
[("matching","util/builtin_operators.go PathMatchHelper"),("recognising","util/builtin_operators.go IsPathPatternHelper")],None,["util.PathMatch","util.PathMatch2","util.IsPathPattern"])
p("C15","Regex, IP, glob and prefix matching follow their definition",
"regexMatch, ipMatch and globMatch agree with regular expression search, CIDR containment or address equality, and shell globbing of the first argument against the second; a prefix matcher treats exactly prefixed names as patterns and strips just the prefix. Called from a matcher, wrong argument counts, non-string arguments and invalid patterns are errors and never matches or crashes.",
["inputs"],"All keys, patterns, addresses and networks (IPv4, IPv6, mapped), argument lists of any length and type.",
"Tests list some literal pairs; argument order and boundary prefixes are hardly covered.",
["util/builtin_operators.go","model/fm/function.go"],
[("functions","util/builtin_operators.go RegexMatch/IPMatch/GlobMatch"),("argument checks","util/builtin_operators.go WrapMatchingFunc/ValidateVariadicArgs"),("prefix","util/builtin_operators.go PrefixMatcher"),("names","model/fm/function.go DefaultFunctionMap")],None,["matcher functions","util"])
p("C16","The match cache returns only what was stored, for the latest keys",
"The least recently used cache returns for a key the value stored last or nothing, never holds more entries than its capacity, and evicts exactly the entry which was neither read nor written for the longest time.",
["histories"],"All sequences of Put and Get over few or many keys and all capacities from one up.",
"The test performs one short sequence.",
["util/cache.go"],[("reordering","util/cache.go moveToHead"),("eviction","util/cache.go Put")],[("entry list","entries by last use","util/cache.go")],["LRUCache.Get","LRUCache.Put"])
p("C17","Simultaneous queries answer like sequential ones",
"While rules and links do not change, any number of goroutines may call Enforce, Filter, HasLink, GetRoles, GetUsers and the shared cache at the same time: every answer equals the sequential answer, nothing crashes, and there is no data race.",
["schedules","inputs"],"All interleavings of queries on models with roles, patterns, domains, eval and ad-hoc matchers.",
"No test runs queries in parallel; the Makefile runs the race detector over sequential tests only.",
["model/matcher/matcher.go","rbac/role_manager.go","rbac/domain_manager.go","util/cache.go","log/log.go"],
[("private functions per call","model/matcher/matcher.go generateFunctions"),("locked queries","rbac/role_manager.go"),("locked cache","util/cache.go SyncLRUCache")],None,["Enforcer.Enforce","RoleManager.HasLink","SyncLRUCache"])
p("C18","The text form of a model describes the model, edits take effect",
"A model printed as text and loaded again is the same model: same definitions and same decisions. Definitions can be set, replaced and removed one by one; after rebuilding the matchers, the model decides as one loaded with just the current definitions, and a definition under a wrong key, and a matcher which is invalid or refers to unknown functions or policies, is refused with an error.",
["configurations","histories"],"All combinations of definitions, spacing and comments, and sequences of setting and removing definitions.",
"Tests compare two printed examples and remove each definition once without deciding anything.",
["model/model.go","model/handlers.go","model/defs/defs.go","model/defs/matcher_def.go"],
[("printing","model/model.go String"),("loading","model/model.go loadModelFromConfig"),("editing","model/handlers.go")],[("definitions","by section and key","model/model.go defs")],["Model.String","Model.LoadModelFromText","Model.SetDef","Model.RemoveDef"])
p("C19","Several definitions of a kind stay independent; a call selects them",
"A model may hold several request, policy, role, effect and matcher definitions; each matcher sees just the rules of its own section and each role function just its own links. Context options select the matcher, request definition and effect of one call only, equal to a model which has these as defaults; unknown request definitions are errors.",
["configurations","inputs"],"All combinations of several definitions and of context options given by key, text, definition or object.",
"Tests use three fixed option combinations.",
["context.go","enforcer.go","model/model.go","model/defs/defs.go"],
[("options","context.go SetMatcher/SetRequestDef/SetEffector"),("section of a matcher","model/defs/matcher_def.go GetPolicyKey"),("parameters by key","model/defs/defs.go")],None,["Enforcer.Enforce","Enforcer.Filter"])
p("C20","FastAC decides like casbin on the models both support",
"For ACL, ACL with superuser, RBAC, RBAC with domains or resource roles, ABAC and deny-override models written in casbin syntax, FastAC and casbin give the same decision for the same rules and request.",
["inputs","configurations"],"All rule sets and requests over the supported model families (with a non-empty policy, without the features where casbin documents a different behaviour).",
"Benchmarks run both libraries, no test compares their decisions.",
["enforcer.go","model/model.go","model/effector/default_effector.go","rbac/role_manager.go"],
[("decision","enforcer.go enforce"),("roles","rbac/role_manager.go HasLink")],None,["Enforcer.Enforce"])
p("C21","Logically equivalent matchers decide alike",
"Rewriting a matcher by commutativity, associativity, distributivity, De Morgan, double negation, idempotence, redundant brackets or blanks changes neither a decision nor the set of matching rules.",
["programs","inputs"],"All matcher expressions and chains of rewrites, all rule sets and requests.",
"No test compares two forms of a matcher.",
["model/defs/matcher_def.go","model/matcher/matcher.go"],
[("splitting","model/defs/matcher_def.go buildExprTree"),("walking","model/matcher/matcher.go rangeMatchesHelper")],None,["Enforcer.Enforce","Enforcer.Filter"])
p("C22","A rule evaluated by eval means the same as that text in the matcher",
"For rules which carry an expression, eval(p.rule) holds for a rule exactly if the expression, written into the matcher itself, would hold for that rule; different rules with equal other values are evaluated separately. An expression which cannot be evaluated or calls itself endlessly is an error and does not match.",
["programs","inputs"],"All expressions over request and policy values stored in rules, at any position of the matcher.",
"Tests use two fixed expressions.",
["model/matcher/matcher.go","model/defs/defs.go"],
[("eval","model/matcher/matcher.go generateEvalFunction"),("names in expressions","model/defs/defs.go EscapeArgs"),("index of dynamic stages","model/matcher/matcher.go getNodeKey")],None,["Enforcer.Enforce","Enforcer.Filter"])
p("C23","The registered function or role manager is the one a matcher calls",
"A function set on a model is called by its matchers with the evaluated arguments, from then until replaced or removed, and by no other model; a globally set function is known to all models created later. A role manager set on a model answers its role function and receives its grouping rules.",
["histories","configurations"],"All sequences of setting, replacing and removing functions and role managers on several models.",
"Tests register one global and one local function.",
["model/fm/function.go","model/fm/global.go","model/model.go","rbac/role_manager_api.go"],
[("registry","model/fm/function.go"),("global registry","model/fm/global.go"),("role function","rbac/role_manager_api.go GenerateGFunction")],[("function map","functions of a model","model/fm/function.go")],["Model.SetFunction","fm.SetFunction","Model.SetRoleManager"])
p("C24","Malformed models, policies and expressions are refused cleanly",
"Any text given as model, policy line, policy file, matcher or eval expression is either accepted or refused with an error: nothing crashes, hangs or grows without bound. What was accepted can be used: queries return an answer or an error.",
["inputs","programs"],"All byte strings as model text, policy text and expressions, in particular mutations of valid ones.",
"Tests load well-formed files plus two broken ones.",
["model/model.go","model/defs/matcher_def.go","storage/adapter/fileadapter.go","model/handlers.go"],
[("model text","model/model.go LoadModelFromText"),("policy text","storage/adapter/fileadapter.go LoadPolicyLine/loadPolicy"),("expressions","model/defs/matcher_def.go Build")],None,["Model.LoadModelFromText","adapter.LoadPolicyLine","Enforcer.Enforce"])
p("C25","The decision log states what was decided",
"With a logger set, every Enforce call that returns a decision logs exactly one entry, which names the request values and the returned decision; a call that fails logs no decision.",
["inputs"],"All models, requests and outcomes.",
"The log tests only exercise the logger itself.",
["enforcer.go","log/log.go"],[("logging","enforcer.go EnforceWithContext")],None,["log.SetLogger"])
p("C26","Rule events describe every change, exactly once",
"A listener that applies the rule-added and rule-removed events of a model to its own set always holds exactly the rules of the model: one event per effective change, none for ineffective or refused ones, none after the listener was removed.",
["histories"],"All sequences of adding and removing rules in all sections, listeners added and removed at any point.",
"Tests never listen to model events directly.",
["model/model.go","model/policy/policy.go","rbac/role_policy.go"],
[("emitting","model/model.go AddRule/RemoveRule"),("policy events","model/policy/policy.go")],None,["Model.AddListener"])
p("C27","GetDistinct lists each distinct combination of values once",
"For every list of columns, GetDistinct of a policy or grouping section returns each combination of values which occurs in those columns of the present rules exactly once and no other, in the order of the given columns. A column which some rule does not have is an error, not a crash.",
["inputs","histories"],"All rule sets with arbitrary values and all column lists (reordered, repeated, empty).",
"The test projects one fixed rule set.",
["model/policy/policy_api.go","rbac/role_policy.go"],[("projection","model/policy/policy_api.go GetDistinct")],None,["policy.GetDistinct","Policy.GetDistinct","RolePolicy.GetDistinct"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
