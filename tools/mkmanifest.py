#!/usr/bin/env python3
"""writes MANIFEST.json: one check per entry of CHECKS, everything else in properties.jsonl is not applicable"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid): "
TRUST = " Search, no proof: holds for the generated cases; trusts the oracle in /verif/harness and the Go toolchain."
CHECKS = {
 "C01": (PBT + "generated models, rules and requests against a reference interpreter", "Random matchers (expression trees with nested alternatives), rule sets and requests; every decision is compared with an interpreter that evaluates the whole matcher for every rule and merges the effects."),
 "C02": (PBT + "generated matchers and rule sets against a reference interpreter", "Filter/RangeMatches of policy and grouping sections, including stops and re-entrant callbacks, against the set of rules the reference interpreter matches."),
 "C03": (PBT + "stateful histories, differential against a fresh enforcer and the reference model", "Random add/remove/clear/rebuild/query histories; all answers compared with a fresh enforcer and with the reference."),
 "C04": (PBT + "stateful add/remove/clear histories against a set of value lists", "Values of any characters (separators, quotes, blanks, NUL, prefixes of each other) in policy and grouping sections; return values, contents and early stops of RangeRules compared with a set."),
 "C05": (PBT + "stateful link histories against graph reachability", "Random link graphs with cycles, diamonds and limits; RoleManager and role function in a matcher against breadth-first search."),
 "C06": (PBT + "stateful link histories in domains and sub-domains against a per-domain graph", "Domain names with separators, prefixes of each other, nested sub-domains; every pair of domains is queried after every history."),
 "C07": (PBT + "stateful histories with role patterns, bounds of a reference graph, differential between orders", "Patterns and names in any order of addition, query, deletion and of setting the matcher; answers against a reference graph and against a fresh manager."),
 "C08": (PBT + "stateful histories with domain patterns against a reference that matches on demand", "Overlapping domain patterns, nested sub-domains, deletions, late matchers; HasLink, GetRoles, GetUsers, GetDomains compared with a reference which keeps only explicit links."),
 "C09": (PBT + "snapshots around random (also failing) queries, differential against an unqueried twin", "Random queries interleaved with histories; rules, links, text form and pending storage operations compared before and after, and with a twin that was never queried."),
 "C10": (PBT + "round trips and stateful file edits against a set of rules", "Arbitrary values (quotes, commas, line breaks, comment signs, Unicode) saved, loaded, added and removed in files inside of a scratch directory."),
 "C11": (PBT + "stateful storage histories with an injected fault at every adapter call", "Histories of changes, autosave switches, flushes and loads; the adapter fails at each of its calls in turn; the storage is compared with the model and the sequence of effective changes."),
 "C12": (PBT + "effect lists in random orders against the declarative meaning of the effects", "Incremental and final merges of random effect lists; effect columns anywhere, unknown effect values, garbled effect expressions."),
 "C13": (PBT + "injected faults in matchers, functions, role managers and definitions, outcome sets of a reference", "Errors, panics, non-boolean values and wrong definitions at random places of a matcher; Enforce must return an outcome that some evaluation order justifies."),
 "C14": (PBT + "generated and exhaustively enumerated short paths and patterns against segment alignment", "Any separator and marker; helper functions, matcher functions, role and domain matchers; all short paths and patterns over small alphabets are enumerated."),
 "C15": (PBT + "token-built patterns and values against independent definitions", "Regular expressions, addresses, CIDR blocks and globs built from tokens with a known meaning; prefix matchers; wrong argument counts, types and patterns from inside of a matcher."),
 "C16": (PBT + "stateful cache histories against a list model", "Histories of get/put/resize-free use with few keys and small capacities against a recency list; the cache of the role managers against an uncached twin."),
 "C17": (PBT + "random concurrent histories under the race detector, linearizability against a sequential model", "Goroutines with random programs on a synchronized enforcer, on role managers and on the cache; results must fit a sequential order; the race detector watches all of it."),
 "C18": (PBT + "round trips of model texts and stateful edits of definitions, differential", "Models with any literals and comment signs are printed and loaded again; histories of setting and removing definitions against a model that is loaded with the current ones; malformed definitions."),
 "C19": (PBT + "models with several definitions, differential against models with one", "Several sections of every kind with different content, contexts which select matcher, request and effect, compared with a model that has the selected ones as defaults."),
 "C20": (PBT + "differential testing against casbin", "The model families of the documentation, the example files of the repository and random matchers; every decision compared with casbin v2, histories included."),
 "C21": (PBT + "metamorphic relations: two forms of one matcher must decide alike", "Matchers are rewritten (commuted, distributed, double negation, split into alternatives, added policy-free conditions) and compared on random rules and requests."),
 "C22": (PBT + "generated inline rules in eval() against the reference interpreter", "eval() with conditions in columns, nested eval, texts that do not parse or fail; compared with the interpreter applied to the substituted matcher."),
 "C23": (PBT + "stateful registration histories of functions and role managers, spies that record calls", "Functions and role managers are set, replaced and queried at any time; each call must reach the one that is registered at that moment, with the arguments of the matcher."),
 "C24": (PBT + "mutation fuzzing of models, definitions, expressions and policy texts, differential against the expression library", "Valid texts with random edits, exchanged parts and token sequences; either refused with an error or usable; refused input changes nothing; texts that one evaluation of the whole expression decides must be decided the same way."),
 "C25": (PBT + "generated decisions and changes, the log is compared with the history", "Random histories with a recording logger; the records must name the decisions, in order, with the request and the effect."),
 "C26": (PBT + "stateful histories with listeners that mirror the rules", "Mirrors fed by rule events compared with the rules after every operation of random histories."),
 "C27": (PBT + "random sections and column lists against a set of projections", "Random rules and column lists (repeated, unordered, all); result compared with the set of distinct projections."),
}
LEVEL = {"C11": "fault_enumeration"}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i][0], "level": LEVEL.get(i, "exploration"),
                            "level_note": CHECKS[i][1] + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
