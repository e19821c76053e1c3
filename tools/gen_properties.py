#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I = "include/arg_router/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files],
                          mechanism=[dict(name=n, where=I + w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=I + w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Argument strings are classified by prefix without loss",
  "Every argument string is classified as long-form iff it starts with the long prefix, otherwise short-form iff it starts with the short prefix, otherwise prefix-less, and its name is exactly the remaining bytes, so that rendering the token gives the original string back. All ways of handing arguments to the root (argc/argv, iterator pair, container, token list) lead to the same outcome, and only the argc/argv one skips its first entry.",
  ["inputs"], "every byte string, and every argument list",
  "Tests use about ten literal strings; the claim is over all byte strings of all lengths.",
  ["parsing/parsing.hpp", "parsing/token_type.hpp", "root.hpp"],
  [("get_token_type", "parsing/parsing.hpp"), ("to_string", "parsing/token_type.hpp"), ("root_t::parse overloads", "root.hpp")])

p("C02", "The two-list token view is one sequence and transfers lose nothing",
  "The token view over an already-processed list and a yet-unprocessed list always behaves as the concatenation of the two: size, iteration, element access, insertion, erasure and replacement act on that concatenation. Transferring an element moves it from the unprocessed list to the end of the processed one, and no operation loses, duplicates or reorders any other token.",
  ["inputs", "histories"], "every pair of lists of any length, every position, every operation",
  "Tests run a few hand-written lists of up to four tokens.",
  ["parsing/dynamic_token_adapter.hpp"],
  [("dynamic_token_adapter and its iterator", "parsing/dynamic_token_adapter.hpp")],
  [("processed/unprocessed", "the two referenced lists", "parsing/dynamic_token_adapter.hpp")])

p("C03", "Exactly one router call after full consumption, or a parse_exception",
  "For every argument list, parsing either calls exactly one router exactly once, after every argument has been accounted for and all values validated, or throws a parse_exception with no router having been called. No other exception type escapes the root.",
  ["inputs"], "every argument list, any number of arguments, arbitrary bytes",
  "Tests cover a few dozen well-formed command lines; the claim is about every list, including malformed ones.",
  ["root.hpp", "mode.hpp", "tree_node.hpp"],
  [("root_t::parse", "root.hpp"), ("mode_t::parse_impl routing", "mode.hpp"), ("tree_node::pre_parse_impl", "tree_node.hpp")])

p("C04", "Options deliver their values to the router independent of order",
  "When parsing succeeds the router receives, in declaration order of the nodes, for each flag whether it was given, for each value option the conversion of the token that followed its name (long or short form), and for each absent option its default. The outcome does not depend on the relative order of the options on the command line.",
  ["inputs"], "every accepted argument list of the verified trees",
  "Tests fix one or two orderings per tree and literal values.",
  ["mode.hpp", "flag.hpp", "arg.hpp", "tree_node.hpp", "policy/default_value.hpp"],
  [("mode_t::parse_impl", "mode.hpp"), ("arg_t::parse / flag_t::parse", "arg.hpp"), ("visit/match on names", "tree_node.hpp")])

p("C05", "A single-use node given twice is rejected",
  "Naming the same single-use node more than once in an argument list, in any mixture of its long and short forms and at any positions, makes parsing fail with the 'already been set' error for that token; naming different nodes never does.",
  ["inputs"], "every argument list of the verified trees",
  "Tests repeat one literal flag; mixtures of forms and positions are unbounded.",
  ["mode.hpp"], [("verify_match / matched set", "mode.hpp")],
  [("matched", "which children have been matched so far", "mode.hpp")])

p("C06", "Required and defaulted nodes are resolved when missing",
  "If a node marked required is not given, parsing fails with the missing-required-argument error naming that node and no router is called; if a node with a default value is not given the router receives exactly that default; a node that was given never receives its default.",
  ["inputs"], "every argument list of the verified trees",
  "Tests omit one node in one list; the claim is for every list.",
  ["policy/required.hpp", "policy/default_value.hpp", "mode.hpp"],
  [("missing_phase", "policy/required.hpp"), ("missing phase dispatch", "mode.hpp")])

p("C07", "A counting flag delivers its number of occurrences",
  "The value delivered for a counting flag equals the number of times it was given, counting long, short and collapsed short forms, for any number of occurrences; zero occurrences give its default. If it has a minimum or maximum, a count outside that range is rejected and a count inside it never is.",
  ["inputs"], "every argument list, any number of occurrences",
  "Tests use at most three occurrences.",
  ["counting_flag.hpp", "policy/multi_stage_value.hpp", "policy/min_max_value.hpp", "mode.hpp"],
  [("counting_flag_t::merge", "counting_flag.hpp"), ("process_value/merge in mode", "mode.hpp")])

p("C08", "Collapsed short forms equal their expansion",
  "Where short forms may be collapsed, a short-form argument with several characters (none of which takes a value, and which is not itself the value of another option) is handled exactly as if each character had been given as its own short-form argument in the same order; characters are whole grapheme clusters. Long-form, prefix-less, single-character and empty-named arguments are left unchanged, and the remaining arguments are neither changed nor reordered.",
  ["inputs"], "every argument list and every name of any length, including malformed UTF-8",
  "Tests use two short ASCII/UTF-8 literals.",
  ["policy/short_form_expander.hpp", "utility/utf8/code_point.hpp"],
  [("short_form_expander_t::pre_parse_phase", "policy/short_form_expander.hpp")])

p("C09", "name<separator>value equals name followed by value",
  "For a node with a value separator, an argument consisting of the node's name, the separator and a value is handled exactly as the name followed by the value as a separate argument, splitting at the first separator and leaving the other arguments unchanged. An argument without the separator is rejected when the node's own name was given without it, and an argument that belongs to another node is left untouched.",
  ["inputs"], "every argument list, every name and value of any length",
  "Tests use a handful of literals with '='.",
  ["policy/value_separator.hpp"],
  [("value_separator_t::pre_parse_phase", "policy/value_separator.hpp")])

p("C10", "Value counts are enforced and excess tokens are left alone",
  "A multi-value node accepts exactly when the number of its value tokens lies between its minimum and maximum: fewer is the minimum-count error, a fixed-size node takes exactly its count and leaves the following tokens untouched and in order for the next node.",
  ["inputs"], "every argument list of any length and every bound pair of the verified nodes",
  "Tests check a few counts around the bounds.",
  ["policy/min_max_count.hpp", "multi_arg_base.hpp"],
  [("min_max_count_t::pre_parse_phase", "policy/min_max_count.hpp")])

p("C11", "The end marker ends a value list and is consumed",
  "For a node with a token end marker, the tokens before the first marker are the node's values, the marker itself is removed, and the tokens after it are left untouched and in order for other nodes; without a marker all remaining tokens are the node's values. The marker is matched only as a whole prefix-less or prefixed argument string equal to it.",
  ["inputs"], "every argument list of any length, any marker position",
  "Tests place the marker in two positions of short lists.",
  ["policy/token_end_marker.hpp"],
  [("token_end_marker_t::pre_parse_phase", "policy/token_end_marker.hpp")])

p("C12", "Values outside their declared range are rejected",
  "For a node with a minimum and/or maximum value, a parsed value is accepted iff minimum <= value <= maximum, with the boundary values accepted; a smaller value is the minimum-not-reached error and a larger one the maximum-exceeded error, each naming the node.",
  ["inputs", "configurations"], "every value of the value type and every bound pair",
  "Tests check single values on each side of one bound.",
  ["policy/min_max_value.hpp"],
  [("min_max_value_t::validation_phase", "policy/min_max_value.hpp")])

p("C13", "Value tokens are converted as a whole and in order, or rejected",
  "Each value token is converted in full by the parser of its node: booleans accept exactly the documented words, strings and string views are taken verbatim, numbers are accepted only when the whole token is a number of the type, containers and positional values keep command-line order, and a custom parser is given the whole token. A token that cannot be converted makes parsing fail with the failed-to-parse error carrying that token.",
  ["inputs"], "every token of any length and bytes",
  "Tests use a few literals per type.",
  ["parsing/global_parser.hpp", "multi_arg_base.hpp", "tree_node.hpp", "policy/custom_parser.hpp"],
  [("parser<T>::parse", "parsing/global_parser.hpp"), ("multi_arg_base_t::parse", "multi_arg_base.hpp")])

p("C14", "An alias equals giving the value to every aliased node",
  "Giving an alias node is equivalent to giving its value tokens to each of the nodes it refers to, including through chained aliases, and the alias itself delivers no value. Too few value tokens for the aliased nodes is an error, and tokens beyond the alias's own count are left for other nodes in order.",
  ["inputs"], "every argument list, any number and content of tokens",
  "Tests use literal two-token lists.",
  ["policy/alias.hpp"], [("alias_t::pre_parse_phase", "policy/alias.hpp")])

p("C15", "A dependent node is accepted only with what it depends on",
  "A node with a dependency on other nodes is accepted only if every node it depends on was already given earlier on the command line; otherwise parsing fails with the dependent-argument-missing error, and no router is called.",
  ["inputs", "histories"], "every argument list and order",
  "Tests use two or three fixed orders.",
  ["policy/dependent.hpp", "mode.hpp"], [("dependent_t::pre_parse_phase", "policy/dependent.hpp")])

p("C16", "At most one member of a one-of group can be given",
  "For a group of mutually exclusive nodes, giving members of two different kinds always fails with the one-of mismatch error, giving exactly one delivers precisely that member's value and kind, and giving none applies the group's required/default rule. Each parse call is judged on its own arguments, whatever was parsed before.",
  ["inputs", "histories"], "every argument list and every sequence of parse calls",
  "Tests build a new tree for each parse, so history never matters to them.",
  ["dependency/one_of.hpp", "dependency/detail.hpp"], [("one_of_t::pre_parse", "dependency/one_of.hpp")],
  [("selected member", "which member has been selected during this parse", "dependency/one_of.hpp")])

p("C17", "All members of an alias group set the same value",
  "For an alias group, giving any member once delivers exactly the value that member would deliver, to the group's single router parameter; giving a second single-use member (same or another) is the already-been-set error; giving none applies the group's required/default rule.",
  ["inputs"], "every argument list of the verified trees",
  "Tests use literal lists for each member.",
  ["dependency/alias_group.hpp", "mode.hpp"], [("alias_group_t::pre_parse", "dependency/alias_group.hpp")])

p("C18", "A runtime-disabled node is as if absent from the tree",
  "For every argument list, a tree in which a node has been disabled at runtime accepts, rejects, and routes exactly like the same tree without that node (the node's router parameter taking its missing value; the error reported for a rejected list may name another reason), and never lists that node in its help. An enabled node behaves as if it had no such setting.",
  ["inputs", "configurations"], "every argument list, both settings",
  "Tests disable one node and try one or two lists.",
  ["policy/runtime_enable.hpp", "tree_node.hpp", "mode.hpp", "help.hpp"],
  [("runtime_enable::pre_parse_phase", "policy/runtime_enable.hpp"), ("enabled filters in help", "help.hpp")])

p("C19", "A node that does not match leaves the arguments untouched",
  "When a node is offered the arguments and they do not name it, the argument list is left exactly as it was, whatever transformations its policies attempted, and no error of that node is raised; when it matches, precisely its own tokens are removed from the front and the rest stays in order.",
  ["inputs"], "every argument list of any length and every verified node",
  "Tests check one or two literal lists per node.",
  ["tree_node.hpp"], [("tree_node::pre_parse_impl commit of the working copy", "tree_node.hpp")])

p("C20", "Mode selection follows the leading tokens and routes only that mode",
  "With nested named modes, the leading mode names select the deepest mode reached and only that mode's router can be called, with only that mode's options recognised; a mode that only contains modes reports the mode-requires-arguments error when nothing follows. An unnamed mode is used when no named one matches.",
  ["inputs"], "every argument list of the verified trees",
  "Tests use a handful of lists.",
  ["mode.hpp", "root.hpp"], [("mode_t::pre_parse_impl", "mode.hpp"), ("root_t::parse child loop", "root.hpp")])

p("C21", "Unrecognised arguments are reported as such, naming the offender",
  "If the first not-yet-consumed argument belongs to no available node, parsing fails with the unknown-argument error carrying that argument and the closest known node name, or with the unhandled-arguments error carrying exactly all left-over arguments in order; an empty argument list where something was expected fails with the no-arguments error. Errors are never reported for arguments that were consumed.",
  ["inputs"], "every argument list of the verified trees",
  "Tests use literals.",
  ["root.hpp", "mode.hpp", "parsing/unknown_argument_handling.hpp"],
  [("unknown argument handling", "parsing/unknown_argument_handling.hpp"), ("root_t::parse", "root.hpp")])

p("C22", "The suggestion metric is the true edit distance",
  "The distance used for suggestions equals the Levenshtein distance over characters, that is grapheme clusters (zero iff the strings are equal, symmetric, insert/delete/substitute cost one) and the suggested node is one whose name has minimal distance to the unknown argument.",
  ["inputs"], "every pair of strings",
  "Tests compare a dozen literal pairs.",
  ["utility/utf8/levenshtein_distance.hpp", "parsing/unknown_argument_handling.hpp"],
  [("levenshtein_distance", "utility/utf8/levenshtein_distance.hpp"), ("closest_matching_child_node", "parsing/unknown_argument_handling.hpp")])

p("C23", "UTF-8 decoding and per-character properties follow Unicode",
  "For every well-formed UTF-8 code point, of every encoded length, the reported length and decoded value are the standard's, iteration over a string visits its code points once each in order and covers all its bytes, and width, zero-width, whitespace and range-table answers equal those given by the Unicode 14 data the tables were taken from. Malformed input never makes an operation read outside the string or fail to advance.",
  ["inputs"], "all 1,114,112 code points and all byte strings",
  "Tests sample a few characters per class.",
  ["utility/utf8.hpp", "utility/utf8/code_point.hpp", "utility/utf8/double_width.hpp", "utility/utf8/zero_width.hpp", "utility/utf8/whitespace.hpp"],
  [("code_point::size/decode/iterator", "utility/utf8/code_point.hpp"), ("find_range", "utility/utf8/code_point.hpp")])

p("C24", "Grapheme cluster iteration partitions the text at legal boundaries",
  "Iterating a string by grapheme cluster yields consecutive non-empty pieces whose concatenation is the string, never splitting a code point. A piece ends exactly where none of the implemented Unicode 14 no-break rules (GB3 CR LF, GB6-8 Hangul, GB9 extend/ZWJ, GB9a spacing marks, GB9b prepend, GB11 emoji joined by ZWJ, GB12/13 regional indicator pairs) applies between the two code points.",
  ["inputs"], "every byte string",
  "Tests iterate a few sample strings.",
  ["utility/utf8/grapheme_cluster_break.hpp", "utility/utf8.hpp"],
  [("grapheme iterator", "utility/utf8.hpp")])

p("C25", "Line wrapping fits the width and loses no text",
  "Wrapping text to a column limit yields lines whose terminal width does not exceed the limit (unless a single unbreakable character is itself wider), which in order contain all the text except the whitespace at which a line was broken, and always terminates. A line ends at a mandatory break, else at the last position that fits where the implemented line breaking rules (UAX 14 pair table over Unicode 14 classes, with LB9 combining marks and LB18 spaces) allow a break, and elsewhere only when there is no such position.",
  ["inputs"], "every string and every positive column limit",
  "Tests wrap three sample texts at one or two widths.",
  ["utility/utf8/line_break.hpp", "utility/utf8.hpp"],
  [("line_iterator", "utility/utf8.hpp")])

p("C26", "Help output lists exactly the visible nodes, aligned and complete",
  "Help output contains one entry, in declaration order, for each visible node under the requested help target (all top-level nodes when none is given), with its names, its full description wrapped to the terminal width and aligned at one common column; the intro, program name, version and addendum are printed exactly where configured. A help target that names no visible node is reported rather than ignored.",
  ["inputs", "configurations"], "every help target token list, every terminal width, every enable setting of the verified trees",
  "Tests compare a few complete outputs at one or two widths.",
  ["help.hpp", "policy/default_help_formatter.hpp", "policy/colour_help_formatter.hpp"],
  [("help_t::parse / find_help_target", "help.hpp"), ("default_help_formatter_t", "policy/default_help_formatter.hpp")])

p("C27", "Each error code produces its own message with its tokens in order",
  "An error raised during parsing reaches the user as a parse_exception whose message is that error code's configured translation (the user's own before the built-in one), with its tokens substituted or appended in order and nothing else changed; a code with no translation gives the generic message containing its number.",
  ["inputs", "configurations"], "every error code value, every token list of any length and content",
  "Tests check some codes with up to three literal tokens.",
  ["policy/exception_translator.hpp", "utility/exception_formatter.hpp", "exception.hpp", "root.hpp"],
  [("translate_exception", "policy/exception_translator.hpp"), ("exception_formatter::fmt", "utility/exception_formatter.hpp")])

p("C28", "Language selection picks the matching language or the default",
  "A multi-language root uses the tree of the supported language equal to the requested identifier, and the default (first) language's tree for any other identifier. Normalising a locale name drops everything from the first dot on and turns every hyphen before it into an underscore, changing nothing else.",
  ["inputs", "configurations"], "every requested identifier string",
  "Tests use four or five literal locale names.",
  ["multi_lang/root.hpp", "multi_lang/iso_locale.hpp"],
  [("root_t constructor", "multi_lang/root.hpp"), ("iso_locale", "multi_lang/iso_locale.hpp")])

p("C29", "No argument list can cause undefined behaviour",
  "For every argument list, of any length and with any bytes, parsing and help generation perform no out-of-bounds or dangling access, no null dereference and no arithmetic that wraps a size, do not terminate the process, and come to an end.",
  ["inputs"], "every argument list, arbitrary bytes including malformed UTF-8",
  "Tests use well-formed input only.",
  ["root.hpp", "mode.hpp", "tree_node.hpp", "utility/utf8.hpp", "policy/short_form_expander.hpp", "help.hpp"],
  [("root_t::parse and everything below it", "root.hpp")])

p("C30", "A dynamic string view always denotes its logical string",
  "After any sequence of construction, copy, move, swap, assignment, append and conversion to internal storage, a dynamic string view compares and converts equal to the string those operations denote, and never refers to another object's or a destroyed buffer.",
  ["histories", "inputs"], "every operation sequence and every string, short and long",
  "Tests check each operation once on literals.",
  ["utility/dynamic_string_view.hpp"], [("update_view / swap", "utility/dynamic_string_view.hpp")])

p("C31", "Stored parse targets and results keep their value or error intact",
  "A type-erased value returns exactly the object put into it after any copies, moves and swaps, and destroys it exactly once; a result object holds exactly the value or the error it was given, yields it or throws it accordingly, and compares equal only to results with an equal value.",
  ["histories", "inputs"], "every operation sequence and value, small and large types",
  "Tests check each operation once.",
  ["utility/unsafe_any.hpp", "utility/result.hpp", "parsing/parse_target.hpp"],
  [("unsafe_any_t", "utility/unsafe_any.hpp"), ("result", "utility/result.hpp")])

p("C32", "A forwarding node passes everything after its name through unchanged",
  "A forwarding node delivers every argument that follows it, in order and with prefixes intact, without any being interpreted by other nodes, subject only to its count limits (tokens beyond its maximum are left for the other nodes).",
  ["inputs"], "every argument list of any length",
  "Tests use two literal lists.",
  ["forwarding_arg.hpp", "multi_arg_base.hpp"], [("forwarding_arg_t::parse", "forwarding_arg.hpp")])

p("C33", "Ill-formed trees are rejected at compile time, well-formed ones accepted",
  "Every parse tree that violates one of the documented tree rules fails to compile with that rule's message, and every tree that satisfies them all compiles.",
  ["programs"], "every parse tree type",
  "Death tests compile a fixed list of trees.",
  ["policy/validator.hpp", "policy/validator_rule_utilities.hpp"], [("validator rules", "policy/validator.hpp")])

p("C34", "Compile-time strings equal the literals they are built from",
  "Compile-time string operations (concatenation, substring, integer conversion, embedding of literals) denote exactly the corresponding ordinary string result for every literal within the size limit.",
  ["programs"], "every literal",
  "Tests instantiate some literals.",
  ["utility/compile_time_string.hpp"], [("str / AR_STRING", "utility/compile_time_string.hpp")])

p("C35", "Generated translation headers carry the translation file's content",
  "For every valid translation file, the generated header selects for each key exactly the configured language's string, escaped so that the compiled string equals the file's text.",
  ["inputs"], "every translation file",
  "One test file is converted.",
  ["../../cmake/translation_generator/translation_generator.cmake"], [("generator script", "../../cmake/translation_generator/translation_generator.cmake")])

for d in P:
    d["anchors"]["files"] = [os.path.normpath(f) for f in d["anchors"]["files"]]
    for m in d["anchors"]["mechanism"]: m["where"] = os.path.normpath(m["where"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing", d["id"], f)
