#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAM = "exhaustive enumeration of token trees on the real parser, compared state by state with a reference PEG interpreter"
T = {
 "C01": (GRAM, "Exhaustive within stated bounds: every struct/variant shape up to 3 fields over a field menu, plus wide ones, on every token tree up to a size and every edit of every derivable sequence."),
 "C02": (GRAM, "Exhaustive within bounds over alternations of 0 to 17 alternatives, nested and recursive ones."),
 "C03": ("exhaustive enumeration of failing inputs and layouts; furthest-failure model", "Location and full message of every error compared with the model's set of furthest failures; errors at the very end of the input have no location in syn and are compared leniently."),
 "C04": (GRAM, "Exhaustive within bounds over compositions of Maybe; also compares what is printed."),
 "C05": (GRAM, "Exhaustive within bounds over all four kinds of groups, nestings and content; values rebuilt from parts are printed and compared."),
 "C06": (GRAM, "Exhaustive within bounds over item and separator types, single- and multi-token; long lists up to several hundred items."),
 "C07": (GRAM, "Exhaustive within bounds over item and separator types, and what may follow the list."),
 "C08": ("explicit-state exploration of all operation histories on the real type against a list model", "Every history of public operations up to a depth from every initial list up to a length; all accessors compared in every state."),
 "C09": (GRAM, "Exhaustive within bounds over item types whose failing attempt looks at several tokens, and followers."),
 "C10": (GRAM, "Exhaustive within bounds over operators and operands; both trees compared with the model's and with Separated; long chains."),
 "C11": (GRAM, "Exhaustive within bounds over all embeddings of the markers in sequences, options, alternations, lists and groups."),
 "C12": ("exhaustive enumeration of words and tokens against every declared keyword list; set-membership model", "Every word up to a length over an alphabet, all Rust keywords, raw forms and every kind of token, against several keyword declarations; parsing, conversion, printing and comparison all compared with set membership."),
 "C13": ("exhaustive enumeration of parsed and assembled values; print-parse transition checked on each", "Exhaustive within bounds: every value of about 100 types that a bounded token tree parses to, the same value assembled in code in six ways, and literal and word values of every kind, through tokens and both text forms."),
 "C14": (GRAM + ", and of its printing", "Exhaustive within bounds over about 100 types, all operators and several source layouts: every printed token is compared with the consumed source token in spelling, nesting, location and jointness."),
 "C15": ("exhaustive enumeration of literal spellings and values against an independent decoder", "All spellings over alphabets of parts up to a length, all characters and bytes, integers and floats around every boundary and exponent, in every literal type and conversion."),
 "C16": ("exhaustive enumeration of pairs of values against comparison of the raw values", "All pairs over boundary domains of each literal type, all pairs of spellings, words and accepted inputs of about 100 types, at different locations."),
 "C17": ("exhaustive enumeration of token streams, indentations and write histories; re-lexing as oracle", "Exhaustive within bounds over token trees (with invisible groups), neighbouring token pairs and triples of every kind, operator texts, literal values, all short whitespace indentations, and all sequences of writes, including ones interrupted by a failing writer."),
 "C18": ("exhaustive enumeration of token trees against a reference layout", "Exhaustive within bounds over token trees of several alphabets and twelve indentations, through every entry point of the formatter."),
 "C19": ("exhaustive fault enumeration: every call of the writer refused, every capacity", "All faults at every call and within every call, for every token tree up to a size and every displayed type; every Unicode character and all short strings as indentation."),
 "C20": (GRAM + "; text entry points and Display compared with tokens", "Exhaustive within bounds over about 100 types: token trees, derivable sequences and their edits, all texts up to a length over an alphabet of characters, decorated accepted texts, and all literal values for Display."),
 "C21": ("exhaustive enumeration of token trees in layouts; positions known by construction", "Every node of every value of about 100 types on bounded token trees, in layouts built from all gaps (line endings, multi-byte characters, comments, byte order mark), after other sources were parsed."),
 "C22": ("exhaustive enumeration of token trees and of conversion and set_span histories; locations from the reference interpreter", "Every node of every value of about 100 types on bounded token trees; every conversion between Parsel's, syn's and raw forms; set_span histories."),
 "C23": ("exhaustive enumeration of call histories on the real adaptor against the plain iterator", "Every history of iterator calls up to a depth on every iterator up to a length, both sides, and all adaptors."),
 "C24": ("exhaustive enumeration of operation histories on the real containers against plain lists, options and pairs", "Every history of public operations up to a depth from every initial value up to a length; all views compared in every state."),
 "C25": ("exhaustive enumeration of type shapes, generics, where clauses, names and positions, all compiled with the real derives, and of their inputs against a reference PEG interpreter", "Some 2400 derived types: the product of shapes, generics and where clauses, every name of a pool in every role and pair of names, positions; that all compile is decided by compiling them, what they parse and print by exploring all small inputs of each."),
 "C26": ("exhaustive enumeration of token trees, with tries of every sub-production counted on the real parser and in the reference interpreter", "Exhaustive within bounds over about 100 types; tries per place compared with the model's, growth of tries on repetitive inputs bounded by a linear function, nestings up to a depth; crashes and hangs are attributed to their input."),
 "C27": ("exhaustive enumeration of quotation templates, interpolated values, types and locations; reference interpreter on the expanded text", "All templates of up to three parts over eight parts, and further ones, with all values and lists interpolated, parsed as about 100 types; compared with quoting and parsing by hand and with the model."),
 "C28": (GRAM + "; every placement of invisible groups compared with none", "Exhaustive within bounds over about 100 types and all operators: every run of tokens at every level of every enumerated input wrapped, twice for short ones."),
 "C29": ("exhaustive enumeration of histories of calls on the real library, each call compared with itself alone in a fresh process", "All histories of up to three calls over a menu of 77 calls (parsing, failing, panicking and reentrant parsers, printing, formatting, refused writes, texts in a reused buffer, quoting), all pairs from 1670 parse-print-display calls of about 115 types, every call repeated up to 131 times before every other, long histories of all of them, and other threads; earlier values are looked at again at the end."),
 "C32": ("exhaustive enumeration of token trees, edits of derivable sequences and long inputs, errors of the real parsers against the failures of a reference model", "Exhaustive within bounds over about 115 types: token trees, derivable sequences and their edits, long inputs with a deviation, each in several source layouts; place and message of every error compared with the model's."),
 "C31": ("exhaustive enumeration of inputs, each given to the real library inside the running compiler and outside it", "Exhaustive within bounds over about 115 types: token trees, derivable sequences and their edits, long inputs, words and literals of every form, literal values of every kind; results, locations, messages, printed tokens and text compared."),
 "C30": ("exhaustive enumeration of values and of copy, overwrite and change histories on the real types", "Exhaustive within bounds over about 100 types: every value that a bounded token tree parses to is cloned, overwritten and compared in all it shows; literal values of every kind; defaults of every type; changes to either of a value and its copy."),
}
T.update({k: tuple(v) for k, v in json.load(open(os.path.join(ROOT, "tools", "table.json"))).items()} if os.path.exists(os.path.join(ROOT, "tools", "table.json")) else {})
checks = []
na = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in T and os.path.exists(os.path.join(ROOT, "mc/src/bin/%s.rs" % i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": "model checking: " + T[i][0], "level": "model_checking",
                       "level_note": T[i][1] + " Trusts syn, proc-macro2, rustc and the reference model in mc/src."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "cd mc && CARGO_TARGET_DIR=/verif/target cargo build --offline --release --lib", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
