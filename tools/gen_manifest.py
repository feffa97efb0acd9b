#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX = ("explicit-state exploration of all texts over bounded alphabets on the real tokenizer",
       "Every text up to the stated length over 20 alphabets chosen per lexical class, plus pumped boundary sizes; {}. Says nothing about characters outside the alphabets and longer interactions.")
GRAM = "deviation-bounded exhaustive exploration of a reference grammar, executed on the real parser"
GN = "Every derivation of the reference grammar with at most the stated number of non-default choices is executed on the real parser; {}. Constructs outside the reference grammar (DESIGN.md) and deeper combinations are not covered."
C = {
 "C01": (LEX[0], LEX[1].format("oracle: concatenation of the literals against the text")),
 "C02": (LEX[0], LEX[1].format("oracle: positions recomputed from the text")),
 "C03": (LEX[0] + ", against a reference lexer", LEX[1].format("oracle: an independently written reference lexer; every model token list is compared with the implementation's")),
 "C04": (LEX[0] + ", with watchdog", LEX[1].format("oracle: result or positioned error, no panic, time and memory limits per call")),
 "C05": ("exhaustive enumeration of token sequences around the reference grammar, on the real parser, with watchdog", "Every derivation with every single token cut, removed, doubled, swapped, replaced, inserted, and all short token sequences over the vocabulary; oracle: result or error at a token, no panic, no hang, no runaway memory."),
 "C06": (GRAM, GN.format("oracle: multiset of tokens of the tree against the token list; mutated texts included")),
 "C07": (GRAM, GN.format("oracle: contiguity and order of token indices per subtree, child and list")),
 "C08": (GRAM + ", with exhaustive comment placements", GN.format("every gap, every comment style; oracle: the tree of the same text with blanks")),
 "C09": (GRAM + ", with exhaustive comment placements", GN.format("every gap, every style and line-break pattern; oracle: the attachment rule")),
 "C10": (GRAM + ", with exhaustive layouts", GN.format("every gap filled in every listed way; oracle: the tree of the reference layout")),
 "C11": (GRAM + ", with exhaustive case changes", GN.format("every word and several case patterns; oracle: the tree of the reference casing")),
 "C12": ("bounded exhaustive enumeration of operator sequences on the real parser against a reference precedence parser", "Every sequence of operators and operands within the bound; oracle: independent grouping by the documented precedence table."),
 "C13": (GRAM, GN.format("oracle: the tree built along with the derivation")),
 "C14": (GRAM, GN.format("oracle: the tree built along with the derivation, in every context that takes a type")),
 "C15": (GRAM, GN.format("oracle: the tree built along with the derivation")),
 "C16": (GRAM, GN.format("oracle: the tree built along with the derivation")),
 "C17": (GRAM, GN.format("oracle: the tree built along with the derivation")),
 "C18": ("exhaustive enumeration of statement sequences on the real parser", "Every sequence up to the bound over a set with all statement forms, at top level and in every block; oracle: concatenation of the trees of the single statements."),
 "C19": (GRAM + ", against the declarations resolved by the TypeScript compiler", GN.format("oracle: the schema extracted by the TypeScript compiler from the .d.ts of the package built from the tree")),
 "C20": ("exhaustive enumeration of texts executed on the compiled wasm package and natively", "Every text of the explored sets is given to the package under node; oracle: the native tokenizer and parser and the documented shape. The native result itself is judged by the other properties."),
 "C21": ("exhaustive enumeration of call histories on the compiled wasm package", "Every history of two calls on fresh module instances and every window of three calls on a long-lived one, over 80 calls (40 texts); oracle: the result of the call on a fresh instance."),
 "C22": ("exhaustive enumeration of truncations and offending tokens on the real parser", "Every derivation within the bound cut at every listed place, every offending token at the listed places; oracle: rejection and its position."),
}
m = {
 "version": 1,
 "setup_cmd": "bash build.sh && bash wasm.sh",
 "hooks": {"guard": "cfg bq2cst_verif", "enable": "RUSTFLAGS=\"--cfg bq2cst_verif\" (build.sh)", "source_commits": ["b5a5bc703530745f8fc93acfdde40d9b1be3b896"]},
 "checks": [{"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough", "evidence_file": f"evidence/{k}.json",
   "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in C.items()],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
