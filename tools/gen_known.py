#!/usr/bin/env python3
"""Writes /verif/known_findings.json from the list of repaired defects (fix: commits in /repo)."""
import json, os
FIXED = [
 ("C04","9d7fe36","a text starting with `<` crashed the tokenizer; a comment between ARRAY/STRUCT and `<` hid the type list (also C03, C08)"),
 ("C03","cf8c166","`>>` closing a RANGE<..> inside another type list was one token (also C14)"),
 ("C03","191e707","`/*/` was taken as a complete comment"),
 ("C03","44dc21b","`{}` without template braces was mis-split"),
 ("C03","170eda0","an escaped backtick ended a quoted identifier"),
 ("C12","0b8fcf1","unary operators bound tighter than field access / function chains"),
 ("C13","d0b6764","ASC / DESC / NULLS FIRST were attached below operators (also C12)"),
 ("C13","576ebd6","`1.` and `1.e3` were not numeric literals"),
 ("C13","805a0cc","DEFAULT as a value was not accepted as keyword (also C17)"),
 ("C13","15ebd79","RANGE(..) call was parsed as a type"),
 ("C13","90c62ee","a column named table or model was not an identifier"),
 ("C13","494099e","a parenthesised WITH(..) expression was parsed as a query"),
 ("C05","48fe9c4","an identifier missing at end of input crashed the parser"),
 ("C06","b3a923c","a stray `;` inside MERGE disappeared from the tree"),
 ("C14","fc06e7b","unnamed parameterized struct field was rejected or mis-parsed"),
 ("C15","4b6b387","`t|>` glued the pipe symbol to the table name"),
 ("C15","20347ef","quantifier `{2,}` of MATCH_RECOGNIZE was mis-parsed"),
 ("C15","f53ac72","a pipe query took the semicolon of the enclosing statement (also C17)"),
 ("C15","573035c","pipe operator after a parenthesised set operand was rejected"),
 ("C14","1ed7c41","NOT NULL after DEFAULT was rejected (also C16)"),
 ("C15","656fae3","`* EXCEPT (..) REPLACE (..)` was rejected"),
 ("C15","4791f95","`|> AGGREGATE GROUP BY` was mis-parsed"),
 ("C15","6322521","LEFT / INNER / FULL set operators were mis-parsed"),
 ("C15","bfb01c2","ORDER BY / LIMIT after a parenthesised last set operand was rejected"),
 ("C17","abb9966","MERGE .. USING table was mis-parsed"),
 ("C15","01e1c24","`|> WITH` at the end of a statement was mis-parsed"),
 ("C14","9482e4a","COLLATE of an unnamed struct field was rejected"),
 ("C15","6dbc21c","a parenthesised join starting with a subquery was rejected"),
 ("C16","a23d4d6","DROP VECTOR INDEX was mis-parsed"),
 ("C16","b407efe","NOT NULL after PRIMARY KEY / REFERENCES was rejected (also C14)"),
 ("C16","e4d59a7","OPTIONS after CLONE was parsed as an alias"),
 ("C16","e69f26e","OPTIONS of a table function or SQL function was rejected"),
 ("C22","7e8e281","an unclosed subquery in FROM was accepted as a parenthesised table"),
 ("C19","61906e0","type declarations: optional children declared as mandatory, children not declared, token of an anonymous struct field"),
 ("C06","bcfc335","the first ENFORCED of `PRIMARY KEY ENFORCED REFERENCES u (k) ENFORCED` was lost"),
 ("C17","67e1072","the semicolon of a last labelled or BREAK statement was mandatory (also C18)"),
 ("C13","c2721cf","a subscript after a chained function call was attached to the call, inside the chain, instead of to the result of the chain"),
 ("C22","8867ac0","a text with an unclosed parenthesis was accepted: the parenthesis that opens a query in FROM was retried as a table called FROM"),
 ("C15","e719bc0","a name of several tokens was split after a template that spans several lines (`FROM a_{{a\\nb}}_b`)"),
 ("C16","9db1988","GRANT and REVOKE on EXTERNAL TABLE were mis-parsed: TABLE was taken for the name"),
 ("C13","b874870","`0x1F` was read as the number 0 with the alias x1F (also C03)"),
 ("C16","91c859d","DROP SNAPSHOT TABLE was rejected"),
 ("C16","21a7f36","CREATE TABLE .. WITH CONNECTION was rejected for tables that are not external"),
 ("C17","cac6f94","LOAD DATA INTO TEMP TABLE was rejected"),
]
out = [{"status": "fixed", "property": p, "commit": c, "entry": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]
exec(open(os.path.join(os.path.dirname(__file__), "known_extra.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "known_extra.py")) else None
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
