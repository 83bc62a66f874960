#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects, one entry for each property and commit."""
import json, os, subprocess
MAP = {  # subject of the commit (its beginning): property, what failed
 "generate code for the unary plus": ("C11", "'+x' was accepted and stopped the compiler with a traceback"),
 "type integer division as int": ("C01", "7 // 2 was typed real: real variables held ints and later operations gave other values"),
 "let quebra and continua act": ("C02", "quebra and continua inside a para jumped out of the enclosing enquanto, or were rejected"),
 "convert promoted values wherever": ("C11", "real fields, elements, parameters and results held ints; a = b = 1 lost the value"),
 "decide whether an element can be assigned": ("C12", "zs[0] = 'a' on a texto was accepted, and elements of a vector of texto could not be assigned"),
 "apply the operator of a compound assignment to a field": ("C05", "p.x += 1 stored 1"),
 "read a single escape sequence": ("C09", "consecutive escapes in a text literal were read wrongly"),
 "count the lines that a text literal spans": ("C15", "tokens after a literal of several lines had earlier lines"),
 "report numbers that Python cannot convert": ("C13", "digits such as '²' and very long numbers gave a traceback"),
 "keep the literal parts of f-strings": ("C09", "spaces and escapes of the literal parts of f-strings were changed"),
 "place the expressions of f-strings": ("C14", "faults inside f-strings were reported on line 1"),
 "reject an f-string expression that is followed": ("C12", "f'{a b}' was accepted, and b ignored"),
 "name the symbol that was not recognised": ("C15", "the diagnostic of an unknown symbol named another character"),
 "give each method its own definition": ("C05", "methods of one name on several types overwrote each other"),
 "reject references to methods": ("C12", "methods and variants without call were accepted as values"),
 "check the arguments of builtin functions": ("C12", "ill-typed arguments of builtins and variants, and conditions that are no bool, were accepted"),
 "reject assignments to the value of an optional": ("C06", "o.valor = 1 was accepted and crashed the VM"),
 "require 'retorna' in every path": ("C24", "functions that fall off their end were accepted"),
 "evaluate the value of an escolha once": ("C02", "the value of an escolha was evaluated once for each case"),
 "place the errors of loops": ("C19", "run-time errors in loop headers of several lines named other lines"),
 "discard the values of expression statements": ("C18", "expression statements left their values on the stack; nested patterns compiled to wrong code"),
 "check the patterns of iguala completely": ("C08", "non-exhaustive matches were accepted, covered ones rejected, constants of other types accepted"),
 "give each row of a vector": ("C04", "rows of a vec() of three or more dimensions were shared"),
 "read the last line of the input": ("C23", "leia lost the last line without a line break and panicked at the end of the input"),
 "compare records, variants, null": ("C11", "comparing records, or displaying a vector that contains itself, panicked"),
 "report the overflow of a negation": ("C01", "negating the smallest int panicked, conversions of nulo or records panicked"),
 "keep module, locals and stack of each call": ("C10", "a function of another module used the caller's constants and globals"),
 "make the definitions of a module visible": ("C10", "a module imported twice lost its names; types of one name in two modules were mixed up"),
 "report the references to a variable in its own": ("C13", "x: int = x gave a traceback"),
 "convert to optional types": ("C06", "e :> T? gave a traceback"),
 "bind the type arguments of a generic": ("C06", "the arguments of generic types were bound in another order"),
 "give each local variable a place": ("C03", "local variables of different blocks shared a slot"),
 "read the element of a compound assignment": ("C04", "l[i] += x with a call or a conversion inside gave a traceback or the wrong element"),
 "run a module after the modules it uses": ("C10", "a module ran before the modules that it imports"),
 "reject the use of a module as a value": ("C12", "mostra m, for a module alias m, was accepted and crashed"),
 "report a module alias that is already in use": ("C14", "the diagnostic of a repeated alias named another file"),
 "do not let the fields of a record hide": ("C05", "a field named like a type hid the type from the fields after it"),
 "name the methods of imported types": ("C20", "the image contained the absolute path of the sources"),
 "give integers and loop variables their type": ("C03", "a local variable named int changed the type of literals and loop variables"),
 "report errors about source text": ("C13", "diagnostics that quote braces gave a traceback"),
 "do not take a backslash before an n": ("C09", "'\\\\n' became a line break in the constant table"),
 "accept a line break after a single": ("C16", "a line break after the only element or parameter was rejected"),
 "report a field of a record that has no type": ("C13", "a field without type gave a traceback"),
 "write the debug listing in UTF-8": ("C21", "-d stopped with a traceback, or garbled the listing, under a locale other than UTF-8"),
 "stop with a run-time error when the output": ("C22", "writing to a full disk or a closed pipe aborted the process"),
 "report calls to vec with too many": ("C25", "vec() with 256 arguments or more gave a traceback"),
 "drop values that are nested": ("C11", "a list of 200000 linked records overflowed the native stack when it was dropped"),
 "stop with a run-time error when a vector": ("C11", "vec(int, 9223372036854775807) aborted the process"),
 "display vectors that are nested": ("C11", "displaying [indef] nested 100000 deep overflowed the native stack"),
 "place the errors of arguments, parameters": ("C14", "a wrong first argument, repeated parameter, unknown field type or literal pattern was reported on the line of another part"),
 "accept line breaks around every part of a union": ("C16", "line breaks after the second variant, after the only type of a variant, or inside a variant's pattern were rejected"),
 "accept annotations on lines of their own": ("C16", "a line break after '@@a' before usa, or between two annotations, was rejected"),
 "match the same text written with different": ("C08", "U0::A(\"\", 0) => 0, U0::A('', 1) => 1: the second arm was never taken, the quotes made the texts differ"),
 "quebra and continua in the header of a loop": ("C02", "a quebra or continua inside an iguala in the condition of an enquanto, or in the range of a para, acted on that loop, which had not begun, instead of the one around it (endless loop)"),
 "discard the values left on the stack by quebra": ("C18", "x = x + iguala i  3 => faca quebra ... left the operands on the stack: its depth differed between the paths, and grew with every continua"),
 "tell apart records and unions of different scopes": ("C12", "a value of a record R was accepted where a record R declared in an inner block was expected; reading its fields aborted the process"),
 "the assignment to an element of a vector is not": ("C26", "v[0] = a *= 3 passed the parser and ended in a Python traceback (AttributeError in visit_assign)"),
 "an instruction usa with a name or items ends": ("C26", "usa \"m\" => z mostra 1 was accepted, and usa \"m\" => z; rejected"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "91726de..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    s = s.removeprefix("fix: ")
    m = [v for k, v in MAP.items() if s.startswith(k)]
    if len(m) != 1:
        raise SystemExit(f"no entry for {l}")
    out.append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(path, "w", encoding="utf-8") as f:
    json.dump({"findings": [], "fixed": out}, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(out))
