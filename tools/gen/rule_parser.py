#!/usr/bin/env python3
"""writes contracts/rule_parser.vs: what each opcode takes (from the liblouis manual), as contracts"""
import os, sys

ANY = "nofor/noback"
# opcode word(s): (limits it takes, operands in order as field:kind, what else the rule carries)
T = {}
def op(words, limits, operands, extra=""):
    for w in words.split():
        T[w] = (limits, [tuple(o.split(":")) for o in operands.split()], extra.split())

op("include", "", "file:word")
op("undefined", "", "dots:cells")
op("display", ANY, "character:char dots:cell", "constraints")
op("multind", ANY, "dots:cells names:names", "constraints")
op("space punctuation digit letter lowercase uppercase litdigit sign math hyphen", ANY, "character:char dots:cells", "constraints")
op("grouping", ANY, "name:name chars:text left,right:twocells")
op("base", "", "name:name derived:char base:char")
op("modeletter begmodeword begemph endemph", ANY, "name:name dots:cells", "constraints")
op("capsletter begcapsword endcapsword nocontractsign nonumsign begcomp endcomp", ANY, "dots:cells", "constraints")
op("capsmodechars noletsign noletsignbefore noletsignafter numericnocontchars numericmodechars midendnumericmodechars "
   "seqdelimiter seqbeforechars seqafterchars seqafterpattern seqafterexpression nocont contraction exactdots literal", "", "chars:text")
op("begcaps endcaps begcapsphrase letsign numsign", "", "dots:cells")
op("endcapsphrase", "", "position:position dots:cells")
op("lencapsphrase", "", "number:number")
op("begmodephrase emphletter begemphword endemphword begemphphrase", "", "name:name dots:cells")
op("endmodephrase endemphphrase", "", "name:name position:position dots:cells")
op("lenmodephrase lenemphphrase", "", "name:name number:number")
op("class noemphchars emphmodechars attribute", "", "name:name chars:text")
op("emphclass", "", "name:name")
op("decpoint", "", "character:char dots:cells")
op("capsnocont", "", "")
op("compbrl", ANY, "chars:text", "constraints")
op("comp6 syllable", "", "chars:text dots:dots")
op("replace", "", "chars:text replacement:maybe")
op("repeated lowword", ANY, "chars:text dots:cells", "constraints")
op("repword largesign joinword", "", "chars:text dots:cells")
op("rependword", "", "chars:text dots,other:twolists")
op("word", ANY, "chars:text dots:dots", "constraints with_classes")
op("always sufword prfword begword begmidword midword midendword endword partword", "all", "chars:text dots:dots", "constraints with_classes")
op("prepunc postpunc begnum midnum joinnum", "all", "chars:text dots:cells", "constraints")
op("endnum", "all", "chars:text dots:dots", "constraints")
op("swapcd", "", "name:name chars:text dots:lists", "same:chars:dots")
op("swapdd", "", "name:name dots:singles replacement:lists", "same:dots:replacement")
op("swapcc", "", "name:name chars:text replacement:text", "same:chars:replacement")
op("context pass2 pass3 pass4 correct", ANY, "test:test action:action", "constraints")
op("match", ANY, "pre:pre chars:text post:post dots:dots", "constraints matches")

# kind: spec of the operand (of the word `w`), view of the field
KIND = {
    "word": ("Some({w})", "{f}@"),
    "char": ("char_of({w})", "{f}"),
    "text": ("text_of({w})", "{f}@"),
    "name": ("name_of({w})", "{f}@"),
    "number": ("number_of({w})", "{f}"),
    "cell": ("cell_of({w})", "{f}"),
    "cells": ("cells_of({w})", "{f}.0@"),
    "dots": ("dots_of({w})", "dots_view({f})"),
    "lists": ("lists_of({w})", "lists_view({f}@)"),
    "singles": ("singles_of({w})", "{f}.0@"),
    "position": ("position_of({w})", "{f}"),
    "test": ("test_of({w})", "{f}"),
    "action": ("action_of({w})", "{f}"),
    "pre": ("pattern_of({w}, Side::Pre)", "{f}"),
    "post": ("pattern_of({w}, Side::Post)", "{f}"),
}
cap = lambda w: w[0].upper() + w[1:]
word_of, readable, spells = [], [], []
for w, (lim, ops, extra) in T.items():
    V = "Opcode::" + cap(w)
    word_of.append(f'        {V} => "{w}"@,')
    rd, sp, fields = [], [], []
    if lim == "":
        rd.append("c =~= Set::<Constraint>::empty()")
    elif lim == ANY:
        rd.append("!c.contains(Constraint::Nocross)")
    for i, (f, k) in enumerate(ops):
        a = f"a[{i}]"
        fields += f.split(",")
        if k == "names":
            rd.append(f"a.len() - {i} > 1")
            sp.append(f"names_view({f}@) =~= a.skip({i})")
            continue
        if k == "maybe":
            sp.append(f"(a.len() > {i} ==> {f} is Some && {f}->0@ == {a}) && (a.len() <= {i} ==> {f} is None)")
            continue
        rd.append(f"a.len() > {i}")
        if k == "twocells":
            l, r = f.split(",")
            rd.append(f"singles_of({a}) is Some && singles_of({a})->0.len() == 2")
            sp.append(f"{l} == singles_of({a})->0[0] && {r} == singles_of({a})->0[1]")
            continue
        if k == "twolists":
            l, r = f.split(",")
            rd.append(f"lists_of({a}) is Some && lists_of({a})->0.len() == 2")
            sp.append(f"{l}.0@ == lists_of({a})->0[0] && {r}.0@ == lists_of({a})->0[1]")
            continue
        s, v = KIND[k]
        s, v = s.format(w=a), v.format(f=f)
        if k != "word":
            rd.append(f"{s} is Some")
        sp.append(f"{s} == Some({v})")
    for x in extra:
        if x == "constraints":
            sp.append("constraints.0@ == c"); fields.append(x)
        elif x == "with_classes":
            sp.append("classes_view(with_classes@) == k"); fields.append(x)
        elif x == "matches":
            sp.append("match matches { Some(x) => x@ == m && m != Set::<WithMatch>::empty(), None => m == Set::<WithMatch>::empty() }"); fields.append(x)
        elif x.startswith("same:"):
            _, p, q = x.split(":")
            ix = {f: (i, kk) for i, (f, kk) in enumerate(ops)}
            e = [KIND[ix[n][1]][0].format(w=f"a[{ix[n][0]}]") + "->0.len()" for n in (p, q)]
            rd.append(f"{e[0]} == {e[1]}")
    readable.append(f"        {V} => {' && '.join(rd) or 'true'},")
    pat = "Rule::" + cap(w) + " { " + ", ".join(fields) + " }"
    spells.append(f"        {V} => match r {{ {pat} => {' && '.join(sp) or 'true'}, _ => false }},")
chain = "\n    ".join(f'{"else " if i else ""}if w == "{w}"@ {{ Some(Opcode::{cap(w)}) }}' for i, w in enumerate(T))
reveals = "\n        ".join(f'reveal_strlit("{w}"); assert("{w}"@.len() == {len(w)}' + "".join(f" && \"{w}\"@[{i}] == '{c}'" for i, c in enumerate(w)) + ");" for w in T)

carried = "\n".join(f"        Rule::{cap(w)} {{ constraints, .. }} => Some(constraints.0@)," for w, (_, _, x) in T.items() if "constraints" in x)
HERE = os.path.dirname(os.path.abspath(__file__))
tpl = open(os.path.join(HERE, "rule_parser.tpl")).read()
for k, v in dict(CARRIED=carried, WORD_OF="\n".join(word_of), READABLE="\n".join(readable), SPELLS="\n".join(spells), CHAIN=chain, REVEALS=reveals).items():
    tpl = tpl.replace(f"%{k}%", v)
open(os.path.join(HERE, "../../contracts/rule_parser.vs"), "w").write(tpl)

# ---- the same table for the bounded check: what a parsed rule carries (inside the crate), and the opcodes for the oracle ----
def shown(f, k):
    if k in ("char", "text", "name", "word", "number", "cell", "cells", "singles"):
        return f"{f}.to_string()"
    if k == "dots":
        return f"match {f} {{ Braille::Implicit => \"=\".to_string(), Braille::Explicit(x) => x.to_string() }}"
    if k == "lists":
        return f"{f}.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(\",\")"
    if k == "names":
        return f"{f}.join(\" \")"
    if k == "maybe":
        return f"{f}.clone().map_or(\"none\".to_string(), |x| format!(\"some {{x}}\"))"
    return f"format!(\"{{:?}}\", {f})"

arms, consts = [], []
for w, (lim, ops, extra) in T.items():
    fields, vals = [], []
    for f, k in ops:
        for g in f.split(","):
            fields.append(g)
            vals.append(shown(g, {"twocells": "cell", "twolists": "cells"}.get(k, k)))
    for x in extra:
        if x.startswith("same:"):
            continue
        fields.append(x)
        vals.append({"constraints": "sorted(constraints.to_string())", "with_classes": "classes(with_classes)", "matches": "sides(matches)"}[x])
    arms.append(f'            Rule::{cap(w)} {{ {", ".join(fields)} }} => ("{w}", vec![{", ".join(vals)}]),')
    same = [x for x in extra if x.startswith("same")]
    consts.append(f'    ("{w}", {dict([("", 0), (ANY, 1), ("all", 2)])[lim]}, "{" ".join(k for _, k in ops)}", "{" ".join("same" if x.startswith("same") else x for x in extra)}"),')
open(os.path.join(HERE, "../../harness/probes/rules.rs"), "w").write("""// written by tools/gen/rule_parser.py
#[cfg(louis_verif)]
pub mod verif_rules {
    use crate::parser::*;
    fn sorted(s: String) -> String {
        let mut v: Vec<&str> = s.split_whitespace().collect();
        v.sort();
        v.join(" ")
    }
    fn classes(v: &[WithClass]) -> String {
        v.iter().map(|c| match c { WithClass::Before { class } => format!("before {class}"), WithClass::After { class } => format!("after {class}") }).collect::<Vec<_>>().join(" ")
    }
    fn sides(m: &Option<std::collections::HashSet<WithMatch>>) -> String {
        let Some(m) = m else { return "none".into() };
        let mut v: Vec<&str> = m.iter().map(|x| match x { WithMatch::Before => "empmatchbefore", WithMatch::After => "empmatchafter" }).collect();
        v.sort();
        v.join(" ")
    }
    /// the opcode of the rule a line spells, and what it carries
    pub fn read(line: &str) -> Option<(String, Vec<String>)> {
        let r = RuleParser::new(line).rule().ok()?;
        let (w, v) = match &r {
%ARMS%
            _ => ("?", vec![]),
        };
        Some((w.to_string(), v))
    }
    pub fn test(s: &str) -> Option<String> {
        multipass::test::Parser::new(s).tests().ok().map(|t| format!("{t:?}"))
    }
    pub fn action(s: &str) -> Option<String> {
        multipass::action::Parser::new(s).actions().ok().map(|t| format!("{t:?}"))
    }
    pub fn pattern(s: &str, pre: bool) -> Option<String> {
        PatternParser::new(s, if pre { Side::Pre } else { Side::Post }).pattern().ok().map(|t| format!("{t:?}"))
    }
}
""".replace("%ARMS%", "\n".join(arms)))
p = os.path.join(HERE, "../../harness/src/opcodes.rs")
open(p, "w").write("// written by tools/gen/rule_parser.py: opcode, restrictions (0 none, 1 nofor / noback, 2 these and nocross), kinds of operands, what else the rule carries\npub const OPCODES: &[(&str, u8, &str, &str)] = &[\n" + "\n".join(consts) + "\n];\n")
