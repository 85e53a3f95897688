#!/usr/bin/env python3
"""Writes harness/src/props/ast_gen.rs: calls of every exported typed accessor of the fall and rust
languages, and the table of what their `ast` sections promise (development-time helper)."""
import re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def camel(s): return "".join(w[:1].upper() + w[1:] for w in s.split("_"))
out = ["// generated by tools/gen_ast.py from the `ast` sections\n#![allow(unused)]\nuse super::ast::{guard, rn};\nuse fall_tree::{AstNode, Node};\n"]
for lang, path, lib, mod in [("fall", "/repo/lang/fall/syntax/src/fall.fall", "/repo/lang/fall/syntax/src/lib.rs", "lang_fall_syntax"),
                        ("rust", "/repo/lang/rust/syntax/src/rust.fall", "/repo/lang/rust/syntax/src/lib.rs", "lang_rust_syntax")]:
    src = open(path).read()
    exported = set(re.findall(r"\b([A-Z][a-z]\w*)\b", open(lib).read()))
    ast = re.sub(r"//.*", "", re.search(r"^ast \{(.*?)^\}", src, re.S | re.M).group(1))
    items = re.findall(r"(node|class|trait)\s+(\w+)\s*(?::\s*([\w, ]+?))?\s*\{([^}]*)\}", ast)
    nodes, classes, traits = {}, {}, {}
    for kind, name, tr, body in items:
        if kind == "class": classes[name] = body.split(); continue
        ms = []
        toks = body.split()
        for m, sel in zip(toks[::2], toks[1::2]):
            x = re.match(r"(\w+)(\?|\*)?(\.text)?$", sel)
            ms.append((m, x.group(1), {None: 1, "?": 2, "*": 3}[x.group(2)], bool(x.group(3))))
        if kind == "node": nodes[name] = (ms, [t.strip() for t in tr.split(",")] if tr else [])
        else: traits[name] = ms
    rs = lambda b: "true" if b else "false"
    out.append(f"pub const {lang.upper()}_NODES: &[(&str, &[(&str, &str, u8, bool)])] = &[")
    for n, (ms, trs) in nodes.items():
        if camel(n) not in exported: continue
        allm = ms + [m for t in trs for m in traits[t]]
        out.append(f'    ("{n}", &[' + ", ".join(f'("{m}", "{c}", {a}, {rs(t)})' for m, c, a, t in allm) + "]),")
    out.append("];")
    out.append(f"pub const {lang.upper()}_CLASSES: &[(&str, &[&str])] = &[")
    for c, vs in classes.items(): out.append(f'    ("{c}", &[' + ", ".join(f'"{v}"' for v in vs) + "]),")
    out.append("];")
    out.append(f"pub fn probe_{lang}(n: Node, out: &mut Vec<String>) {{\n    use {mod}::*;")
    for n, (ms, trs) in nodes.items():
        if camel(n) not in exported: continue
        out.append(f"    if let Some(x) = {camel(n)}::wrap(n) {{\n        out.push(format!(\"{camel(n)} {{:?}} {{}}\", x, x.node() == n));")
        for m, c, a, t in ms + [m for tr in trs for m in traits[tr]]:
            is_ast = c in nodes or c in classes
            rep = lambda v: f"format!(\"{{:?}}\", {v}.to_string())" if t else (f"rn({v}.node())" if is_ast else f"rn({v})")
            call = f"x.{m}()"
            e = {1: rep(call), 2: f"match {call} {{ None => \"none\".into(), Some(v) => {rep('v')} }}",
                 3: f"{call}.map(|v| {rep('v')}).collect::<Vec<_>>().join(\",\")"}[a]
            out.append(f"        out.push(format!(\"{m}={{}}\", guard(|| {{ {e} }})));")
        out.append("    }")
    for c, vs in classes.items():
        if camel(c) not in exported: continue
        out.append(f"    if let Some(x) = {camel(c)}::wrap(n) {{\n        let v = match x {{")
        for v in vs: out.append(f"            {camel(c)}::{camel(v)}(v) => format!(\"{camel(v)}/{{}}\", rn(v.node())),")
        out.append(f"        }};\n        out.push(format!(\"{camel(c)} {{:?}} {{}} {{}}\", x, v, x.node() == n));\n    }}")
    out.append("}")
open(os.path.join(ROOT, "harness/src/props/ast_gen.rs"), "w").write("\n".join(out) + "\n")
