#!/usr/bin/env python3
"""Development-time tool (not run by the checks): snapshot of the shipped grammars and of
sample texts, used only to *generate inputs*."""
import re, json, os, glob
R='/repo'
L={'rust':'lang/rust/syntax/src/rust','fall':'lang/fall/syntax/src/fall','json':'lang/json/src/json','bnf':'lang/bnf/src/bnf',
   'arith':'fall/test/src/arith','sexp':'fall/test/src/sexp','weird':'fall/test/src/weird'}
out='/verif/harness/corpus'
for n,p in L.items():
    rs=open(f'{R}/{p}.rs').read(); fall=open(f'{R}/{p}.fall').read()
    pj=re.search(r'let parser_json = r##"(.*?)"##;',rs,re.S).group(1)
    nts=re.search(r'node_types: vec!\[(.*?)\]',rs,re.S).group(1)
    nts=[x.strip() for x in nts.replace('rt::ERROR','ERROR').split(',') if x.strip()]
    ws=dict(re.findall(r'(\w+) => rt::NodeTypeInfo \{ name: "\w+", whitespace_like: (\w+) \}',rs))
    consts={'ERROR':None}; consts.update({a:int(b) for a,b in re.findall(r'pub const (\w+): rt::NodeType = rt::NodeType\((\d+)\)',rs)})
    lex=[]
    for ty,re_,f in re.findall(r'LexRule::new\((\w+), "((?:[^"\\]|\\.)*)", (\w+(?:\(\w+\))?)\)',rs):
        # undo rust escape_debug
        t=json.loads('"'+re_.replace("\\'","'")+'"')
        lex.append([ty,t,None if f=='None' else f[5:-1]])
    json.dump({'name':n,'node_types':[[t,ws[t]=='true',consts[t]] for t in nts],'lex':lex,'parser':json.loads(pj)},
              open(f'{out}/{n}.json','w'),separators=(',',':'))
    print(n,len(nts),len(lex),len(json.loads(pj)))
texts={k:[] for k in L}
for n,p in L.items():
    fall=open(f'{R}/{p}.fall').read()
    for m in re.finditer(r'^test r(#*)"(.*?)"\1',fall,re.S|re.M):
        texts[n].append(m.group(2))
    texts['fall'].append(fall)
for f in glob.glob(f'{R}/lang/rust/**/tests/data/*.rs',recursive=True)+glob.glob(f'{R}/fall/tree/src/*.rs')+glob.glob(f'{R}/fall/text/src/*.rs'):
    texts['rust'].append(open(f).read())
for t in ['fall/test/tests/sexp.rs','fall/test/tests/arith.rs','fall/test/tests/weird.rs','lang/json/tests/test.rs','lang/bnf/tests/test.rs']:
    pth=f'{R}/{t}'
    if os.path.exists(pth):
        s=open(pth).read(); n=re.search(r'(sexp|arith|weird|json|bnf)',t).group(1)
        for m in re.finditer(r'r(#+)"(.*?)"\1',s,re.S): texts[n].append(m.group(2))
for n in texts:
    json.dump(texts[n],open(f'{out}/{n}_texts.json','w'),indent=0)
    print(n,len(texts[n]),sum(map(len,texts[n])))
