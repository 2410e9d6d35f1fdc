#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when its rule exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'path-sensitive effect analysis of the type registry on the AST',
 'C02': 'constant propagation of registered traits compared with independently computed std traits in witness instantiations',
 'C03': 'lockset analysis over path summaries of every entry point',
 'C04': 'ownership / reference-escape analysis of registry containers',
 'C05': 'path summaries of lookups with bound facts',
 'C06': 'typestate of created items over path summaries',
 'C07': 'must-precede (dominance) analysis of definition triggering',
 'C08': 'path summaries of link functions with recursion contracts',
 'C09': 'path summaries of cast recursion; per-edge cast instantiations read symbolically',
 'C10': 'path summaries of member lookup with recursion contracts',
 'C11': 'typestate of variant storage over path summaries',
 'C12': 'per-slot summaries of every instantiated function table against a slot specification',
 'C13': 'constant evaluation of storage decisions per instantiation; allocation pairing',
 'C14': 'effect summaries of instantiated type operations, with exceptional paths',
 'C15': 'guard analysis of typed access per instantiation',
 'C16': 'guard (must) analysis of compatibility; const-overload typing of access paths',
 'C17': 'value-category dataflow over argument instantiations',
 'C18': 'effect counting over invoker instantiations',
 'C19': 'effect summaries of property invoker instantiations',
 'C20': 'path summaries of conversion with exceptional edges; resource typestate',
 'C21': 'decision-table extraction of equality from path summaries',
 'C22': 'effect summaries of builder calls over an abstract container stack',
 'C23': 'constant propagation through the flag printer, finite enumeration of flag sets',
 'C24': 'guard dominance over registry access with the shutdown flag',
 'C25': 'compile-fail witnesses with compiling controls',
 'C26': 'compile witnesses: programs that must compile (with static assertions on the selected types) and programs that must be rejected, each with a compiling twin',
 'C27': 'class-hierarchy query and throw-site analysis with exception-specification reachability',
 'C28': 'compile witnesses: exhaustive static assertions against an independent definition of each operation, and programs that must be rejected',
 'C29': 'constructor and creation summaries matched with accessors; symbolic text of signatures per instantiation; evaluation of the name extraction on compiler-generated texts',
 'C31': 'constant propagation over the domain of stored types; dependence of hash results on their key',
 'C30': 'effect counting over path summaries, with exceptional paths',
}
NA = {
 'N01': 'std::hash<variant> hashes the raw storage bytes (pointers, padding); whether equal contents give equal bytes depends on runtime values and allocation addresses, so no static rule over the source can establish it (what the hash may read at all is C31)',
 'N02': 'linearizability and progress quantify over runtime schedules of user callbacks run under the locks; a lockset argument (C03) covers data races and self-deadlock but no static rule in reach bounds whole histories',
 'N03': 'type names are compiler-generated signature text at run time; internal-linkage types of different translation units share spelling, which no analysis of this source can exclude',
 'N04': 'the conversion functions belong to client code; nothing in this repository determines the values they produce',
}
NOTE = ('Static: /repo sources are parsed by clang on every run and abstractly interpreted path by path (no code is run). '
        'Assumes the documented behaviour of the standard library model in sa/model.py and clang\'s AST; loops are widened, '
        'constructs the analysis does not recognise are reported as undecided in the evidence and do not alarm.')
LN = {
 'C25': 'Each snippet is compiled against the current headers (clang front end, no execution); a rejected snippet has a compiling control next to it. Covers the listed ways of forging or changing metadata, not all programs.',
 'C28': 'About 12 000 static assertions are checked by the compiler front end against the current headers; lists up to four elements, types up to three constructors deep.',
 'C26': 'Over 900 client programs are type-checked against the current headers; covers the listed forms for the types of witness/forms.h only.',
}
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for d in props:
    i = d['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'sa/rules', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' thorough',
                       'technique': TECH[i], 'level': 'other', 'level_note': LN.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': 'static rule not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.prog as P; P.exporter()"', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: see DESIGN.md. No hooks were needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
