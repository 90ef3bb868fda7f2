"""Writes MANIFEST.json from the rules that exist."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'interprocedural panic-reachability analysis with guard and linear-fact discharge on MIR',
 'C02': 'wait-for graph of tasks and queues from whole-program value flow on MIR',
 'C03': 'typestate and value flow of reply channels on MIR',
 'C04': 'value flow of handler parameters into queue sends on MIR',
 'C05': 'value flow (gated SSA terms) of texts and trees through message handling on MIR',
 'C06': 'value flow (gated SSA terms) with unit conversion terms on MIR',
 'C07': 'value flow and must-reach analysis of diagnostics per message kind on MIR',
 'C08': 'value flow from computed problems to publications and offers on MIR',
 'C09': 'decision table of candidate predicates over position order, from value flow on MIR',
 'C11': 'value flow of languages, parsers, queries and stores on MIR',
 'C10': 'composition of the transfer functions of the syntax extractors (from MIR) along the captures of parsed query texts',
 'C12': 'effect inference over resolved calls and value flow of proposals on MIR',
 'C13': 'effect inference over resolved calls and handle flow on MIR',
 'C14': 'constant tables and lookup flow on MIR',
 'C15': 'capability constants against handler and dispatch analysis on MIR',
 'C16': 'edit-set (frame) analysis of stores per message kind on MIR',
 'C17': 'linear offset flow through the node binding on MIR',
 'C18': 'field-role flow of positions through conversions on MIR',
 'C19': 'path term comparison between the three resolvers on MIR',
 'C20': 'decision table of configuration sources from value flow on MIR',
 'C21': 'value flow of worker state through a rescan on MIR',
 'C22': 'value flow from completion contexts to answer lists on MIR',
 'C23': 'value flow of the workspace scan on MIR',
 'C24': 'decision tables of presentation functions on MIR',
 'C25': 'value flow of document symbols on MIR',
 'C26': 'frame analysis and panic reachability of the node binding on MIR',
 'C30': 'composition of capture transfer functions and of the scope-closing loops (dataflow on MIR) along nestings of constructs',
 'C31': 'composition of capture transfer functions of the object extractor (dataflow on MIR) along the captures of laid-out expression shapes',
 'C32': 'value flow of link hints and expressions through the node binding on MIR',
 'C33': 'value flow of cursor answers through the node binding on MIR',
 'C34': 'transfer functions (MIR) of the object extractor per cursor place, put into the handlers',
 'C35': 'transfer functions (MIR) of the object extractor per cursor place, put into the completion handler',
}
NA = {
 'C27': 'A semantic statement about Jinja rendering: it quantifies over run-time scopes of arbitrary templates and needs an execution model of Jinja as the oracle; no fact about the source text of the server decides it. The static parts (which definitions are considered at a position, that each construct yields its kind of definition) are decided under C09 and C10.',
 'C28': 'Depends on the numeric relation between the cursor column, the start column and the byte length of a capture at run time, i.e. on what tree-sitter reports for an arbitrary text; the source computes it by slicing and no sound static argument in reach relates those numbers (that it cannot panic is decided under C01).',
 'C29': 'Response time and memory are run-time quantities; no sound static bound on parsing, query matching and directory walking is in reach.',
}
NOTE = ('Decided from the MIR of the current sources on every run (driver on the nightly compiler, then dataflow in Python); '
        'holds for all inputs and histories up to the models of library functions listed in DESIGN.md. Not a machine-checked proof.')
LATER = 'No rule decides this property yet.'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(ROOT, 'sa', 'props', i.lower() + '.py')) and i not in NA:
            checks.append({'property': i, 'quick_cmd': './run ' + i, 'thorough_cmd': './run ' + i + ' thorough',
                           'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + T[i], 'level': 'other', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, LATER)})
    m = {'version': 1, 'setup_cmd': './run setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
