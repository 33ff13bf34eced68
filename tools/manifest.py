#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in lib/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CM = 'TLA+ abstract machine of the language (spec/CMachine.tla): TLC checks that the trace recorded from every compiled program is a behaviour of the machine'
T = {
 'P01': ('TLA+ specification of the lexical grammar (spec/Lexer.tla): TLC decides the token sequence of every text over a class alphabet up to a bound, and the real lexer is run on each', 'Exhaustive over all strings of bounded length over a reduced alphabet, then random and adversarial longer texts; bounded.'),
 'P02': (CM, 'Literals of every base, suffix, escape and boundary value in every position; bounded sampling of values, exhaustive in forms.'),
 'P03': ('TLA+ grammar of expressions and statements (spec/Grammar.tla, spec/Stmt.tla): TLC enumerates token strings with the grouping C gives them; the real compiler must produce the same code for the text and its fully parenthesised form, and runs are judged by spec/CMachine.tla', 'All expression token strings up to a bound over operator classes, all statement strings up to a bound; bounded exhaustive plus random.'),
 'P04': (CM + '; declarations are rendered from specification types and layouts are compared with spec/CTypes.tla and the system compiler', 'Bounded depth of declarators; sampled.'),
 'P05': (CM, 'Every operator and operand type pair over boundary values; values sampled.'),
 'P06': (CM, 'Every pair of integer types in every converting context over boundary values.'),
 'P07': (CM, 'Random and enumerated statement nestings; executions are complete runs.'),
 'P08': (CM, 'Random signatures and call shapes, with a companion object produced by the system compiler.'),
 'P09': ('TLA+ abstract machine of the x86-64 calling convention (spec/Abi.tla): TLC explores every path of the assembly of every compiled function; compiled programs also run against a runtime that scribbles every register the convention allows', 'Every path of each function, functions generated; bounded by the generator.'),
 'P10': ('TLA+ specification of value flow through the instruction list (spec/RegAlloc.tla): TLC follows every path of the code before and after the real allocator and checks that each use reads the value it is meant to; runs judged by spec/CMachine.tla', 'Complete per function, sampled over functions.'),
 'P11': (CM + ', with the invariants ScopeOK and DisjointOK', 'Random scope nestings.'),
 'P12': (CM, 'Random object shapes and access paths, all element and index types.'),
 'P13': (CM, 'Random aggregate types and brace placements.'),
 'P14': (CM + '; all evaluation orders C allows are transitions of the machine', 'Random effectful expressions.'),
 'P15': ('TLA+ specification of syntax and constraints (spec/CStatic.tla): TLC reads each text and judges what was observed of the compiler on it', 'Mutations of well-formed programs and enumerated constraint violations.'),
 'P16': ('TLA+ specification of syntax and constraints (spec/CStatic.tla): TLC reads each text and judges the observed exit status, diagnostics and symbols; assembler and linker run on the output', 'Random well-formed programs.'),
 'P17': ('TLA+ specification of the command (spec/Driver.tla): every scenario TLC enumerates is replayed against the real command', 'Exhaustive over the scenario space of the specification.'),
 'P18': ('TLA+ specification of the phase pipeline (spec/Pipeline.tla); behaviours recorded from a sanitized build are checked against it by TLC', 'Sampled inputs.'),
 'P19': ('TLA+ specification of map, set and sequence (spec/Containers.tla): histories generated by TLC are replayed on the real containers', 'Exhaustive short histories and random long ones.'),
}
NA = {}
LV = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    if os.path.exists('%s/lib/props/%s.py' % (V, p.lower())):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': LV.get(p, 'model_checking'), 'level_note': T[p][1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'the check is not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are compiled into /repo; harnesses link against its sources.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
