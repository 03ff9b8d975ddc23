#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('model_checking', 'explicit-state exploration of the DOT grammar automaton, every path replayed on parse()', 'every document of the bounded grammar space, compared with an independent reference parser'),
 'C02': ('model_checking', 'explicit-state exploration of the DOT grammar automaton, every token in every state', 'every viable prefix up to the bound x every token, plus every small token sequence, against an independent reference parser'),
 'C03': ('model_checking', 'exhaustive enumeration of character sequences in every id position against a reference lexer', 'all code points and all short strings over the lexer alphabet in every id position'),
 'C04': ('model_checking', 'exhaustive enumeration of trivia at every gap of every base document', 'metamorphic: parse(variant) = parse(base) for every gap and pair of gaps'),
 'C05': ('model_checking', 'exhaustive enumeration of short texts and deviations; growth measured on pumped families', 'all strings up to the bound over a lexer alphabet, all truncations and edits, nesting families with time and stack limits'),
 'C06': ('model_checking', 'exhaustive enumeration of histories of calls, and exploration of the interleavings of two parses at instruction level', 'all histories up to the bound with a running and a frozen clock; all two-thread schedules up to the preemption bound at the instructions that touch shared state'),
 'C07': ('model_checking', 'exhaustive enumeration of graph values x printer configurations, replayed on print() and parse()', 'all graphs of the bounded shape space under all configurations'),
 'C08': ('model_checking', 'exhaustive enumeration of graph values and documents, judged by libcgraph', 'libcgraph as oracle'),
 'C09': ('model_checking', 'exhaustive enumeration of histories of prints and setters on one context', 'differential against a fresh context'),
 'C10': ('model_checking', 'exhaustive enumeration of graphs x configurations x setter orders against a reference layout model', 'explicit layout model, every model output compared with the implementation'),
 'C11': ('model_checking', 'exhaustive enumeration of printer registrations x graphs x configurations against a reference model', 'explicit model, every output compared with the implementation'),
 'C12': ('model_checking', 'exhaustive enumeration of calls x outcomes of a scripted dot process', 'every exit status, signal, output shape and argument sequence of the bounded space on the real code'),
 'C13': ('fault_enumeration', 'exhaustive single and paired fault injection at every system call of an execution', 'every system call of the recorded trace x every error, short transfers and interruptions, and pairs, injected with ptrace into the real code'),
 'C14': ('model_checking', 'stateless exploration of interleavings of concurrent executions under a controlled scheduler', 'two and three executions of the real code stopped at every system call and, with bounded preemptions, at every instruction that can touch shared state; starts are scheduling points'),
 'C15': ('model_checking', 'exhaustive enumeration of argument values and sequences, argv observed in the child', 'every layout and format, all sequences up to the bound'),
 'C16': ('model_checking', 'exhaustive enumeration of macro programs up to a size, compiled and compared with the direct construction', 'every documented form, all arities and nestings up to the bound'),
 'C17': ('model_checking', 'exhaustive enumeration of the attribute table: every attribute x owner x value class', 'complete table of attributes, owners, enum members and colors against Graphviz names'),
 'C18': ('model_checking', 'exhaustive enumeration of derive programs up to a size', 'all definitions of the bounded space, compiled and run'),
 'C20': ('model_checking', 'exhaustive enumeration of graphs and pumped nesting families x configurations, printed under CPU and stack limits', 'every graph of the bounded shape space and its parts, 144 nesting families and 14 flat families pumped to growing sizes, under 35 configurations'),
 'C21': ('model_checking', 'exhaustive enumeration of pairs of values against an independent encoding', 'all pairs of bounded sets of each type and every one-place change of every bounded graph; clones, hashes and maps'),
 'C19': ('model_checking', 'exhaustive enumeration of construction histories against a reference model', 'all histories up to the bound'),
}
DONE = os.environ.get('DONE') or open(f'{V}/tools/done').read()
DONE = DONE.split()
checks = [dict(property=i, quick_cmd=f'./run.sh {i} quick', thorough_cmd=f'./run.sh {i} thorough', technique=t, level=l, level_note=n)
          for i, (l, t, n) in T.items() if i in DONE]
na = [dict(property=i, reason='its check is being built and is not registered yet') for i in T if i not in DONE]
m = dict(version=1, setup_cmd='./run.sh setup', checks=checks, not_applicable=na)
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
