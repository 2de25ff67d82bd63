# Regenerates MANIFEST.json from the table below and properties.jsonl.
import json, os
T = {
 'C01': 'abstract interpretation of grammar actions (effect summaries per production)',
 'C02': 'abstract interpretation of grammar actions (value-kind summaries per production)',
 'C06': 'flow-sensitive borrow-guard analysis over MIR (guards live across calls, interprocedural)',
 'C13': 'static evaluation of the keyword table plus abstract interpretation of lookup and parse_ident',
 'C07': 'effect analysis over the MIR call graph',
 'C03': 'path-sensitive abstract interpretation: every failing path of every action and builder function must have emitted an error (assume-guarantee per function)',
 'C08': 'non-interference (taint) and must-push analysis over MIR paths of next_token and the options plumbing',
 'C17': 'static resolution of every diagnostic construction site to (kind, severity) against a severity table',
 'C19': 'typestate analysis of pooled tokens over MIR paths plus pool-liveness dataflow',
 'C12': 'analysis of the LALR automaton built from the grammar',
}
T.update({
 'C04': 'interprocedural path-sensitive abstract interpretation of the lexer (end-of-input ghost state) over MIR',
 'C05': 'interprocedural abstract interpretation of the lexer: cycle analysis of scanning loops under the end-of-input fact',
})
T.update({
 'C16': 'path-sensitive abstract interpretation of the lexer with the pending-literal slot tracked (typestate over MIR)',
})
T.update({
 'C20': 'abstract interpretation of the tokenizer over MIR for each (lexer state, spacing, character sequence) with unknown continuation, outcome sets compared with the language specification',
})
T.update({
 'C09': 'abstract interpretation of every grammar action together with the builder on symbolic parts; linearity and order analysis of the constructed trees',
 'C10': 'abstract interpretation of every grammar action together with the builder on symbolic parts; symbolic range comparison (order of positions derived from the production)',
})
T.update({
 'C21': 'abstract interpretation of every grammar action together with the builder on symbolic parts; case-by-case comparison of the relation (case -> tree) with the recorded specification of the form',
})
T.update({
 'C11': 'abstract interpretation of every grammar action together with the builder on symbolic parts; relation (case -> names declared) compared with the recorded specification',
 'C18': 'abstract interpretation of every grammar action together with the builder on symbolic parts; relation (case -> accepted/rejected, diagnostics, names noted) compared with the recorded specification',
 'C22': 'abstract interpretation of every grammar action together with the builder on symbolic parts; abort paths discharged against a fixpoint of node shapes over the grammar',
})
T.update({
 'C14': 'abstract evaluation over MIR of the path from Buffer::set_encoding to the decoder (all outcomes), of the magic comment reader and of the tokenizer on a comment',
 'C15': 'abstract evaluation over MIR of result assembly, reporting, comment skipping (every lexer state) and magic comment recording, plus a scan for every operation that shrinks or replaces a collected list',
})
T['C24'] = 'abstract interpretation over MIR of all grammar actions and builder functions, reducing the range and quoted names of each diagnostic to the tokens and nodes they come from, compared with a reviewed relation'
T['C25'] = 'abstract interpretation over MIR of the line table, position lookup, range and rendering functions, with the layout of line ends known and the other bytes unknown'
T['C26'] = 'abstract interpretation over MIR of the readers of names, variables and percent literals with the spelling and lexer state known and the rest unknown, compared with a specification of Ruby names'
T['C23'] = 'abstract interpretation over MIR of the literal readers with the spelling known and the parser state unknown, compared with a specification of Ruby literals'
NOTE = {
 'C24': 'Diagnostics of the grammar actions and the builder; those of the lexer are decided by C23 as to whether, not where, they are reported; lists of up to three elements; parts of unknown origin decide nothing.',
 'C26': 'About 33,000 spellings and states, all paths; reserved words by C13; std models trusted; paths through unmodelled functions decide nothing.',
 'C25': 'Texts of up to six bytes; std models trusted; paths through unmodelled functions decide nothing.',
 'C23': 'About 30,000 spellings (escapes, contents, whole literals, numbers, options, heredoc ends, dedenting) in 16 kinds of literal, all paths; longer spellings by the readers being loops over one unit; std models trusted; paths through unmodelled functions decide nothing.',
 'C14': 'All paths from the encoding name to the stored bytes; a magic comment at the top that the reader recognises; std models trusted.',
 'C15': 'All 15 lexer states for comments and =begin; all paths of assembly, reporting and magic_comment; list growth through std trusted.',
 'C11': 'All productions, all paths through the builder; recursion into nested targets by induction; recorded relation reviewed by hand.',
 'C18': 'All productions, all paths through the builder; recursive validity functions compared on their own; recorded relation reviewed by hand.',
 'C22': 'All productions, all paths through the builder, lists of up to three elements; kinds of parts from a fixpoint over the grammar; std models trusted.',
 'C21': 'All productions, all paths through the builder, lists of up to three elements; predicates of texts compared where both sides have them; the recorded trees were reviewed by hand.',
 'C09': 'All productions, all paths through the builder, lists of up to three elements, kinds of parts from a fixpoint over the grammar; std models trusted.',
 'C10': 'All productions, all paths through the builder; token ranges taken as increasing; order and role tables in vf/ref reviewed by hand.',
 'C20': 'All 15 lexer states and all operator spellings; nesting, context, declared names and following text unknown; std models trusted.',
 'C16': 'All paths of the tokenizer for each literal kind, with and without input left; std models trusted.',
 'C04': 'Every path of the lexer entry that returns the end token, all bytes; std models trusted.',
 'C05': 'Every loop of the lexer that can ask for bytes; lexer fields abstracted as unknown.',
 'C01': 'Sound for depth and flags of every production under the listed std models; programs needing error recovery excluded.',
 'C02': 'All 730 productions x all kinds of their parts, under the listed std models.',
 'C06': 'Every borrow site and every call made while its guard is live; std internals trusted.',
 'C13': 'Table compared entry by entry with the language; every branch of parse_ident and the lookup summarised.',
 'C07': 'Every function and callee of the crate is classified; only std internals are trusted.',
 'C03': 'Every production action and every fallible helper, all paths; std models trusted.',
 'C08': 'Every read of the option and every write of the token list in the crate; all paths of next_token.',
 'C17': 'Every construction site of a Diagnostic in the crate resolved; table frozen from the language reference.',
 'C19': 'Every consumption of a pooled token on every path of every action and builder function.',
 'C12': 'All operator pairs decided on the automaton; the spec table is Ruby\'s published one.',
}
NA = {}
if os.path.exists('na.json'):
    NA = json.load(open('na.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    if i in T:
        checks.append(dict(property=i, quick_cmd='python3 -m vf.run %s' % i, thorough_cmd='python3 -m vf.run %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i], level='other', level_note=NOTE[i]))
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in T]
m = dict(version=1, setup_cmd='python3 -m vf.prep', checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
