NOTES = {
 'C01': 'class invariant (members and id map agree) and exact effect of every mutator of every container class, for all contents and arguments; trusts the semantics of list and dict',
 'C02': 'parent and type invariant of every mutator of every container class, for all contents and arguments',
 'C03': 'every documented way of looking a member up, for all containers and keys; int(str) is an uninterpreted partial function',
 'C04': 'nsmap, get_attribute, __getitem__ and the namespace setters at every level of nesting (induction over the parent chain); trusts dict and str.split',
 'C05': 'equality is an equivalence, agrees with contents, and != is its negation, for every pair of classes',
 'C06': 'id and reference languages: the compiled patterns are compared with the specification as automata (all strings), the functions that use them are proved over the tokens',
 'C07': 'ids, expand and compress for all expressions (token sequences of any length, loop invariant for compress)',
 'C08': 'value and resolution for all acyclic references; recursion by contract',
 'C09': 'get_item, dereference, referents, referrers for all IGTs with unique ids; ids of an expression by contract',
 'C10': 'ancestors and descendants: every step of the transition system proved for all states; termination by argument on a finite measure',
 'C11': 'sort_tiers: permutation, order and stability for all tier lists, loop invariants for both loops',
 'C12': 'JSON codec: encode then decode is the identity for all corpora of the stated domain; trusts json itself',
 'C13': 'XML codec: encode then decode is the identity for all corpora of the stated domain; trusts ElementTree (searched with bounds)',
 'C14': 'loading modes and transient iteration as steps of the consumer/producer protocol, for all event sequences; trusts iterparse',
 'C15': 'XigtPath: tokenizer by automata, steps, axes, tests, groups for all trees; evaluation of a whole path by contract',
 'C16': 'every validation rule: reported exactly when violated, for all corpora; the command (files, filtering, what is shown) under contract; Counter, logging by contract',
 'C17': 'partition: every IGT in exactly one file or in none, as selected, for all corpora; file writing by contract',
 'C18': 'sorting keys and the sort of the script for all corpora; reading and writing by contract (C13)',
 'C19': 'escape for all strings; align_tier with its helpers for all agendas (invariant over an abstract trellis); composition over several tiers by argument',
 'C20': 'Toolbox columns and tokens for all lines; decoding of bytes is trusted',
 'C21': 'ODIN importer functions for all texts; re.sub by contract for single character patterns',
 'C22': 'query counts, job, output and templates for all corpora and matches; argparse, Counter and string.Formatter by contract',
}
