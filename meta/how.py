"""one paragraph per property: what is decided and against what"""
HOW = {
'C01': 'The loop of `store` is enumerated with the description lookups, `m_final` and the map as symbolic maps; each path through one occurrence is classified (unregistered, nameless, final, defaulted, composing) and its writes to the map entry and calls of `semantic->parse` are compared with a decision table. `new_final` is tracked to show that only explicit, non-composing options become final, and only after the whole source.',
'C02': 'Second loop of `store`: for every option of the description the path facts (`has(m, key)`, `apply_default`) decide whether an entry is created; value, defaulted flag, semantic and key are compared term by term. The replacement of a default by an explicit value is read from the first loop.',
'C03': 'Paths of `variables_map::notify`: order of the two loops (effects of the second must come after the exhaustion of the first), what the first throws on, over which map it walks, and that `store` fills `m_required` for exactly the required options.',
'C04': 'Effect analysis over the call graph: no path from a parser or `store` reaches `notify`, an assignment through `m_store_to` or the call of `m_notifier`; inside `notify` one call per entry with a semantic, with the stored value.',
'C05': 'Same enumeration as C01: an occurrence with empty name or unregistered flag has no write and no parse on any path; the lookup uses the complete name (approx off) and precedes the creation of the entry.',
'C06': 'Paths of `abstract_variables_map::operator[]` and `variables_map::get/clear` against a decision table over (own entry present, empty, defaulted; next present, next empty, next defaulted); `clear` must reset every member of the class (member list taken from the class, so a new member counts).',
'C07': 'Paths of `option_description::match` and `options_description::find_nothrow` with the match results as symbols: full/approximate counts, which candidates are listed, which pointer is returned; a later weaker result may not replace a stronger one.',
'C08': 'Paths of `cmdline::finish_option` and of the configuration-file iterator: every construction of an option must pass a lookup of its name with the active flags; outcome per (found, allow_unregistered).',
'C09': 'Paths of `parse_terminator` and the order of the style parsers pushed in `run`; no other parser may accept a token equal to `--` (decided by assuming the token and asking whether a non-empty result is feasible).',
'C10': 'Paths of `finish_option` and of the later pass in `run`, as linear relations between token counts, `min_tokens`, `max_tokens` and loop positions.',
'C11': 'Loop of `run`: every round either appends all of `next` in order or one positional made from `args[0]`; what later passes may write is an effect rule on members.',
'C12': 'For each documented style bit the facts of the paths that accept the corresponding token form are compared with the bit, and `check_style` with the table of contradictory styles. Every bit must be tested by some path that differs with it.',
'C13': 'Loop of `run` over the result: positions as induction terms; `positional_options_description` functions against their table (`add`, `max_total_count`, `name_for_position`).',
'C14': 'Paths of `parse_long_option`, `parse_short_option`, `parse_dos_option`, `parse_disguised_long_option`: name and value as substring terms of `args[0]` (positions linear), outcome table, number of tokens consumed.',
'C15': 'Order of the parsers pushed in `run` under every style; paths of `handle_additional_parser` against the pair the user function returned.',
'C16': 'Paths of every `validate` overload and `xparse`: `check_first_occurrence` (or the accumulating form) dominates every store; a sequence appends after what was there.',
'C17': 'The comparison chain of both `validate(bool)` overloads is turned into a table word -> value by the string constants on the path; narrow and wide must agree; case folding must precede the comparison.',
'C18': 'Dataflow from the text to `lexical_cast`/the stored value: no transformation in between; every exception of the conversion is caught and becomes `invalid_option_value` of the same text; nothing is stored before.',
'C19': 'Declaration calls of `typed_value` and the accessors as state tables: each call writes exactly its member, each accessor reads exactly its own.',
'C20': 'Loop of `common_config_file_iterator::get`: the line as a symbolic text through comment and white-space removal (accepted in several formulations), classification, term comparison of prefix, name and value.',
'C21': '`add_option` and `allowed_option` against the wildcard semantics, with the sorted-set neighbours (`lower_bound`, `upper_bound`, step back) as terms; registration of every option by `parse_config_file`.',
'C22': 'Paths of `parse_config_file(const char*)`: open with exactly the name, failure test before parsing, stream state test after it (`bad`).',
'C23': 'Paths of `environment_iterator::get`, `parse_environment` and the prefix mapper.',
'C24': 'Encoding labels (UTF-8, local 8-bit, wide) propagated through all conversions between source and option type; `boost::detail::convert` loop: positions, state and appended pieces per round, every non-success result throws. Every token of a list must go through the same conversions, and no string may be copied through `c_str()`.',
'C25': 'Term equality of wide and narrow results member by member; builder calls as effect rules; call graph for the convenience functions.',
'C26': 'Exception flow: every throw of an option error on a path from a public entry passes a handler or constructor that sets name, token and style; the values set are traced to the option of the same iteration; handlers rethrow (`throw;`).',
'C27': 'Class hierarchy as declared, every thrown type below `program_options::error`, constructor arguments traced into members and accessors.',
'C28': 'Paths of `get_template`, `substitute_placeholders`, `replace_token` and `ambiguous_option`: every kind has a text, every placeholder used in a text is set or has a default phrase, one pass over the text, alternatives listed from a set.',
'C29': 'Paths of `print`, `add`, `add_options`: what is printed per own option and group, widths handed down, parallel lists kept in step.',
'C30': 'Type analysis: the type handed to `any` on each store path, to `any_cast` on each read and the one reported by `value_type()` must be the same instantiated type.',
'C31': 'Every element access, iterator dereference, substring position and pointer dereference the interpreter meets becomes an obligation `0 <= index < size` (or non-null) under the facts of its path; loop-carried positions get inductive lower/upper bounds and `a <= b` relations (greatest fixpoint over the candidate set). Helpers without own callers outside are judged where they are called.',
'C32': 'Effect analysis: the root of every written location is classified (local, parameter, reached through const, global, static local); writes to globals, to const-reached objects or to shared options are violations. Mutable error-message caches are the documented exception.',
'C33': 'Every scalar member of every class against the initialisers and body writes of each of its constructors; every read of a local against its definite assignment on the path.',
'C34': 'Origin of each option\'s original tokens traced to the command-line tokens consumed; `collect_unrecognized` selection table.',
'C35': 'For every loop: a lexicographic measure is searched among linear expressions bounded by the facts of the round, sizes of carried containers, iterator steps, text left behind a search, and input left to read; a round in which nothing the loop control depends on changes (slice over the havocked locations, also through inner loops), a loop without exit, and a search that restarts inside the text just put in are violations.',
'C37': 'Paths of `typed_value::name` and `untyped_value::name` for every type the repository instantiates, against the table over (named, implicit text, default text); the text remembered by every `default_value`, `implicit_value` and `value_name` traced to its argument.',
'C36': 'Paths of `set_names`, `key`, `canonical_display_name`, `format_name`, `format_parameter` against tables over the names present.',
}
LIMIT = {
'C10': 'the maximum of a user-defined semantic is taken as at least its minimum',
'C12': 'the four known findings (adjacent/next bits without effect) are listed in known_findings.txt',
'C16': 'the known finding about implicit values is listed in known_findings.txt',
'C24': 'the codecvt facets themselves are outside /repo (see C40)',
'C31': 'references kept after their container changed are seen only where the engine resolves them; wrap-around of unsigned is not modelled; a position carried out of a loop is undecided rather than wrong',
'C35': 'rounds that terminate for an arithmetic reason the measures do not express are undecided; user style parsers are assumed to take a token when they report an option; recursion through groups added to themselves is excluded by the interface',
'C28': 'the texts themselves are not judged, only that they are complete',
'C32': 'effects of user callbacks are the user\'s',
}
