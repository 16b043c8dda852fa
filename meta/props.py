"""Property texts.  (id, title, statement, over, quantifier text, why tests can't, files, mechanisms)"""
VM = ['src/variables_map.cpp', 'include/boost/program_options/variables_map.hpp']
VS = ['src/value_semantic.cpp', 'include/boost/program_options/value_semantic.hpp', 'include/boost/program_options/detail/value_semantic.hpp']
CL = ['src/cmdline.cpp', 'include/boost/program_options/detail/cmdline.hpp']
OD = ['src/options_description.cpp', 'include/boost/program_options/options_description.hpp']
CF = ['src/config_file.cpp', 'include/boost/program_options/detail/config_file.hpp', 'src/parsers.cpp']
PA = ['src/parsers.cpp', 'include/boost/program_options/parsers.hpp', 'include/boost/program_options/detail/parsers.hpp']
ER = ['src/value_semantic.cpp', 'src/cmdline.cpp', 'include/boost/program_options/errors.hpp']
CV = ['src/convert.cpp', 'include/boost/program_options/detail/convert.hpp']

PROPS = [
 ('C01', 'The first source that gives a value wins; composing options accumulate',
  'When several parsed sources are stored one after another into the same map, an explicit value of a non-composing option from an earlier store is never changed, merged into or re-parsed by a later store. '
  'Composing options are parsed again by every later store, and every occurrence of an option inside one store call reaches that option\'s semantic, in input order, with exactly its own tokens. '
  'Storing wide-character results follows the same rules on their UTF-8 form.',
  ['histories', 'inputs'], 'every sequence of store() calls over every parsed content and every option set',
  'Tests store two fixed sources; the rule speaks about any number of stores, any mix of composing and non-composing options and repeated occurrences.',
  VM, [('store', 'src/variables_map.cpp'), ('typed_value::is_composing', 'include/boost/program_options/value_semantic.hpp')]),
 ('C02', 'Defaults fill exactly the options without a value and never beat one',
  'After a successful store, every named option of the description that has a default and no entry in the map gets an entry holding exactly that default, marked as defaulted and delivered by notification like any other; an option that already has an entry is left alone by defaulting, and options without a default get no entry from it. '
  'The first explicit value given for a defaulted entry, in the same or a later store, replaces the default entirely: it is parsed as if no value were there and the entry no longer counts as defaulted.',
  ['histories', 'inputs'], 'every order of explicit and defaulted stores',
  'Tests check single defaults; interaction of default, explicit value and several stores is unbounded.',
  VM + VS, [('store', 'src/variables_map.cpp'), ('typed_value::apply_default', 'include/boost/program_options/value_semantic.hpp')]),
 ('C03', 'Notification enforces required options before any user-visible effect',
  'Every named required option of a stored description is remembered, and notification of the map throws the required-option error when such an option has no entry or an empty entry, for every such option and never for one that has a value. '
  'All required options are checked before the first bound variable is assigned or the first notifier is called.',
  ['histories', 'inputs'], 'every set of required options and every combination of sources that omit them',
  'Tests cover one or two missing options; the ordering against user effects and the completeness of the check range over every map.',
  VM, [('variables_map::notify', 'src/variables_map.cpp'), ('store', 'src/variables_map.cpp')]),
 ('C04', 'User variables and notifiers are touched only by notification, once per value',
  'Parsing any source and storing its result never assigns a bound variable and never calls a user notifier. '
  'Notification delivers each stored entry that has a semantic exactly once through that semantic, with the value stored in the map: a bound variable is assigned that value and a set notifier is called once with it, and nothing else happens for entries without semantic.',
  ['histories', 'programs'], 'every call sequence that parses and stores, and every map content',
  'A test can only observe that its own few calls left a variable alone; that no call path from parsing to delivery exists is a whole-program statement.',
  VM + VS, [('variables_map::notify', 'src/variables_map.cpp'), ('typed_value::notify', 'include/boost/program_options/detail/value_semantic.hpp')]),
 ('C05', 'Unregistered and nameless options are never stored',
  'Storing parsed options never creates or changes an entry for an occurrence that is flagged as unregistered or that has no name, and never parses its tokens. '
  'Every other occurrence is looked up in the description by its complete name and stored under that name, and an occurrence whose name is not in the description makes the store fail with an error before any entry is created for it.',
  ['inputs', 'histories'], 'every parsed sequence',
  'Tests have a handful of parsed sequences.',
  VM, [('store', 'src/variables_map.cpp')]),
 ('C06', 'Chained maps: missing or defaulted values fall back to the next; clear resets',
  'Looking a name up in a map returns the map\'s own entry, except that an absent or empty one is looked up in the next map when there is one, and a defaulted one yields to a non-empty, non-defaulted value of the next map. '
  'A lookup never changes the map, and clearing a map forgets its entries, its final options and its required options alike, as if it were new.',
  ['histories', 'inputs'], 'every chain of maps and every content',
  'Tests look at two-element chains with few combinations and never re-use a cleared map for final and required options.',
  VM, [('abstract_variables_map::operator[]', 'src/variables_map.cpp'), ('variables_map::clear', 'src/variables_map.cpp')]),
 ('C07', 'Name lookup: exact match beats approximate; ambiguity is always reported',
  'Looking an option up by name returns the one description whose long or short name equals the given name under the case settings passed; only if there is none, the single description matched as wildcard or, when guessing is allowed, as an abbreviation. '
  'Two or more exact candidates, or no exact but two or more approximate ones, throw the ambiguous-option error listing exactly these candidates, and a name matching nothing yields no description (an unknown-option error from find). '
  'The outcome does not depend on how many long names an option has or in which order options and groups were added.',
  ['inputs', 'configurations'], 'every option set, every name and every combination of guessing and case flags',
  'Tests have a few option sets; candidates can come in any number and order, each with several long names, wildcards and case settings.',
  OD, [('option_description::match', 'src/options_description.cpp'), ('options_description::find_nothrow', 'src/options_description.cpp')]),
 ('C29', 'Help output lists every option exactly once, groups share their options',
  'Printing a description lists every own option exactly once, in the order of declaration, with its name, value name and non-empty description, and then every added group in order; options that came with a group are printed by the group only, and the groups use the column width of the outermost listing. '
  'Adding a group makes every option of it findable through the parent as the same object, and each declaration adds exactly one option carrying the semantic and description given.',
  ['inputs', 'configurations'], 'every tree of descriptions',
  'Tests compare a few rendered texts; omissions or duplications for some shape of group tree would not show.',
  OD, [('options_description::print', 'src/options_description.cpp'), ('options_description::add', 'src/options_description.cpp')]),
 ('C36', 'Declared names are split, stored and reported consistently',
  'A declared names string is split at commas; a one-character last name is the short name and all others are long names, and the display, key and canonical names are derived from these: the long name is the name used for storing unless the option has only a short name or is matched by a wildcard. '
  'The formatted name and value parameter in help are built from exactly these names and the semantic\'s value name.',
  ['inputs', 'configurations'], 'every names string and every prefix style',
  'Tests cover a few declarations; the derived names must agree for every number and kind of names.',
  OD, [('option_description::set_names', 'src/options_description.cpp'), ('option_description::canonical_display_name', 'src/options_description.cpp')]),
 ('C37', 'Help shows each value with its declared name, implicit and default text',
  'The parameter text help prints for an option with a type is its declared value name, or the program-wide common name when none was declared, inside "[=name(=text)]" when an implicit value with a text was declared, and followed by " (=text)" when a default value with a text was declared. '
  'The text shown is the one given with the declaration, whole, or the value written out when none was given; declaring one of the two never changes the other. An option without a type shows the common name.',
  ['inputs', 'configurations'], 'every combination of declared name, implicit and default value, every text',
  'Tests compare the help of a few declarations; the combinations of name, implicit and default text for every type are not among them.',
  VS, [('typed_value::name', 'include/boost/program_options/detail/value_semantic.hpp'), ('typed_value::default_value', 'include/boost/program_options/value_semantic.hpp'), ('untyped_value::name', 'src/value_semantic.cpp')]),
 ('C14', 'Token syntax: names, adjacent values and sticky letters split exactly',
  'With at least one character between the dashes and the first "=", a "--name=value" token becomes one option with the name before the first "=" and all that follows it as its single value ("--name=" is a syntax error, "--name" has no value); a disguised "-name" or "/name" whose name is a known option gives the same result, and any other token is left to the other styles untouched. '
  'A "-x" or "/x" token gives the option named by its first letter and the rest of the token as its value; when sticky is on, the letters after a known switch that takes no value are further options in order, and the rest of the token belongs to the first letter that is not such a switch. '
  'One token is consumed for it, nothing of its text is lost or repeated, and the reported original token is the token as it was given.',
  ['inputs', 'configurations'], 'every token and every option set',
  'Tests feed a few dozen tokens; lengths, positions of "=", and letter sequences are unbounded.',
  CL, [('cmdline::parse_long_option', 'src/cmdline.cpp'), ('cmdline::parse_short_option', 'src/cmdline.cpp'), ('cmdline::parse_disguised_long_option', 'src/cmdline.cpp'), ('cmdline::parse_dos_option', 'src/cmdline.cpp')]),
 ('C08', 'Undeclared options are rejected, or flagged when unregistered ones are allowed',
  'On a command line, every named option found by a style parser is looked up in the description under the active guessing and case settings before it is reported; one that is not declared makes parsing fail with the unknown-option error, or, when unregistered options are allowed, is reported flagged as unregistered with its name, value and tokens unchanged and takes no following token. '
  'A declared option is never flagged or rejected as unknown. '
  'In a configuration file the same holds for every setting under its full name, and the unknown-option error names that setting.',
  ['inputs', 'configurations'], 'every command line or file, every option set and every style',
  'Tests feed a few unknown names; position, grouping of sticky letters, and style combinations are unbounded.',
  CL + CF, [('cmdline::finish_option', 'src/cmdline.cpp'), ('cmdline::run', 'src/cmdline.cpp'), ('common_config_file_iterator::get', 'src/config_file.cpp')]),
 ('C10', 'Options take exactly the tokens their declaration allows',
  'An option found on the command line whose own value plus the tokens left is fewer than its minimum number of tokens fails with a missing-parameter error, one with an adjacent value that may take none with an extra-parameter error, and otherwise exactly the missing tokens are taken from the line in order, each becoming the next value. '
  'A token that looks like an option under the active style and, looked up as it is written, names a known option is never taken as such a value but reported as missing parameter. '
  'An option that may take more than its minimum is given the positional tokens directly following it, up to its maximum, in order, stopping at the next option and at the terminator, and those tokens are not reported again.',
  ['inputs', 'configurations'], 'every command line, every minimum and maximum and every style',
  'Tests use a few command lines; the number of tokens, the limits and the place where tokens stop are unbounded.',
  CL, [('cmdline::finish_option', 'src/cmdline.cpp'), ('cmdline::run', 'src/cmdline.cpp')]),
 ('C11', 'Every token of the command line is accounted for exactly once, in order',
  'Parsing goes on until the command line is used up; every round either lets the first style parser that consumes something report its options, or reports the first token as one positional with that token as value and original token. '
  'All options found are reported, none twice, in the order of the command line, and later phases change only their name, position and case flag (apart from positional tokens given to the option before them).',
  ['inputs', 'configurations'], 'every command line and every style',
  'Tests compare results for a few dozen lines; a token dropped, repeated or reordered for some combination would not show.',
  CL, [('cmdline::run', 'src/cmdline.cpp')]),
 ('C13', 'Positional tokens are numbered and named by their position',
  'Positional tokens are numbered consecutively from zero in the order of the command line, named options are not numbered. '
  'With a positional description, the n-th positional gets the n-th declared name; a name declared with count -1 covers all positions behind the others, and when there is none, one positional more than there are names fails with the too-many-positional-options error.',
  ['inputs', 'configurations'], 'every command line and every positional description',
  'Tests have at most a handful of positions.',
  CL + ['src/positional_options.cpp'], [('cmdline::run', 'src/cmdline.cpp'), ('positional_options_description', 'src/positional_options.cpp')]),
 ('C09', 'Everything behind the terminator is positional',
  'Under every style a "--" token that reaches the style parsers ends option recognition: it is dropped, and each token behind it, whatever it looks like, becomes one positional with that token as value and original token, in order. '
  'Such tokens are never given to an option before the terminator as further values, and no option syntax takes "--" itself.',
  ['inputs', 'configurations'], 'every command line and every style',
  'Tests use one or two lines with a terminator; styles, positions and the look of the tokens behind it are unbounded.',
  CL, [('cmdline::parse_terminator', 'src/cmdline.cpp'), ('cmdline::run', 'src/cmdline.cpp')]),
 ('C12', 'Style bits select exactly the syntax they document',
  'A style admits "--name", "-name" (disguised), "-x" and "/x" tokens as options exactly when the bits documented for them are set, with disguised long options tried before short ones, and every documented bit has an effect on parsing. '
  'Contradictory styles (long or short options without a way to give values, short options without prefix) are rejected with the invalid-style error before the style is adopted, all others are accepted, and 0 means the default. '
  'The case setting of each reported option and the prefix used in messages follow the style.',
  ['configurations', 'inputs'], 'every combination of style bits',
  'Tests pick some of the thousands of combinations.',
  CL + ['include/boost/program_options/cmdline.hpp'], [('cmdline::run', 'src/cmdline.cpp'), ('cmdline::check_style', 'src/cmdline.cpp'), ('command_line_style', 'include/boost/program_options/cmdline.hpp')]),
 ('C15', 'User-supplied parsers are asked first and their result is taken as it is',
  'When given, the custom style parser and then the additional parser are asked before any built-in style, under every style. '
  'The additional parser is shown the token as it stands; if it returns an empty name the token is left to the other styles, otherwise exactly that token becomes one option with the name and, if not empty, the value it returned.',
  ['inputs', 'configurations'], 'every custom parser, every token and every style',
  'Tests have a few custom parsers under the default style.',
  CL, [('cmdline::handle_additional_parser', 'src/cmdline.cpp'), ('cmdline::run', 'src/cmdline.cpp')]),
 ('C34', 'Unrecognised tokens are collected completely and verbatim',
  'Collecting unrecognised input returns, in order, all original tokens of exactly the options flagged as unregistered and, when positionals are included, of those that have a position. '
  'Every option reported by a parser carries as original tokens the command line tokens it was made from, unchanged, so nothing the user typed for such options is lost or rewritten.',
  ['inputs', 'configurations'], 'every command line and every set of options found',
  'Tests compare a few lines; a token lost for one syntax or one style would not show.',
  CL + ['include/boost/program_options/detail/parsers.hpp'], [('collect_unrecognized', 'include/boost/program_options/detail/parsers.hpp'), ('cmdline::run', 'src/cmdline.cpp')]),
 ('C16', 'A repeated option is refused unless its type accumulates',
  'When an option of a plain, optional, string or boolean type, or one declared without type, already has an explicit value, a further occurrence is refused with the multiple-occurrences error and the value it has is not touched; a first occurrence is never taken for a repeated one. '
  'An option of a sequence type accumulates instead: every occurrence adds one element per token at the end, in order, and nothing given before is lost.',
  ['inputs', 'histories'], 'every declared type and every sequence of occurrences, for narrow and wide input',
  'Tests repeat a few options of a few types; a type or character width whose check is missing would not show.',
  VS, [('typed_value::xparse', 'include/boost/program_options/detail/value_semantic.hpp'), ('validate', 'include/boost/program_options/detail/value_semantic.hpp'), ('untyped_value::xparse', 'src/value_semantic.cpp')]),
 ('C17', 'Boolean spellings mean the same in narrow and wide input',
  'For a boolean option the words on, yes, 1 and true, in any letter case, mean true; off, no, 0 and false mean false; an empty or absent value means true; and any other text is refused with the invalid-boolean error showing that text, without storing anything. This is the same for narrow and wide input. '
  'A boolean switch is false unless given and takes no value.',
  ['inputs'], 'every text and both character types',
  'Tests try a handful of spellings, mostly narrow; letter case and the refused texts are unbounded.',
  VS, [('validate(bool)', 'src/value_semantic.cpp'), ('bool_switch', 'src/value_semantic.cpp')]),
 ('C18', 'A value is stored as given or refused with an error that shows it',
  'The value stored for an option is the conversion of exactly the text given, unaltered, to the declared type; text that does not convert is refused with the invalid-option-value error carrying that text, the conversion machinery\'s own error never reaches the caller, and a refused scalar value leaves nothing behind. '
  'In a sequence each element is converted on its own and the error carries the element that failed.',
  ['inputs'], 'every declared type with a conversion, every text, narrow and wide',
  'Tests convert a few good and bad integers.',
  VS, [('validate', 'include/boost/program_options/detail/value_semantic.hpp'), ('invalid_option_value', 'src/value_semantic.cpp')]),
 ('C19', 'Declared settings decide how many values are taken and what stands in',
  'An option needs one value unless it was declared with zero tokens or with an implicit value, and takes at most one unless it was declared multitoken (any number) or with zero tokens (none); a scalar given more than one or too few values is refused with the error saying so. '
  'The implicit value is stored exactly when the option is given without a value, the default is offered exactly when one was declared, and each declaration call changes the setting it is named after and no other.',
  ['inputs', 'configurations'], 'every combination of declaration calls and every number of values',
  'Tests cover the usual combinations; settings interact and each of many types has its own code.',
  VS, [('typed_value', 'include/boost/program_options/value_semantic.hpp'), ('untyped_value', 'src/value_semantic.cpp')]),
 ('C30', 'A stored value always has the type the option was declared with',
  'Whatever the source and the character type of the parser, the value stored for an option, be it parsed, default or implicit, has exactly the type the option was declared with (text for an option declared without type), the type reported for the option is that type, and values are delivered and retrieved as that type. '
  'So retrieving a value as its declared type, or having it assigned to a variable of that type, never fails.',
  ['inputs', 'configurations'], 'every declared type, every source of the value, narrow and wide parsers',
  'Type mismatches are invisible until a value of just that type and character width is read back.',
  VS + VM, [('validate', 'src/value_semantic.cpp'), ('typed_value::notify', 'include/boost/program_options/detail/value_semantic.hpp'), ('variable_value::as', 'include/boost/program_options/variables_map.hpp')]),
 ('C20', 'Configuration lines are read as sections, settings, blanks or errors',
  'Every line of a configuration file has exactly one meaning, found after dropping everything from the first "#" and the white space at both ends: a line with nothing left has no effect; a line in square brackets sets the prefix of the names that follow to the text between the brackets with one dot behind it; '
  'otherwise a line with "=" is one setting whose name is the prefix and the trimmed text before the first "=" and whose value is the trimmed text behind it; anything else is refused with the syntax error that shows the line. '
  'Every setting is reported once, in order, none is skipped, and the section in force never leaks into or out of a setting.',
  ['inputs', 'histories'], 'every text and every sequence of lines',
  'Tests read a few small files; comments, white space, brackets and equal signs at odd places are unbounded in number.',
  CF, [('common_config_file_iterator::get', 'src/config_file.cpp'), ('basic_config_file_iterator', 'include/boost/program_options/detail/config_file.hpp')]),
 ('C21', 'Only declared settings are accepted from a configuration file',
  'A setting whose full name is neither the long name of a declared option nor begins with the part before the star of a declared wildcard is refused with the unknown-option error naming it, unless unregistered settings are allowed: then it is reported, flagged as unregistered, while declared ones are never flagged. '
  'All options of the description are declared, an option without long name is refused, and of two wildcards one of which is covered by the other the second is refused.',
  ['inputs', 'configurations'], 'every set of declared names and wildcards and every setting name',
  'Tests use one wildcard and few names; which of several wildcards covers a name depends on how the names sort.',
  CF, [('common_config_file_iterator::allowed_option', 'src/config_file.cpp'), ('common_config_file_iterator::add_option', 'src/config_file.cpp'), ('parse_config_file', 'src/parsers.cpp')]),
 ('C22', 'A configuration file that cannot be read is an error',
  'Parsing a configuration file by name either reads the file of exactly that name, with the options and the permission for unregistered settings as given, or, when it cannot be opened, ends with the reading-file error that names it; a missing file is never taken for an empty one, and an error while reading is reported the same way instead of returning what was read so far.',
  ['fault_sequences', 'inputs'], 'every file name and every failure to open it, narrow and wide',
  'Tests open one missing and one existing file.',
  CF, [('parse_config_file', 'src/parsers.cpp'), ('reading_file', 'include/boost/program_options/errors.hpp')]),
 ('C23', 'The environment yields one option per mapped variable',
  'Parsing the environment splits every entry at its first "=", visits every entry of the environment once and in order, and reports exactly those the name mapper gives a name, with that name and the value unchanged. '
  'With a prefix the name of a variable is the rest of it, in lower case, and variables without the prefix are left out.',
  ['inputs'], 'every environment, every mapper and every prefix',
  'Tests set a handful of variables.',
  PA + ['include/boost/program_options/environment_iterator.hpp', 'include/boost/program_options/eof_iterator.hpp'], [('parse_environment', 'src/parsers.cpp'), ('prefix_name_mapper', 'src/parsers.cpp'), ('environment_iterator::get', 'include/boost/program_options/environment_iterator.hpp')]),
 ('C24', 'Text keeps its encoding and no part of it is lost in conversion',
  'Text coming from a wide-character source reaches an option\'s conversion as UTF-8 or wide text and text from a narrow source as local 8-bit or wide text, so every token is read in the encoding it was written in, in every combination of source and option type, through every store. '
  'Converting text visits all of it from start to end in one pass, keeps the conversion state, appends exactly what each step produced, and reports text that cannot be converted with an error: it never returns shortened or garbled text and never loops without progress.',
  ['inputs'], 'every text, every combination of source and option character type',
  'Tests convert a few strings; long input, input that converts in pieces and input with an incomplete end are not among them for every path.',
  CV + VS + VM, [('convert', 'src/convert.cpp'), ('value_semantic_codecvt_helper', 'src/value_semantic.cpp'), ('store', 'src/variables_map.cpp')]),
 ('C25', 'The wide and builder interfaces give what the narrow engine gives',
  'A wide parsed option is its narrow form with every token decoded and all other members (name, position, unregistered and case flags) equal, in order and number; the wide result carries the description and prefix of the narrow one. '
  'The command-line parser hands the engine all arguments after the program name, and every builder call sets just the setting it is named after; running it returns the engine\'s options unchanged, and the one-call convenience functions set exactly the given arguments.',
  ['inputs', 'configurations'], 'every parsed sequence, argument vector and sequence of builder calls',
  'Tests go through one or two of the entry points; a member forgotten in a conversion shows only when it matters later.',
  PA + CV, [('woption_from_option', 'include/boost/program_options/detail/parsers.hpp'), ('basic_command_line_parser', 'include/boost/program_options/detail/parsers.hpp'), ('basic_parsed_options<wchar_t>', 'src/parsers.cpp')]),
 ('C26', 'Errors name the option and show the token as it was given',
  'Every error about an option that leaves the command-line parser, store, notify, or the config-file and environment parsers names the option concerned and shows the token as the user wrote it, with the prefix of a style the source allows. '
  'The name, token and style put into an error are those of the option that failed, never of its neighbour; a handler that adds them rethrows the same error with its type, and no error of the library or of a user\'s validator is swallowed on the way.',
  ['inputs', 'configurations', 'fault_sequences'], 'every failing input, every kind of error, every source',
  'Tests look at a fixed list of messages from one source each; whether each throw passes a handler that knows the option depends on the whole call graph.',
  CL + VM + VS + CF + PA + ER, [('cmdline::run', 'src/cmdline.cpp'), ('store', 'src/variables_map.cpp'), ('error_with_option_name', 'include/boost/program_options/errors.hpp')]),
 ('C27', 'Errors form the documented tree and carry what they were built with',
  'Every exception the library throws for bad input derives publicly from program_options::error, itself a std::logic_error, and each documented error class keeps its documented base, so a handler for a base class receives every error below it. '
  'The kind, alternatives, line, option name, original token and style an error is constructed with are those it carries when caught.',
  ['inputs', 'fault_sequences'], 'every throw in the library, every error class',
  'Tests catch particular errors by their own type; a base or a member lost shows only to the user who catches by base or asks for the member.',
  ER + CL + VM + VS + CF + OD, [('error classes', 'include/boost/program_options/errors.hpp'), ('validation_error::get_template', 'src/value_semantic.cpp'), ('invalid_syntax::get_template', 'src/cmdline.cpp')]),
 ('C28', 'Every error message can be produced and shows text verbatim',
  'what() of every library error gives a complete message: each kind has a text, each placeholder of it is replaced by its value or its phrase is replaced by the generic one, and what() itself never throws or hangs. '
  'Text the user gave (tokens, option names typed, values) appears verbatim even when it contains placeholder-like text, exactly once per placeholder, and an ambiguity names all its distinct alternatives. '
  'The message reflects the name, token and style set last.',
  ['inputs', 'configurations'], 'every option name, token, value, style and number of alternatives',
  'Tests format a few fixed errors; text with percent signs, three alternatives or a missing name are not among them.',
  ER + VS + CL, [('substitute_placeholders', 'src/value_semantic.cpp'), ('replace_token', 'src/value_semantic.cpp'), ('ambiguous_option::substitute_placeholders', 'src/value_semantic.cpp'), ('get_template', 'src/value_semantic.cpp')]),
 ('C31', 'No input makes the library touch memory outside its containers',
  'Whatever tokens, file lines, environment entries and descriptions the library is given, it never reads or writes an element outside a container or string, never takes the first or last element of an empty one, never dereferences an end or begin-before iterator, and never follows a null pointer: '
  'empty tokens, empty names and values, a lone dash or prefix, options with no original tokens, lookups that find nothing and groups, notifiers or semantics that are absent are all handled. '
  'The parallel lists the library keeps (options and their group marks, placeholder texts of an error) stay in step.',
  ['inputs', 'configurations'], 'every token list, configuration text, description and user-supplied parser result',
  'Out-of-range access on one odd token is invisible to tests that do not use that token, and often even when they do, because the byte next to a short string happens to be readable.',
  CL + OD + VM + VS + CF + PA + ER + CV + ["src/split.cpp", "src/winmain.cpp"], [('parse_short_option', 'src/cmdline.cpp'), ('finish_option', 'src/cmdline.cpp'), ('format_paragraph', 'src/options_description.cpp'), ('common_config_file_iterator::get', 'src/config_file.cpp'), ('split_unix', 'src/split.cpp')]),
 ('C32', 'Parsing keeps no hidden state; what is passed as const is left unchanged',
  'The library keeps nothing between calls except in the objects the caller passes as modifiable: descriptions, positional descriptions, value semantics, parsed options, argument lists and errors received as const are left exactly as they were, also those shared through pointers or added to several groups, '
  'and no object of the process (shared empty strings and values, the default argument name, the locale, the environment, buffers) is ever changed. '
  'So the same input parsed twice gives the same result, and one description can serve any number of parses, stores, groups and threads.',
  ['histories', 'schedules', 'configurations'], 'every sequence and interleaving of calls that share a description',
  'A static buffer or a cache inside a const call passes every single-call test; it shows only on the second call or under threads.',
  CL + OD + VM + VS + CF + PA + CV + ['src/split.cpp', 'src/positional_options.cpp'], [('options_description', 'src/options_description.cpp'), ('variables_map::get', 'src/variables_map.cpp'), ('get_single_string', 'include/boost/program_options/detail/value_semantic.hpp')]),
 ('C33', 'Every object starts with all its members set; nothing unset is read',
  'Each constructor of the library gives every flag, count, pointer, style and kind of the object a definite value, so a fresh option, parser, description, error, map or iterator behaves the same whatever memory it is built in, and no local variable is used before it was set.',
  ['inputs', 'configurations'], 'every way of constructing each class, every path to each local',
  'Fresh memory is usually zero in tests, so a missing initialiser behaves correctly there.',
  CL + OD + VM + VS + CF + PA + ER + ['include/boost/program_options/option.hpp', 'include/boost/program_options/eof_iterator.hpp'], [('basic_option', 'include/boost/program_options/option.hpp'), ('cmdline::init', 'src/cmdline.cpp'), ('typed_value', 'include/boost/program_options/value_semantic.hpp'), ('variable_value', 'include/boost/program_options/variables_map.hpp')]),
 ('C35', 'No input makes the library loop forever',
  'Every loop of the library ends on every input: each round brings it nearer to its end, by taking a token, a character, a line or an element, or by searching on behind what it has just replaced, and no round that changes nothing is repeated. '
  'So parsing a command line, a configuration text or an environment, looking up names, storing, converting, printing help and formatting messages return or throw after a number of rounds bounded by the size of what they were given, whatever that is: empty tokens, names and lines, repeated letters, texts that contain what is being replaced.',
  ['inputs', 'configurations'], 'every loop of the library, every way through its body, every input that leads there',
  'A test that would hang is only written for a case someone thought of; whether some input repeats a round without progress concerns every path through every loop.',
  CL + OD + VM + VS + CF + PA + CV + ['src/split.cpp'], [('cmdline::run', 'src/cmdline.cpp'), ('parse_short_option', 'src/cmdline.cpp'), ('common_config_file_iterator::get', 'src/config_file.cpp'), ('format_paragraph', 'src/options_description.cpp'), ('substitute_placeholders', 'src/value_semantic.cpp'), ('boost::detail::convert', 'src/convert.cpp')]),
]

NOT_APPLICABLE = [
 ('C40', 'The UTF-8 facet is boost::detail::utf8_codecvt_facet, instantiated from a Boost header outside /repo; its correctness is bit arithmetic over runtime code units, for which a static argument would need value-level (bit-vector) reasoning on code that is not part of this repository.'),
 ('C41', 'Where lines are broken and how wide columns get are arithmetic relations between runtime text lengths and user-given widths; the abstract domain here (linear facts per path) decides that no character is read out of range and that every loop ends, but not the layout relation over an unbounded number of lines.'),
 ('C42', 'Which texts denote which number is decided by boost::lexical_cast and the standard streams, outside this repository; the library\'s part (passes the text on unaltered, reports failure) is claimed in C18.'),
 ('C43', 'Whether an object is unchanged after std::bad_alloc depends on every allocation point inside the standard containers; the analysis models containers as values and has no model of allocation failure.'),
 ('C44', 'split_winmain is compiled only on Windows (#ifdef _WIN32), so its code is not part of the analysed program here; split_unix delegates all quoting and escaping rules to boost::tokenizer outside this repository.'),
]
NA_PROPS = [
 ('C40', 'UTF-8 conversion is an exact inverse on all valid text', 'Converting any valid wide string to UTF-8 and back gives the same string, and every sequence that is not valid UTF-8 is refused.',
  ['inputs'], 'every sequence of code units', 'Tests convert a handful of characters.', CV + ['src/utf8_codecvt_facet.cpp'], [('to_utf8', 'src/convert.cpp')]),
 ('C41', 'Help text is wrapped inside the line length without losing characters', 'Each line of the help output is at most as long as the configured line length, words are broken only when they do not fit a line, and the lines put together give the description.',
  ['inputs', 'configurations'], 'every description text, every line length and column width', 'Tests compare a few fixed help texts.', OD, [('format_paragraph', 'src/options_description.cpp'), ('format_description', 'src/options_description.cpp')]),
 ('C42', 'Numeric option values are converted exactly', 'A text is accepted as a number exactly when it denotes a number of the declared type that is in range, and the value stored is that number.',
  ['inputs'], 'every text and every numeric type', 'Tests convert a few numbers.', VS, [('validate', 'include/boost/program_options/detail/value_semantic.hpp')]),
 ('C43', 'Running out of memory leaves maps and descriptions usable', 'When an allocation fails during parsing, storing or notifying, the exception reaches the caller and the objects involved can still be used or destroyed.',
  ['fault_sequences'], 'every allocation that can fail', 'Tests never fail an allocation.', VM + CL + OD, [('store', 'src/variables_map.cpp')]),
 ('C44', 'Command line strings are split by the documented quoting rules', 'Splitting a command line string gives the tokens a shell (split_unix) or the Windows start-up code (split_winmain) would give, for every mix of quotes, escapes and separators.',
  ['inputs'], 'every command line string', 'Tests split a few fixed strings.', ['src/split.cpp', 'src/winmain.cpp'], [('split_unix', 'src/split.cpp'), ('split_winmain', 'src/winmain.cpp')]),
]
