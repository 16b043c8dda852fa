"""property id -> (module, function)"""
RULES = {
    'C01': ('rules_map', 'c01'), 'C02': ('rules_map', 'c02'), 'C03': ('rules_map', 'c03'),
    'C07': ('rules_od', 'c07'), 'C36': ('rules_od', 'c36'), 'C29': ('rules_od', 'c29'),
    'C14': ('rules_cmd', 'c14'), 'C08': ('rules_run', 'c08'), 'C10': ('rules_line', 'c10'), 'C11': ('rules_line', 'c11'), 'C13': ('rules_line', 'c13'),
    'C09': ('rules_style', 'c09'), 'C12': ('rules_style', 'c12'), 'C15': ('rules_style', 'c15'), 'C34': ('rules_style', 'c34'),
    'C16': ('rules_val', 'c16'), 'C17': ('rules_val', 'c17'), 'C18': ('rules_val', 'c18'), 'C19': ('rules_val', 'c19'), 'C30': ('rules_val', 'c30'), 'C37': ('rules_val', 'c37'),
    'C20': ('rules_cfg', 'c20'), 'C21': ('rules_cfg', 'c21'), 'C22': ('rules_cfg', 'c22'), 'C23': ('rules_cfg', 'c23'),
    'C26': ('rules_err', 'c26'), 'C27': ('rules_err', 'c27'), 'C28': ('rules_err', 'c28'), 'C24': ('rules_conv', 'c24'), 'C25': ('rules_conv', 'c25'),
    'C31': ('rules_mem', 'c31'),
    'C35': ('rules_end', 'c35'),
    'C32': ('rules_state', 'c32'), 'C33': ('rules_state', 'c33'),
    'C04': ('rules_map', 'c04'), 'C05': ('rules_map', 'c05'), 'C06': ('rules_map', 'c06'),
}
DEFAULT_TECH = 'path-sensitive dataflow and effect analysis over the resolved syntax tree (clang front end)'
TECH = {}
NOTE = ('Decides the stated rules on every path of the analysed functions of the current tree (loops summarised, repository helpers inlined, no execution, no solver). '
        'Trusts clang\'s resolution of the sources and the abstract models of standard-library and boost calls; obligations the facts cannot decide are reported as undecided and not counted.')
