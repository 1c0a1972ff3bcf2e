"""Which Verus units carry obligations of which property."""
# unit -> source crate whose expansion it reads ("miniserde" or a crate directory under /verif)
UNITS = {
    'de': 'miniserde',
    'ser': 'miniserde',
    'itoa': 'itoa',
    'ryu': 'ryu',
    'rt': 'miniserde',
    'de_live': 'miniserde',
    'de_scalar': 'miniserde',
    'de_seq': 'miniserde',
    'de_box': 'miniserde',
    'de_array': 'miniserde',
    'de_map': 'miniserde',
    'de_th': 'miniserde',
    'ptr': 'miniserde',
    'ser_types': 'miniserde',
    'rt_types': 'miniserde',
    'value': 'miniserde',
    'rt_value': 'miniserde',
    'containers': 'miniserde',
    'derive_structs': 'derive_sample',
    'derive_enums': 'derive_sample',
}
PROP_UNITS = {
    'C01': ['de'], 'C02': ['de'], 'C05': ['de'], 'C19': ['de'],
    'C03': ['de', 'de_scalar'], 'C04': ['de', 'de_scalar'],
    'C07': ['ser', 'rt'], 'C08': ['ser', 'rt', 'ser_types'], 'C09': ['ser', 'rt', 'ser_types', 'itoa', 'ryu'], 'C20': ['ser'],
    'C06': ['containers', 'de', 'ser'], 'C18': ['containers', 'value'],
    'C10': ['rt_value', 'de_live'],
    'C11': ['rt_types', 'de_live'],
    'C12': ['de_scalar', 'de_seq', 'de_box', 'de_array', 'de_map', 'de_th', 'value', 'ptr', 'de_live'],
    'C13': ['de_seq', 'de_array', 'de_th', 'ser_types', 'de_live'],
    'C14': ['derive_structs', 'de_th', 'de_box', 'de_live'], 'C16': ['derive_enums', 'de_th', 'de_live'],
    'C15': ['de_map', 'de_th', 'ser_types', 'de_live'],
    'C17': ['de_box', 'de_array', 'ptr'],
}
# units a property's proof builds on: their obligations are reported by other properties; when one
# fails here the search for a failing input is widened
PROP_DEPS = {
    'C14': ['de', 'ser'], 'C16': ['de', 'ser'],
    'C06': ['value'], 'C10': ['de', 'ser', 'rt', 'value'], 'C11': ['de', 'ser', 'rt'], 'C12': ['de'], 'C13': ['de'], 'C15': ['de'],
    'C07': ['ser_types'], 'C08': ['de'], 'C09': ['de'],
}
# harness modules of kani/ whose facts a property's units assume
KANI_FACTS = {
    'C02': ['std_facts'], 'C03': ['std_facts'], 'C12': ['std_facts'], 'C04': ['float_facts', 'std_facts'],
    'C09': ['float_facts', 'std_facts'], 'C10': ['float_facts'],
}
