REGISTRY = {
    'C01': 'values:dynamic_bitset',
    'C02': 'values:sub_bitset',
    'C03': 'values:binary_ops',
    'C04': 'values:interval',
    'C05': 'command:cmdtype',
    'C06': 'command:command_values',
    'C07': 'command:default_encoder',
    'C08': 'command:lpddr6_encoder',
    'C09': 'command:overrides',
    'C10': 'command:pattern_handler',
    'C11': 'command:router',
    'C12': 'command:implicit',
    'C13': 'dram:basic_commands',
    'C14': 'dram:refresh_commands',
    'C15': 'dram:power_states',
    'C16': 'dram:window_stats',
    'C17': 'data:stats_combine',
    'C18': 'data:energy_totals',
    'C19': 'data:toggling_handle',
    'C20': 'serial:serialization',
    'C21': 'energy:core_energy',
    'C22': 'energy:interface_energy',
    'C23': 'config:memspec',
    'C24': 'bus:bus',
    'C25': 'bus:pins',
    'C26': 'dbi:dbi',
    'C27': 'iface:commands',
    'C28': 'iface:data',
    'C29': 'iface:window',
    'C30': 'device:device',
    'C31': 'device:extensions',
    'C32': 'state:independent',
    'C33': 'state:determinate',
    'C34': 'cli:trace',
    'C35': 'cli:hexdata',
    'C36': 'cli:pipeline',
    'C37': 'cli:results',
    'C38': 'cli:setup',
    'C39': 'cli:output',
}
