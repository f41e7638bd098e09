from .rules import locks, threads, active, lints, discipline, timing, bounds, logs, config, manager, getopt, resources, filelog, outputs, plugins, ownership
PROPS = {
    'T01': locks.t01,
    'T02': locks.t02,
    'T03': discipline.t03,
    'T04': discipline.t04,
    'T05': discipline.t05,
    'T06': threads.t06,
    'T07': active.t07,
    'T08': active.t08,
    'C06': lints.c06,
    'H01': lints.h01,
    'C01': timing.c01, 'C02': timing.c02,
    'C10': bounds.c10,
    'L01': logs.l01, 'L02': logs.l02,
    'C04': lints.c04,
    'C14': ownership.c14,
    'G01': config.g01,
    'G02': manager.g02,
    'G03': getopt.g03,
    'R01': resources.r01,
    'L05': filelog.l05,
    'L03': outputs.l03,
    'P01': plugins.p01,
}
