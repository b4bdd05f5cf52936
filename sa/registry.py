from . import samplers, operators, numerics, effects, plots, signatures

CHECKS = {
    "C01": samplers.c01,
    "C02": samplers.c02,
    "C03": samplers.c03,
    "C04": samplers.c04,
    "C05": samplers.c05,
    "C06": samplers.c06,
    "C07": samplers.c07,
    "C15": effects.c15,
    "C18": effects.c18,
    "C20": effects.c20,
    "C16": samplers.c16,
    "C17": samplers.c17,
    "C19": samplers.c19,
    "C08": operators.c08,
    "C09": operators.c09,
    "C10": operators.c10,
    "C11": operators.c11,
    "C12": operators.c12,
    "C13": numerics.c13,
    "C14": numerics.c14,
    "C21": effects.c21,
    "C22": numerics.c22,
    "C23": numerics.c23,
    "C24": numerics.c24,
    "C25": numerics.c25,
    "C26": numerics.c26,
    "C27": plots.c27,
    "C28": numerics.c28,
    "C32": signatures.c32,
}
