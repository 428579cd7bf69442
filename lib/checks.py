"""The properties: id -> (generator, how many programs, evidence rule)."""
import gens

CHECKS = {
    "C01": gens.gen_arith,
    "C02": gens.gen_conv,
    "C03": gens.gen_order,
    "C04": gens.gen_text,
    "C05": gens.gen_control,
    "C06": gens.gen_exc,
    "C07": gens.gen_opt,
    "C08": gens.gen_calls,
    "C09": gens.gen_dispatch,
    "C10": gens.gen_cast,
    "C11": gens.gen_store,
    "C12": gens.gen_array,
    "C13": gens.gen_prop,
    "C14": gens.gen_fault,
    "C15": gens.gen_rules,
    "C16": gens.gen_lib,
    "C17": gens.gen_deleg,
    "C18": gens.gen_enum,
}

# How many times the quick check generates (each time with a random generator of its own).
ROUNDS = {"C01": 4, "C02": 5, "C03": 5, "C04": 8, "C05": 4, "C06": 2, "C07": 2, "C08": 4, "C09": 4,
          "C10": 3, "C11": 3, "C12": 4, "C13": 4, "C14": 2, "C15": 2, "C16": 3, "C17": 3, "C18": 3}
