"""C11: time locks never open early and always open eventually."""
from .c12 import C12, execute


class C11(C12):
    id = "C11"
    focus = "time"
    rule = ("A case is one script execution of a time-locked contract in a simulated ledger history, judged by the contract in Python, the contract compiled at several optimisation levels and an independent "
            "model over instants; on top, no block may contain a spend outside the window and an honest retrying party has to succeed. "
            "Distinct by (purpose, redeemer, first rule that fails, numbers of inputs, outputs and reference inputs, bounds of the validity range relative to now).")
    assumptions = ["Time is dense: the range after instant 5 exclusive is not the range from 6 inclusive.", "Windows with an infinite bound are closed there, as the library's helpers build them.",
                   "Ranges without any instant never become part of the ledger and are only compared between the forms."]
    n_quick, n_thorough = 20, 1500
    det_quick = 4


def CHECK(tier, seed):
    return C11(tier, seed)
