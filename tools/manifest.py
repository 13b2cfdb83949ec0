"""writes MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("trace conformance to a reference interpreter, online", "generated machines of all shapes"),
    "C02": ("trace conformance with steered guard outcomes per event", "tables with up to six competing rows per state and event"),
    "C03": ("online monitor of verdict and handler calls", "handled, rejected, deferred and unexpected events in all reached configurations"),
    "C04": ("callback order and argument identity monitor", "all combinations of exit, chained, entry callbacks on plain, self and composite rows"),
    "C05": ("trace conformance on generated hierarchies", "up to six levels of submachines, inherited rows with guards"),
    "C06": ("trace conformance on pseudo-state rows", "entry, exit and direct rows with guards, actions and without events"),
    "C07": ("trace conformance with a history model", "several submachines, one or several regions, plain, pseudo and history entries"),
    "C08": ("trace conformance with a run-to-completion model, hang detection", "anonymous chains with guard budgets, over regions and submachines"),
    "C09": ("trace conformance per region", "up to ten root and three submachine regions, shared state types"),
    "C10": ("trace conformance on internal rows", "internal tables on machine, submachine and state with guards"),
    "C11": ("conservation and order monitor of event serial numbers", "queues of up to 300 pending events, recalls that are handled, rejected, unexpected or deferred again"),
    "C12": ("object identity and data monitor", "each state object carries a serial and a count of visits that are compared in each callback"),
    "C13": ("object lifetime monitor under AddressSanitizer", "creation, reuse, replacement and destruction of custom targets"),
    "C14": ("dependency identity monitor under AddressSanitizer", "old dependencies are destroyed right after rebinding"),
    "C15": ("ThreadSanitizer and per-instance conformance under interleaving", "eight threads, hand over between threads, operations nested in callbacks of other instances"),
    "C16": ("AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck, poisoned storage", "construction, events, exceptions, moves and rebindings"),
    "C17": ("trace conformance over mixed notations", "postfix, prefix and tuple rows; function objects, stored values, lambdas, function pointers"),
    "C18": ("differential monitoring of both header editions", "same programs and seeds, full operation and callback records compared"),
    "C19": ("exhaustive query monitor at every quiescent point", "all region, parent, state combinations after each event and forced state"),
    "C20": ("fault injection with conformance monitor", "exceptions from every callback kind, at steered positions"),
    "C21": ("conformance monitor across moves under AddressSanitizer", "move construction, assignment, moves back and into used machines"),
    "C22": ("live byte accounting per machine", "tens of thousands of events per machine, bytes at empty queue compared with the warm state"),
    "C24": ("trace conformance of the lines written to std::cout", "hsm::log at every place of chains, on all kinds of rows"),
}
checks = []
for p, (t, w) in T.items():
    checks.append(dict(
        property=p, quick_cmd=f"python3 tools/check.py {p} quick", thorough_cmd=f"python3 tools/check.py {p} thorough",
        evidence_file=f"evidence/{p}.json", technique="runtime monitoring: " + t, level="exploration",
        level_note=f"No violation on the explored executions ({w}); part of the machines and all event sequences follow VERIF_SEED. "
                   "Trusts the reference interpreter lib/ref.h, the generator's restrictions named in DESIGN.md, clang's sanitizers."))
m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=checks,
         not_applicable=[dict(property="C23", reason="It is about programs that must not compile: there is no execution that a run-time monitor or sanitizer could observe.")],
         notes="No hooks in /repo: everything is observed through the public interface, callbacks, object life cycles and allocations.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
