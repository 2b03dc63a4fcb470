NOT_APPLICABLE = {}
_T = "random and fault-enumerated executions of the real code against an executable model; proves nothing beyond the executions run. Trusts the harness's own storage simulators and its independent reading of the stored format."
H = "model-based stateful property testing (generated histories against a reference model, with shrinking)"
F = "exhaustive single-fault injection over generated histories, against a reference model"
W = "model-based property testing of the worker in virtual time (generated timed event histories)"
TABLE = {
 "C01": (H, "exploration", _T),
 "C02": ("exhaustive power-cut injection (every storage operation, every word of a flash write) over generated histories, against a reference model", "fault_enumeration", "Every storage operation of each generated flush, collection and read is cut before and after its effect, and every multi-word flash write also in between. " + _T),
 "C03": (F + "; random multi-fault histories", "fault_enumeration", "Every storage operation of each generated flush fails or is cancelled, before and after its effect, once. " + _T),
 "C04": (F + "; random multi-fault histories", "fault_enumeration", "Every storage operation of each generated read and collection fails or is cancelled, before and after its effect, once. " + _T),
 "C05": ("property testing of generated storage contents against an independent reading of the format", "exploration", _T),
 "C06": (H + "; generated storage contents", "exploration", _T),
 "C07": (F + "; random multi-fault histories", "fault_enumeration", "Every storage operation of each generated collection fails or is cancelled, before and after its effect, once. " + _T),
 "C08": ("property testing: generated flush histories, then generated damage to the newest records", "exploration", _T),
 "C09": ("property testing: generated flush/collect rounds in storage sized exactly by the property", "exploration", _T),
 "C10": (H + " over observed storage traffic", "exploration", _T),
 "C11": ("silent-corruption injection at every write of generated flushes, against a reference model", "fault_enumeration", "Every write operation of each generated flush is silently corrupted once. " + _T),
 "C12": (H, "exploration", _T),
 "C13": (H, "exploration", _T),
 "C14": (H, "exploration", _T),
 "C15": (H + " with values that register construction and destruction", "exploration", _T),
 "C16": ("property testing of value sizes generated around the limit", "exploration", _T),
 "C17": ("property testing of generated schema changes against an independent reading of the portability rules", "exploration", _T),
 "C18": ("model-based property testing of the flash back end: generated operation sequences against a list model and a second implementation of the queue", "exploration", _T),
 "C19": ("structured fuzzing of storage contents (generated records, mutated images, raw junk) with an independent reading of the format as oracle", "exploration", _T),
 "C20": (W, "exploration", _T),
 "C21": (W, "exploration", _T),
 "C22": (W + ", with injected storage faults", "exploration", _T),
 "C23": ("model-based property testing of generated task scripts under generated schedules", "exploration", _T),
 "C28": ("model-based property testing of generated task scripts under generated schedules", "exploration", _T),
 "C24": (H, "exploration", _T),
 "C25": (H, "exploration", _T),
 "C26": (H, "exploration", _T),
 "C27": (H + " over observed storage traffic", "exploration", _T),
 "C30": (W + ", with injected storage faults and generated leftovers", "exploration", _T),
 "C31": (W + ", with injected storage faults, observing timers, polls and storage traffic", "exploration", _T),
 "C32": ("property testing: generated flush/collect/reboot rounds on simulated flash, observing erase counts", "exploration", _T),
 "C33": (H + " over observed storage traffic", "exploration", _T),
 "C29": ("property testing of generated multi-threaded scripts on real threads (thread sanitizer) and under Miri's seeded schedules, against an interval oracle", "exploration", "Races are found in executions of generated scripts: natively with ThreadSanitizer (happens-before, so the unlucky timing itself is not needed) and interpreted by Miri (tree borrows, weak memory, pre-emption) with generated schedule seeds. Each script runs 12 times natively; native schedules are not under control, so a replay repeats them. Proves nothing beyond the executions run. Trusts critical-section, maitake-sync and cordyceps."),
}
